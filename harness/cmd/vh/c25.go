package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/rep"
)

func init() {
	checks["C25"] = check{
		rule: "Accepted statements of all kinds, each parsed twice and once more inside a script with earlier ones. The memory of every node and list of these trees is compared for overlap; then one of the trees is overwritten (texts, numbers, flags, list items and the room behind them), and the others, the error of a wrong text and the results of parsing again are compared with what they were. " +
			"A case counts when the trees were compared after the overwriting.",
		assume: []string{"What a tree owns is what its exported fields lead to."},
		run:    runC25,
	}
}

// An area is the memory of a node or a list.
type area struct {
	from, to uintptr
	what     string
}

// areas lists the memory below a tree.
func areas(root ch.Expr, tag string) []area {
	var out []area
	seen := map[uintptr]reflect.Type{}
	var visit func(v reflect.Value, at string, inside bool)
	visit = func(v reflect.Value, at string, inside bool) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem(), at, false)
			}
		case reflect.Ptr:
			if v.IsNil() || v.Elem().Type().Size() == 0 {
				return
			}
			if seen[v.Pointer()] != v.Type() {
				seen[v.Pointer()] = v.Type()
			} else {
				out = append(out, area{v.Pointer(), v.Pointer() + v.Elem().Type().Size(), tag + at})
				return
			}
			out = append(out, area{v.Pointer(), v.Pointer() + v.Elem().Type().Size(), tag + at})
			visit(v.Elem(), at, true)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					visit(v.Field(i), v.Type().Name()+"."+v.Type().Field(i).Name, true)
				}
			}
		case reflect.Slice:
			if n := v.Type().Elem().Size() * uintptr(v.Cap()); n > 0 {
				out = append(out, area{v.Pointer(), v.Pointer() + n, tag + at + " list"})
			}
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i), at, true)
			}
		case reflect.Map:
			if !v.IsNil() {
				out = append(out, area{v.Pointer(), v.Pointer() + 1, tag + at + " map"})
			}
		}
	}
	visit(reflect.ValueOf(root), astx.TypeName(root), false)
	return out
}

// overlap finds two areas of one piece of memory.
func overlap(as []area) (string, bool) {
	sort.Slice(as, func(i, j int) bool { return as[i].from < as[j].from })
	for i := 1; i < len(as); i++ {
		if as[i].from < as[i-1].to {
			return as[i-1].what + " and " + as[i].what, true
		}
	}
	return "", false
}

// overwrite changes everything below a tree.
func overwrite(v reflect.Value, n *int64) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			overwrite(v.Elem(), n)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			overwrite(v.Elem(), n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				overwrite(v.Field(i), n)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), n)
		}
		// the room behind the items, as an append would use it
		whole := v.Slice(0, v.Cap())
		for i := v.Len(); i < v.Cap(); i++ {
			if v.Len() > 0 {
				whole.Index(i).Set(v.Index(0))
			}
		}
		for i := v.Len() - 1; i > 0; i-- {
			a, b := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(0).Interface())
			if a.IsValid() && b.IsValid() {
				v.Index(i).Set(b)
				v.Index(0).Set(a)
			}
		}
	}
	if !v.CanSet() {
		return
	}
	*n++
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint("overwritten", *n))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(*n % 100)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(*n % 100))
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func runC25(r *rep.Run) {
	f := newFeed(r)
	type old struct {
		sql  string
		tree []ch.Expr
		dump string
	}
	all := func(ss []ch.Expr) string {
		var b strings.Builder
		for _, s := range ss {
			b.WriteString(astx.Dump(s, true) + "\n")
		}
		return b.String()
	}
	var kept []old
	wrong := "SELECT a FROM"
	_, werr := parse(wrong)
	wtext := errStr(werr)
	do := func(c *tcase) {
		if len(c.SQL) > 4000 {
			return
		}
		one := f.accept(c)
		if len(one) == 0 {
			// errors are the caller's too
			_, e1 := parse(c.SQL)
			_, e2 := parse(c.SQL)
			a, ok1 := e1.(*ch.ParseError)
			b, ok2 := e2.(*ch.ParseError)
			if ok1 && ok2 {
				was := b.Error()
				if a == b || a.Got != nil && a.Got == b.Got {
					r.Violate("two parses share an error", c.SQL, was)
				}
				var n int64
				for i := range a.Expected {
					a.Expected[i] = "overwritten"
				}
				a.Expected = nil
				overwrite(reflect.ValueOf(a), &n)
				if a.Got != nil {
					overwrite(reflect.ValueOf(a.Got), &n)
				}
				_, e3 := parse(c.SQL)
				if b.Error() != was || errStr(e3) != was {
					r.Violate("changing an error changes another one", c.SQL, was+"\n"+b.Error()+"\n"+errStr(e3))
				}
				r.Event("errors overwritten", 1)
			}
			return
		}
		two, err := parse(c.SQL)
		if err != nil {
			return // C15
		}
		trees := [][]ch.Expr{one, two}
		names := []string{"", "second parse: "}
		// in one script with an earlier text
		if len(kept) > 0 && f.rng.Intn(2) == 0 {
			o := kept[f.rng.Intn(len(kept))]
			if s, err := parse(strings.TrimRight(o.sql, "; \n") + "\n;\n" + c.SQL); err == nil {
				trees = append(trees, s)
				names = append(names, "in a script: ")
			}
		}
		var as []area
		for k, t := range trees {
			for i, s := range t {
				if astx.IsNil(s) {
					return
				}
				as = append(as, areas(s, fmt.Sprintf("%sstatement %d: ", names[k], i))...)
			}
		}
		last := len(kept) - 1
		if last >= 0 {
			for _, s := range kept[last].tree {
				as = append(as, areas(s, "an earlier text: ")...)
			}
		}
		r.Event("areas of memory compared", int64(len(as)))
		if s, bad := overlap(as); bad {
			site := s
			for _, p := range []string{"second parse: ", "in a script: ", "an earlier text: "} {
				site = strings.ReplaceAll(site, p, "")
			}
			r.ViolateAt("two places of trees share memory", site, c.SQL, s)
		}
		d2 := all(two)
		d1 := all(one)
		if d1 != d2 {
			return // C15
		}
		var d3 []string
		for _, s := range trees[len(trees)-1] {
			d3 = append(d3, astx.Dump(s, true))
		}
		k := astx.Dump(one[0], true)
		// one statement of the script, the others stay
		if len(trees) == 3 && len(trees[2]) > 1 {
			i := f.rng.Intn(len(trees[2]))
			var n int64
			overwrite(reflect.ValueOf(trees[2][i]), &n)
			for j, s := range trees[2] {
				if j != i && astx.Dump(s, true) != d3[j] {
					r.ViolateAt("changing one statement of a script changes another", astx.TypeName(trees[2][i]), c.SQL, clip(d3[j], 500)+"\n"+clip(astx.Dump(s, true), 500))
				}
			}
			r.Event("statements of scripts overwritten", 1)
		}
		var n int64
		for _, s := range one {
			overwrite(reflect.ValueOf(s), &n)
		}
		r.Event("fields overwritten", n)
		if n > 3 && astx.Dump(one[0], true) == k {
			panic("overwriting did nothing")
		}
		if d := all(two); d != d2 {
			r.ViolateAt("changing a tree changes another", astx.TypeName(one[0]), c.SQL, clip(d2, 500)+"\n"+clip(d, 500))
		}
		if again, err := parse(c.SQL); err != nil || all(again) != d1 {
			r.ViolateAt("changing a tree changes what is parsed later", astx.TypeName(one[0]), c.SQL, clip(d1, 500)+"\n"+clip(all(again)+errStr(err), 500))
		}
		if len(kept) > 0 {
			o := kept[f.rng.Intn(len(kept))]
			if all(o.tree) != o.dump {
				r.ViolateAt("changing a tree changes an earlier one", astx.TypeName(o.tree[0]), o.sql+"\n;\n"+c.SQL, clip(o.dump, 500)+"\n"+clip(all(o.tree), 500))
			}
			if f.rng.Intn(4) == 0 {
				if s, err := parse(o.sql); err != nil || all(s) != o.dump {
					r.ViolateAt("changing a tree changes what is parsed later", astx.TypeName(o.tree[0]), o.sql, clip(o.dump, 500)+"\n"+clip(all(s)+errStr(err), 500))
				}
				if _, err := parse(wrong); errStr(err) != wtext {
					r.Violate("changing a tree changes an error", wrong, wtext+"\n"+errStr(err))
				}
			}
		}
		if len(kept) < 400 {
			kept = append(kept, old{c.SQL, two, d2})
		} else {
			kept[f.rng.Intn(len(kept))] = old{c.SQL, two, d2}
		}
		r.Event("trees overwritten", 1)
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(600, 15000), do)
	f.generate(r.N(12000, 150000), do)
	f.mutants(r.N(30000, 400000), do)
	f.finish()
}
