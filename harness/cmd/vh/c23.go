package main

import (
	"fmt"
	"reflect"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C23"] = check{
		rule: "Accepted statements of all kinds. Each node is formatted on its own and looked up in the text of its parent; the positions of the tree are overwritten; nodes are written by a formatter that is indented and that wrote another statement before; a node is exchanged for another one that stood at the same place in another statement. " +
			"A case counts when the texts of its nodes were compared.",
		assume: []string{"Five places where the parent puts words of its own into a node are left out: the parts of a join, the settings of SET and of a dictionary, the target of a materialized view with its columns, and the index of ADD INDEX IF NOT EXISTS."},
		run:    runC23,
	}
}

// ownText are places whose text is another one inside the parent.
var ownText = set(`JoinExpr.Constraints JoinExpr.Right JoinExpr.Left SetStmt.Settings DictionaryEngineClause.Settings
 DestinationClause.TableSchema CreateMaterializedView.Destination AlterTableAddIndex.Index`)

// place is a field or list item that holds a node.
type place struct {
	v    reflect.Value
	name string // type and field that hold it, and the type held
	node ch.Expr
}

// fieldsOf lists the settable fields and list items that hold nodes.
func fieldsOf(root ch.Expr) []place {
	var out []place
	exprT := reflect.TypeOf((*ch.Expr)(nil)).Elem()
	var visit func(v reflect.Value, owner, field string)
	visit = func(v reflect.Value, owner, field string) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if v.IsNil() {
				return
			}
			if v.Type().Implements(exprT) && owner != "" && v.CanSet() {
				e := v.Interface().(ch.Expr)
				out = append(out, place{v, owner + "." + field, e})
			}
			e := v.Elem()
			for e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface {
				if e.IsNil() {
					return
				}
				e = e.Elem()
			}
			if e.Kind() == reflect.Struct {
				t := e.Type()
				for i := 0; i < t.NumField(); i++ {
					if t.Field(i).IsExported() {
						visit(e.Field(i), t.Name(), t.Field(i).Name)
					}
				}
			}
		case reflect.Struct:
			t := v.Type()
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).IsExported() {
					visit(v.Field(i), t.Name(), t.Field(i).Name)
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i), owner, field)
			}
		}
	}
	visit(reflect.ValueOf(root), "", "")
	return out
}

// scramble overwrites every position of the tree.
func scramble(root ch.Expr, next func() int) {
	posT := reflect.TypeOf(ch.Pos(0))
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		if v.Type() == posT {
			if v.CanSet() && v.Int() != 0 { // 0 stands for what is not there
				v.SetInt(int64(next()))
			}
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					visit(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		}
	}
	visit(reflect.ValueOf(root))
}

// shifted is beautified text with each line moved in by prefix, quoted text aside.
func shifted(text, prefix string) (string, bool) {
	toks, err := ref.Lex(text)
	if err != nil {
		return "", false
	}
	var b strings.Builder
	at := 0
	gap := func(s string, last bool) {
		for i := 0; i < len(s); i++ {
			b.WriteByte(s[i])
			if s[i] == '\n' && (i+1 < len(s) && s[i+1] != '\n' || i+1 == len(s) && !last) {
				b.WriteString(prefix)
			}
		}
	}
	if text != "" && text[0] != '\n' {
		b.WriteString(prefix)
	}
	for _, t := range toks {
		gap(text[at:t.Start], false)
		b.WriteString(text[t.Start:t.End])
		at = t.End
	}
	gap(text[at:], true)
	return b.String(), true
}

// swapped tells whether b is a with one x in it exchanged for y.
func swapped(a, b, x, y string) bool {
	for i := 0; i+len(x) <= len(a); i++ {
		if a[i:i+len(x)] == x && len(b) == len(a)-len(x)+len(y) && b[:i] == a[:i] && b[i:i+len(y)] == y && b[i+len(y):] == a[i+len(x):] {
			return true
		}
	}
	return false
}

func runC23(r *rep.Run) {
	f := newFeed(r)
	donors := map[string][]ch.Expr{}
	var prev ch.Expr
	do := func(c *tcase) {
		if len(c.SQL) > 3000 {
			return
		}
		for _, s := range f.accept(c) {
			alone(f, c.SQL, s, donors, prev)
			prev = s
			r.Eval(c.SQL, true)
		}
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2000, 25000), do)
	f.generate(r.N(24000, 200000), do)
	f.mutants(r.N(50000, 600000), do)
	r.Extra["kinds_of_places_with_donors"] = len(donors)
	f.finish()
}

func alone(f *feed, sql string, s ch.Expr, donors map[string][]ch.Expr, prev ch.Expr) {
	r := f.r
	whole, err := format(s)
	if err != nil {
		return // C01
	}
	pretty, err := beautify(s, "  ")
	if err != nil {
		return
	}
	// positions
	k := astx.Clone(s)
	scramble(k, func() int { return 1 + f.rng.Intn(1<<16) })
	if c, err := format(k); err != nil || c != whole {
		r.ViolateAt("text depends on positions", astx.TypeName(s), sql, fmt.Sprint(whole, "\n", c, err))
	}
	if b, err := beautify(k, "  "); err != nil || b != pretty {
		r.ViolateAt("beautified text depends on positions", astx.TypeName(s), sql, fmt.Sprint(pretty, "\n", b, err))
	}
	r.Event("trees formatted with other positions", 1)
	// each node inside its parent
	nodes := astx.Nodes(s)
	text := map[*astx.Node]string{}
	for _, x := range nodes {
		t, err := format(x.Expr)
		if err != nil {
			r.ViolateAt("a node alone cannot be formatted", x.Type(), sql, err.Error())
			return
		}
		text[x] = t
		if x.Parent != nil && !strings.Contains(text[x.Parent], t) && !ownText[x.Parent.Type()+"."+x.Field] {
			r.ViolateAt("a node alone has another text", x.Parent.Type()+"."+x.Field+" "+x.Type(), sql, "alone: "+t+"\ninside: "+text[x.Parent])
		}
		r.Event("nodes looked up in their parents", 1)
	}
	// a node beautified alone, moved in, and behind another statement
	x := nodes[f.rng.Intn(len(nodes))]
	own, err := beautify(x.Expr, "  ")
	if err != nil {
		r.ViolateAt("a node alone cannot be formatted", x.Type(), sql, err.Error())
		return
	}
	a, e1 := ref.Lex(own)
	b, e2 := ref.Lex(text[x])
	if e1 != nil || e2 != nil || strings.Join(ref.Texts(a), " ") != strings.Join(ref.Texts(b), " ") {
		r.ViolateAt("a node alone has other words when beautified", x.Type(), sql, own+"\n"+text[x])
	}
	ind := []string{"  ", "\t", "    ", " "}[f.rng.Intn(4)]
	n := 1 + f.rng.Intn(3)
	if f.rng.Intn(8) == 0 {
		n = 1 + f.rng.Intn(60)
	}
	own, _ = beautify(x.Expr, ind)
	var deep string
	err = guard(func() {
		g := ch.NewFormatter().WithBeautify().WithIndent(ind)
		for i := 0; i < n; i++ {
			g.Indent()
		}
		g.WriteExpr(x.Expr)
		for i := 0; i < n; i++ {
			g.Dedent()
		}
		g.WriteString("\n;")
		deep = g.String()
	})
	if want, ok := shifted(own, strings.Repeat(ind, n)); ok && (err != nil || deep != want+"\n;") {
		r.ViolateAt("indented text is not the text moved in", x.Type(), sql, fmt.Sprintf("%q\n%q", want, deep))
	}
	r.Event("nodes beautified with the formatter indented", 1)
	if prev != nil {
		p1, _ := format(prev)
		p2, _ := beautify(prev, ind)
		var c, d string
		err := guard(func() {
			g := ch.NewFormatter()
			g.WriteExpr(prev)
			g.WriteString(";\n")
			g.WriteExpr(x.Expr)
			c = g.String()
			g = ch.NewFormatter().WithBeautify().WithIndent(ind)
			g.WriteExpr(prev)
			g.WriteString(";\n")
			g.WriteExpr(x.Expr)
			d = g.String()
		})
		if err != nil || c != p1+";\n"+text[x] || d != p2+";\n"+own {
			r.ViolateAt("text depends on what the formatter wrote before", astx.TypeName(prev)+" then "+x.Type(), sql, fmt.Sprintf("%q\n%q\n%q", p1+";\n"+text[x], c, d))
		}
		r.Event("nodes written behind a statement", 1)
	}
	// another node at its place
	pl := fieldsOf(s)
	for try := 0; try < 3 && len(pl) > 0; try++ {
		p := pl[f.rng.Intn(len(pl))]
		if astx.IsNil(p.node) || ownText[p.name] {
			continue
		}
		key := p.name + " " + astx.TypeName(p.node)
		have := donors[key]
		if len(have) > 0 {
			d := have[f.rng.Intn(len(have))]
			x, _ := format(p.node)
			y, _ := format(d)
			old := reflect.New(p.v.Type()).Elem()
			old.Set(p.v)
			p.v.Set(reflect.ValueOf(d))
			now, err := format(s)
			bnow, berr := beautify(s, ind)
			p.v.Set(old)
			tight := func(s string) string { return strings.ReplaceAll(s, " ", "") } // a bracket may have a space in front or not
			if err != nil || !swapped(whole, now, x, y) && !swapped(tight(whole), tight(now), tight(x), tight(y)) {
				r.ViolateAt("another node changes more than its text", p.name+" "+astx.TypeName(p.node)+" by "+astx.TypeName(d), sql, fmt.Sprintf("%q by %q\n%s\n%s", x, y, whole, now))
			} else if a, e1 := ref.Lex(now); e1 == nil {
				if b, e2 := ref.Lex(bnow); berr != nil || e2 != nil || strings.Join(ref.Texts(a), " ") != strings.Join(ref.Texts(b), " ") {
					r.ViolateAt("exchanged node has other words when beautified", p.name+" "+astx.TypeName(p.node)+" by "+astx.TypeName(d), sql, now+"\n"+bnow)
				}
			}
			r.Event("nodes exchanged", 1)
		}
		if k := astx.Clone(p.node); len(have) < 40 {
			donors[key] = append(have, k)
		} else {
			have[f.rng.Intn(len(have))] = k
		}
	}
}
