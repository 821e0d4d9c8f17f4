package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/rep"
)

func init() {
	checks["C24"] = check{
		rule: "Random sequences of the formatter's operations (strings, bytes, line breaks, indentation, nodes, reading the text so far) in both modes, against a list of lines; accepted statements with one node exchanged for a value of a type of the monitor's own, which is printed, walked, searched, visited and asked for its positions. " +
			"A case counts when the text or the calls were compared.",
		assume: []string{"A value of the monitor's own type is printed as an identifier of the same text would be at that place, or as the node that it stands for was."},
		run:    runC24,
	}
}

// own is a node that the library does not know.
type own struct {
	text     string
	pos, end ch.Pos
	err      error
	accepted int
	asked    int
}

func (o *own) Pos() ch.Pos               { o.asked++; return o.pos }
func (o *own) End() ch.Pos               { o.asked++; return o.end }
func (o *own) FormatSQL(f *ch.Formatter) { f.WriteString(o.text) }
func (o *own) Type() string              { return "OWN" }
func (o *own) AlterType() string         { return "OWN" }
func (o *own) Accept(ch.ASTVisitor) error {
	o.accepted++
	return o.err
}

func runC24(r *rep.Run) {
	f := newFeed(r)
	var pool []ch.Expr
	places := map[string]int64{}
	do := func(c *tcase) {
		if len(c.SQL) > 3000 {
			return
		}
		for _, s := range f.accept(c) {
			if astx.IsNil(s) {
				continue
			}
			ownNode(f, c.SQL, s, places)
			ns := astx.Nodes(s)
			k := astx.Clone(ns[f.rng.Intn(len(ns))].Expr)
			if len(pool) < 3000 {
				pool = append(pool, k)
			} else {
				pool[f.rng.Intn(len(pool))] = k
			}
			r.Eval(c.SQL, true)
		}
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(600, 15000), do)
	f.generate(r.N(15000, 200000), do)
	f.mutants(r.N(20000, 400000), do)
	for i := 0; i < r.N(40000, 600000) && !r.Full(); i++ {
		operations(f, pool)
	}
	r.Extra["kinds_of_places"] = len(places)
	f.finish()
}

// ownNode puts an own node into the tree.
func ownNode(f *feed, sql string, s ch.Expr, places map[string]int64) {
	r := f.r
	whole, err := format(s)
	if err != nil {
		return // C01
	}
	var pl []place
	mineT := reflect.TypeOf(&own{})
	for _, p := range fieldsOf(s) {
		if p.v.Kind() == reflect.Interface && mineT.AssignableTo(p.v.Type()) && !astx.IsNil(p.node) {
			pl = append(pl, p)
		}
	}
	for try := 0; try < 2 && len(pl) > 0; try++ {
		p := pl[f.rng.Intn(len(pl))]
		begin(r, sql)
		old := reflect.New(p.v.Type()).Elem()
		old.Set(p.v)
		was, _ := format(p.node)
		before := astx.Nodes(s)
		gone := map[nodeKey]bool{}
		for _, n := range astx.Nodes(p.node) {
			gone[keyOf(n.Expr)] = true
		}
		places[p.name]++
		ind := []string{"  ", "\t", " ", "    "}[f.rng.Intn(4)]
		// the text
		name := &ch.Ident{Name: "zqmine", NamePos: p.node.Pos(), NameEnd: p.node.End()}
		var want, bwant string
		hasName := false
		if reflect.TypeOf(name).AssignableTo(p.v.Type()) {
			p.v.Set(reflect.ValueOf(name))
			var e1, e2 error
			want, e1 = format(s)
			bwant, e2 = beautify(s, ind)
			hasName = e1 == nil && e2 == nil
		}
		o := &own{text: "zqmine", pos: p.node.Pos(), end: p.node.End()}
		p.v.Set(reflect.ValueOf(o))
		now, err := format(s)
		bnow, berr := beautify(s, ind)
		site := p.name
		if err != nil || berr != nil {
			r.ViolateAt("a tree with a node of the caller's own cannot be formatted", site, sql, errStr(err)+errStr(berr))
		} else {
			r.Event("own nodes printed", 1)
			switch {
			case strings.Count(now, "zqmine") != 1 || strings.Count(bnow, "zqmine") != 1:
				r.ViolateAt("a node of the caller's own is not printed once", site, sql, now+"\n"+bnow)
			case hasName && (now != want || bnow != bwant):
				r.ViolateAt("a node of the caller's own is printed unlike a name", site, sql, want+"\n"+now+"\n"+bwant+"\n"+bnow)
			case !hasName && !ownText[p.name] && !swapped(whole, now, was, "zqmine"):
				r.ViolateAt("a node of the caller's own changes more than its text", site, sql, whole+"\n"+now)
			}
		}
		// the walks
		seen := map[nodeKey]int{}
		mine := 0
		perr := guard(func() {
			ch.Walk(s, func(e ch.Expr) bool {
				if e == ch.Expr(o) {
					mine++
				} else {
					seen[keyOf(e)]++
				}
				return true
			})
		})
		if perr != nil {
			r.ViolateAt("a tree with a node of the caller's own cannot be walked", site, sql, perr.Error())
		} else {
			if mine != 1 {
				r.ViolateAt("Walk meets a node of the caller's own another number of times than once", site, sql, fmt.Sprint(mine, " times"))
			}
			for _, n := range before {
				k := keyOf(n.Expr)
				w := 1
				if gone[k] {
					w = 0
				}
				if seen[k] != w {
					r.ViolateAt("a node of the caller's own changes the walk", site, sql, fmt.Sprintf("%s met %d times", n.Type(), seen[k]))
					break
				}
			}
			got, ok := ch.Find(s, func(e ch.Expr) bool { return e == ch.Expr(o) })
			if !ok || got != ch.Expr(o) || len(ch.FindAll(s, func(e ch.Expr) bool { _, is := e.(*own); return is })) != 1 {
				r.ViolateAt("a node of the caller's own is not found", site, sql, "")
			}
			stop := 0
			ch.WalkWithBreak(s, func(e ch.Expr) bool {
				stop++
				return e != ch.Expr(o)
			})
			at, k := 0, 0
			ch.Walk(s, func(e ch.Expr) bool {
				k++
				if e == ch.Expr(o) {
					at = k
				}
				return true
			})
			if stop != at {
				r.ViolateAt("WalkWithBreak goes on behind a node of the caller's own", site, sql, fmt.Sprint(stop, " of ", at))
			}
		}
		// the visit
		o.accepted = 0
		var verr error
		perr = guard(func() { verr = s.Accept(&ch.DefaultASTVisitor{}) })
		if perr != nil || verr != nil || o.accepted != 1 {
			r.ViolateAt("a node of the caller's own is not visited once", site, sql, fmt.Sprint(o.accepted, " times ", errStr(perr), errStr(verr)))
		}
		o.err = errors.New("own error")
		perr = guard(func() { verr = s.Accept(&ch.DefaultASTVisitor{}) })
		if perr != nil || verr != o.err {
			r.ViolateAt("the error of a node of the caller's own does not come out", site, sql, errStr(perr)+errStr(verr))
		}
		perr = guard(func() {
			for _, n := range before {
				if !gone[keyOf(n.Expr)] {
					n.Expr.Pos()
					n.Expr.End()
				}
			}
		})
		if perr != nil {
			r.ViolateAt("positions around a node of the caller's own panic", site, sql, perr.Error())
		}
		r.Event("own nodes walked and visited", 1)
		p.v.Set(old)
	}
	if c, err := format(s); err != nil || c != whole {
		r.Violate("exchanging a node and putting it back changes the text", sql, whole+"\n"+c)
	}
}

// operations runs a formatter and a model of it side by side.
func operations(f *feed, pool []ch.Expr) {
	r := f.r
	pretty := f.rng.Intn(3) > 0
	indent := []string{"  ", "\t", "    ", " ", "\t ", "      "}[f.rng.Intn(6)]
	var log, b strings.Builder
	level, fresh := 0, true
	put := func(s string) { // the model: what lines hold
		for i := 0; i < len(s); i++ {
			if pretty && s[i] != '\n' && fresh {
				b.WriteString(strings.Repeat(indent, level))
				fresh = false
			}
			b.WriteByte(s[i])
			if s[i] == '\n' {
				fresh = true
			}
		}
	}
	g := ch.NewFormatter()
	if pretty {
		switch f.rng.Intn(3) {
		case 0:
			g, indent = g.WithBeautify(), "  "
		case 1:
			g = g.WithIndent(indent).WithBeautify()
		default:
			g = g.WithBeautify().WithIndent(indent)
		}
	}
	texts := []string{"a", "", "SELECT", " ", "x\ny", "\n", "\n\n", "é", "a b\n", "\t", "'q'", "\x00", "\r\n", "longer text, with commas"}
	steps := 1 + f.rng.Intn(40)
	perr := guard(func() {
		for i := 0; i < steps; i++ {
			k := f.rng.Intn(14)
			switch k {
			case 0, 1, 2:
				s := texts[f.rng.Intn(len(texts))]
				fmt.Fprintf(&log, "WriteString(%q) ", s)
				g.WriteString(s)
				put(s)
			case 3, 4:
				c := "ab \n\tz(\x80"[f.rng.Intn(8)]
				fmt.Fprintf(&log, "WriteByte(%q) ", c)
				g.WriteByte(c)
				put(string([]byte{c}))
			case 5:
				log.WriteString("NewLine ")
				g.NewLine()
				if pretty {
					put("\n")
				}
			case 6:
				log.WriteString("Break ")
				g.Break()
				if pretty {
					put("\n")
				} else {
					put(" ")
				}
			case 7, 8:
				log.WriteString("Indent ")
				g.Indent()
				level++
			case 9, 10:
				log.WriteString("Dedent ")
				g.Dedent()
				level = max(0, level-1)
			case 11:
				fmt.Fprintf(&log, "WriteExpr(own) ")
				s := texts[f.rng.Intn(len(texts))]
				g.WriteExpr(&own{text: s})
				put(s)
			case 12:
				if len(pool) == 0 {
					continue
				}
				e := pool[f.rng.Intn(len(pool))]
				s, err := format(e)
				if err != nil {
					continue
				}
				if pretty {
					own, err := beautify(e, indent)
					if err != nil {
						continue
					}
					if !fresh || level > 0 { // C23's
						if strings.ContainsAny(own, "\n") {
							continue
						}
					}
					s = own
				}
				fmt.Fprintf(&log, "WriteExpr(%s) ", clip(s, 60))
				g.WriteExpr(e)
				put(s)
			case 13:
				log.WriteString("String ")
				if g.String() != b.String() {
					r.ViolateAt("the formatter's text is not what was written", mode(pretty), log.String(), fmt.Sprintf("expected %q\nhas      %q", b.String(), g.String()))
					return
				}
			}
		}
	})
	if perr != nil {
		r.ViolateAt("formatter panics", panicSite(perr), log.String(), perr.Error())
		return
	}
	if g.String() != b.String() {
		r.ViolateAt("the formatter's text is not what was written", mode(pretty), log.String(), fmt.Sprintf("expected %q\nhas      %q", b.String(), g.String()))
	}
	r.Event("formatter runs compared", 1)
	r.Event("formatter operations", int64(steps))
	r.Eval("formatter "+log.String(), true)
}

func mode(pretty bool) string {
	if pretty {
		return "beautify"
	}
	return "compact"
}
