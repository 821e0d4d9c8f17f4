package main

import (
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C03"] = check{
		rule:   "Sample queries, statements generated from the grammar with unusual names and literals, and edited statements that the library accepts. A case counts when the statement was accepted, and so formatted, read again and compared.",
		assume: []string{"Trees are compared field by field by reflection, positions aside."},
		run:    runC03,
	}
}

func runC03(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		for _, s := range f.accept(c) {
			if astx.IsNil(s) {
				continue
			}
			roundTrip(r, c.SQL, s)
		}
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 250000), do)
	f.mutants(r.N(150000, 1500000), do)
	f.finish()
}

func roundTrip(r *rep.Run, sql string, s ch.Expr) {
	out, err := format(s)
	if err != nil {
		r.Violate("format panics", sql, err.Error())
		return
	}
	s2, err := parse(out)
	if err != nil {
		r.ViolateAt("formatted text is rejected", reparseSite(s, sql, out), sql, "formatted as "+out+"\n"+err.Error())
		return
	}
	if len(s2) != 1 {
		r.ViolateAt("formatted text is not one statement", astx.TypeName(s), sql, "formatted as "+out)
		return
	}
	r.Event("formatted texts read back", 1)
	if d, site := astx.Diff(astx.Canon(s), astx.Canon(s2[0]), true); d != "" {
		// does a loss that golden files fix explain all of it?
		lossy := astx.Canon(s)
		for _, n := range astx.Nodes(lossy) {
			if p, ok := n.Expr.(*ch.PartitionClause); ok && p.ID != nil {
				p.Expr, p.ID = p.ID, nil
			}
		}
		if astx.Equal(lossy, astx.Canon(s2[0]), true) == "" {
			site = "PartitionClause.ID printed without the keyword ID"
		}
		r.ViolateAt("tree differs after formatting", site, sql, "formatted as "+out+"\n"+d)
		return
	}
	out2, err := format(s2[0])
	if err != nil || out2 != out {
		r.ViolateAt("formatting again differs", astx.TypeName(s), sql, "first  "+out+"\nsecond "+out2)
	}
}

// reparseSite names the place a rejected printout is about: the statement type,
// unless a reserved word stands as a bare name in an engine clause or a LIMIT
// offset that the formatter prints at another place than it was read.
func reparseSite(s ch.Expr, sql, out string) string {
	a, e1 := ref.Lex(sql)
	b, e2 := ref.Lex(out)
	if e1 == nil && e2 == nil && orderDiffers(a, b) {
		for _, n := range astx.Nodes(s) {
			id, ok := n.Expr.(*ch.Ident)
			if !ok || id.QuoteType != ch.Unquoted || !gram.Reserved[strings.ToUpper(id.Name)] {
				continue
			}
			if under(n, "EngineExpr") {
				return "reserved word as a bare name in an engine clause that is printed elsewhere"
			}
			for p := n; p.Parent != nil && p.Parent.Parent != nil; p = p.Parent {
				if p.Field == "Offset" && p.Parent.Type() == "LimitClause" && p.Parent.Parent.Type() == "LimitByClause" {
					return "reserved word as a bare name in front of the comma of LIMIT offset, count BY"
				}
			}
		}
	}
	return astx.TypeName(s)
}

func under(n *astx.Node, typ string) bool {
	for p := n.Parent; p != nil; p = p.Parent {
		if p.Type() == typ {
			return true
		}
	}
	return false
}

// orderDiffers reports whether the words of the two texts come in another order.
func orderDiffers(a, b []ref.Tok) bool {
	i := 0
	var x, y []string
	for _, t := range a {
		if t.Kind == ref.Word {
			x = append(x, t.Upper())
		}
	}
	for _, t := range b {
		if t.Kind == ref.Word {
			y = append(y, t.Upper())
		}
	}
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	return i < len(x) && i < len(y)
}

// sameTokens compares two texts token by token with the reference tokenizer.
func sameTokens(a, b string) bool {
	x, e1 := ref.Lex(a)
	y, e2 := ref.Lex(b)
	if (e1 == nil) != (e2 == nil) || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Text != y[i].Text {
			return false
		}
	}
	return true
}

var _ = strings.TrimSpace
