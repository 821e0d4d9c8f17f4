package main

import (
	"fmt"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C06"] = check{
		rule:   "From each accepted statement (samples, generated, edited) a run of one to four tokens is taken out or written twice, or one name, literal or number is replaced by another; a case counts when at least one such edit was accepted and the two trees were compared.",
		assume: []string{"Without effect are only: AS before an alias, = after ENGINE, a comma that ends a list, and semicolons at either end."},
		run:    runC06,
	}
}

func runC06(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		s := f.single(c)
		if s == nil {
			return
		}
		toks, err := ref.Lex(c.SQL)
		if err != nil || len(toks) == 0 {
			return
		}
		texts := ref.Texts(toks)
		n := 4
		if c.Kind == "corpus" || c.Kind == "listed finding" {
			n = len(toks) * r.N(4, 40)
		}
		compared := false
		for ; n > 0 && !r.Full(); n-- {
			i := f.rng.Intn(len(toks))
			k := []int{1, 1, 1, 2, 2, 3, 4}[f.rng.Intn(7)]
			if i+k > len(toks) {
				k = 1
			}
			switch f.rng.Intn(4) {
			case 0:
				compared = swapToken(r, f, c, s, texts, toks, i) || compared
			case 1:
				edit := append(append(append([]string{}, texts[:i+k]...), texts[i:i+k]...), texts[i+k:]...)
				compared = sameTree(r, c, s, edit, texts, i, k, "tokens written twice have no effect") || compared
			default:
				edit := append(append([]string{}, texts[:i]...), texts[i+k:]...)
				compared = sameTree(r, c, s, edit, texts, i, k, noEffect) || compared
			}
		}
		r.Eval(c.SQL, compared)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(900, 15000), do)
	f.generate(r.N(60000, 1200000), do)
	f.mutants(r.N(80000, 1500000), do)
	f.finish()
}

const (
	noEffect   = "tokens without effect"
	lostFormat = "FORMAT at the end of a statement that is no query"
)

// noise reports whether token i is one of those that the dialect leaves free.
func noise(ts []string, i int) bool {
	switch ts[i] {
	case ";":
		return i == 0 || i == len(ts)-1 || ts[i-1] == ";" || ts[i+1] == ";"
	case "(": // CODEC(GCD()) is CODEC(GCD)
		return i+1 < len(ts) && ts[i+1] == ")" && count(ts, "CODEC")+count(ts, "codec") > 0
	case ")":
		return i > 0 && ts[i-1] == "(" && count(ts, "CODEC")+count(ts, "codec") > 0
	case "=":
		return i > 0 && strings.EqualFold(ts[i-1], "ENGINE")
	case ",":
		if i+1 == len(ts) {
			return true
		}
		n := ts[i+1]
		return n == ")" || n == "]" || n == "}" || n == ";" || gram.IsKeyword(n)
	}
	return strings.EqualFold(ts[i], "AS")
}

// isTrailingFormat reports whether token i belongs to FORMAT at the end of a
// statement, which only queries keep.
func isTrailingFormat(s ch.Expr, ts []string, i int) bool {
	if _, query := s.(*ch.SelectQuery); query {
		return false
	}
	n := len(ts)
	for n > 0 && ts[n-1] == ";" {
		n--
	}
	return n >= 2 && strings.EqualFold(ts[n-2], "FORMAT") && i >= n-2
}

// sameTree parses the edited tokens; if they are accepted the tree must differ.
func sameTree(r *rep.Run, c *tcase, s ch.Expr, edit, texts []string, i, k int, what string) bool {
	sql := strings.Join(edit, " ")
	begin(r, sql)
	s2, err := parse(sql)
	if err != nil {
		r.Event("edits rejected", 1)
		return false
	}
	if len(s2) != 1 {
		r.Event("edits that make another number of statements", 1)
		return false
	}
	r.Event("accepted edits compared", 1)
	if astx.Equal(s, s2[0], true) != "" {
		return true
	}
	if o1, e1 := format(s); e1 == nil {
		if o2, e2 := format(s2[0]); e2 == nil && o1 != o2 {
			return true // an empty list and none
		}
	}
	if isTrailingFormat(s, texts, i) {
		r.ViolateAt(noEffect, lostFormat, c.SQL, fmt.Sprintf("the same tree comes from %q", sql))
		return true
	}
	for j := i; j < i+k; j++ {
		if !noise(texts, j) {
			r.ViolateAt(what, astx.TypeName(s)+" "+strings.ToUpper(strings.Join(texts[i:i+k], " ")), c.SQL, fmt.Sprintf("the same tree comes from %q", sql))
			return true
		}
	}
	r.Event("edits of free tokens", 1)
	return true
}

// swapToken replaces a name or literal by another one of its kind.
func swapToken(r *rep.Run, f *feed, c *tcase, s ch.Expr, texts []string, toks []ref.Tok, i int) bool {
	t := toks[i]
	mark := ""
	switch {
	case t.Kind == ref.Word && !gram.IsKeyword(t.Text):
		mark = "zqother"
	case t.Kind == ref.Quoted:
		mark = t.Text[:1] + "zqother" + t.Text[:1]
	case t.Kind == ref.String:
		mark = "'zqother'"
	case t.Kind == ref.Number:
		mark = "90000009"
	default:
		return false
	}
	edit := append([]string{}, texts...)
	edit[i] = mark
	sql := strings.Join(edit, " ")
	begin(r, sql)
	s2, err := parse(sql)
	if err != nil || len(s2) != 1 {
		r.Event("edits rejected", 1)
		return false
	}
	r.Event("accepted replacements compared", 1)
	if astx.Equal(s, s2[0], true) == "" {
		if isTrailingFormat(s, texts, i) {
			r.ViolateAt(noEffect, lostFormat, c.SQL, fmt.Sprintf("the same tree comes from %q", sql))
			return true
		}
		r.ViolateAt("name or literal without effect", astx.TypeName(s), c.SQL, fmt.Sprintf("%s may be replaced by %s: %q", t.Text, mark, sql))
	}
	return true
}
