package main

import (
	"fmt"
	"sort"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C05"] = check{
		rule:   "Sample queries, generated statements with unusual names and literals, and edited statements that the library accepts: the tokens of the source and of the compact and beautified outputs are counted and their order compared; a case counts when the statement was accepted and compared.",
		assume: []string{"The harness's own reading of tokens (harness/ref), written from the ClickHouse lexical rules.", "Differences that golden files fix are listed in c05.go (account)."},
		run:    runC05,
	}
}

// words folds the letter case of keywords.
func words(ts []ref.Tok) []string {
	var out []string
	for _, t := range ts {
		s := t.Text
		if t.Kind == ref.Word && gram.IsKeyword(s) {
			s = strings.ToUpper(s)
			switch s { // two spellings of one word
			case "ASCENDING":
				s = "ASC"
			case "DESCENDING":
				s = "DESC"
			}
		}
		out = append(out, s)
	}
	return out
}

func runC05(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		s := f.single(c)
		if s == nil {
			return
		}
		keepsWords(r, c, s)
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2000, 25000), do)
	f.generate(r.N(40000, 400000), do)
	f.mutants(r.N(200000, 2500000), do)
	f.finish()
}

// freeOrder reports whether the statement holds clauses that are printed in a
// fixed order, whatever order they were written in.
func freeOrder(s ch.Expr) bool {
	for _, n := range astx.Nodes(s) {
		switch x := n.Expr.(type) {
		case *ch.CreateUser, *ch.CreateDictionary, *ch.CreateMaterializedView, *ch.EngineExpr, *ch.JSONType, *ch.SystemReloadExpr, *ch.GroupByClause:
			return true
		case *ch.LimitClause:
			if x.Offset != nil {
				return true
			}
		}
	}
	return false
}

func keepsWords(r *rep.Run, c *tcase, s ch.Expr) {
	toks, err := ref.Lex(c.SQL)
	if err != nil {
		r.ViolateAt("accepted text has no reading", astx.TypeName(s), c.SQL, err.Error())
		return
	}
	out, err := format(s)
	if err != nil {
		return // C01's
	}
	ot, err := ref.Lex(out)
	if err != nil {
		r.ViolateAt("printed text has no reading", astx.TypeName(s), c.SQL, out)
		return
	}
	src, dst := account(s, words(toks), words(ot))
	r.Event("source tokens accounted for", int64(len(toks)))
	have := map[string]int{}
	for _, x := range src {
		have[x]++
	}
	for _, x := range dst {
		have[x]--
	}
	var lost, extra []string
	for k, n := range have {
		switch {
		case n > 0:
			lost = append(lost, k)
		case n < 0:
			extra = append(extra, k)
		}
	}
	sort.Strings(lost)
	sort.Strings(extra)
	detail := fmt.Sprintf("printed as %q", out)
	if len(lost) > 0 {
		if lostTrailingFormat(s, toks, lost) {
			r.ViolateAt("tokens lost in printing", lostFormat, c.SQL, detail)
			return
		}
		r.ViolateAt("tokens lost in printing", astx.TypeName(s)+" "+clip(strings.Join(lost, " "), 40), c.SQL, fmt.Sprintf("lost %q, new %q; %s", lost, extra, detail))
		return
	}
	if len(extra) > 0 {
		r.ViolateAt("tokens made up in printing", astx.TypeName(s)+" "+clip(strings.Join(extra, " "), 40), c.SQL, fmt.Sprintf("new %q; %s", extra, detail))
		return
	}
	if freeOrder(s) {
		r.Event("statements with clauses of free order", 1)
		return
	}
	r.Event("token orders compared", 1)
	for i := range src {
		if src[i] != dst[i] {
			r.ViolateAt("tokens change their order in printing", astx.TypeName(s), c.SQL, fmt.Sprintf("at %q and %q; %s", src[i], dst[i], detail))
			return
		}
	}
}

// lostTrailingFormat reports whether what is missing is the FORMAT clause at
// the end of a statement that is no query.
func lostTrailingFormat(s ch.Expr, toks []ref.Tok, lost []string) bool {
	if _, query := s.(*ch.SelectQuery); query {
		return false
	}
	for len(toks) > 0 && toks[len(toks)-1].Text == ";" {
		toks = toks[:len(toks)-1]
	}
	n := len(toks)
	if n < 2 || !strings.EqualFold(toks[n-2].Text, "FORMAT") {
		return false
	}
	end := words(toks[n-2:])
	for _, l := range lost {
		if l != end[0] && l != end[1] {
			return false
		}
	}
	return true
}

// account settles the differences that the output is allowed: it returns both
// token lists without them.
func account(s ch.Expr, src, dst []string) ([]string, []string) {
	// statement starters with two spellings
	for len(src) > 0 && src[0] == ";" {
		src = src[1:]
	}
	for len(src) > 0 && src[len(src)-1] == ";" {
		src = src[:len(src)-1]
	}
	if len(src) > 0 && len(dst) > 0 && src[0] != dst[0] {
		switch {
		case src[0] == "ATTACH" && dst[0] == "CREATE",
			src[0] == "DESC" && dst[0] == "DESCRIBE",
			src[0] == "SETTINGS" && dst[0] == "SET" && astx.TypeName(s) == "SetStmt":
			src, dst = src[1:], dst[1:]
		}
	}
	types := map[string]int{}
	offsets := 0
	for _, n := range astx.Nodes(s) {
		types[n.Type()]++
		if l, ok := n.Expr.(*ch.LimitClause); ok && l.Offset != nil {
			offsets++
		}
	}
	spare := map[string]int{}
	for _, x := range dst {
		spare[x]++
	}
	for _, x := range src {
		spare[x]--
	}
	commas, brackets := 0, types["UsingClause"] // how many may go
	extraOffsets := spare["OFFSET"]
	if extraOffsets < 0 || extraOffsets > offsets {
		extraOffsets = 0
	}
	commas += extraOffsets // LIMIT a, b is printed as LIMIT b OFFSET a
	var a, b []string
	for i, x := range src {
		prev, next := "", ""
		if i > 0 {
			prev = src[i-1]
		}
		if i+1 < len(src) {
			next = src[i+1]
		}
		switch {
		case x == "," || x == "(" || x == ")" || x == "AS" || x == "=":
			if x == "," && (next == "" || next == ")" || next == "]" || next == "}" || gram.IsKeyword(next)) {
				commas++ // may end a list
			}
			if x == "(" && next == ")" && types["CompressionCodec"] > 0 {
				brackets++ // CODEC(GCD())
			}
			continue // counted below
		case x == "ID" && prev == "PARTITION" && spare[x] < 0:
			spare[x]++ // golden file; listed as a finding of C03
			continue
		case types["JSONType"] > 0 && (strings.Trim(x, "`\"") == "max_dynamic_paths" || strings.Trim(x, "`\"") == "max_dynamic_types"): // a fixed word in quotes
			x = strings.Trim(x, "`\"")
		case strings.EqualFold(x, "dictGet") && types["PrivilegeClause"] > 0:
			x = "dictGet"
		case prev == "FORMAT" && astx.TypeName(s) == "ShowStmt" && spare[x] < 0 && spare["'"+strings.Trim(x, "\"`")+"'"] > 0:
			x = "'" + strings.Trim(x, "\"`") + "'"
		}
		a = append(a, x)
	}
	for _, x := range dst {
		switch {
		case x == "," || x == "(" || x == ")" || x == "AS" || x == "=":
			continue
		case x == "OFFSET" && extraOffsets > 0:
			extraOffsets--
			continue
		}
		b = append(b, x)
	}
	// punctuation by number: what is missing stays in the lists
	add := func(x string, least, most int) {
		switch n := spare[x]; {
		case n < least:
			a = append(a, x)
		case n > most:
			b = append(b, x)
		}
	}
	add(",", -commas, 0)
	add("(", -brackets, 0)
	add(")", spare["("], spare["("])
	add("AS", 0, 1<<30)
	engines := 0
	for i := range dst {
		if dst[i] == "=" && i > 0 && dst[i-1] == "ENGINE" {
			engines++
		}
	}
	add("=", 0, engines)
	return a, b
}
