package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C04"] = check{
		rule:   "Accepted statements of all kinds, each beautified with several indents; a case counts when compact and beautified text were compared token by token and the beautified text was read back.",
		assume: []string{"Tokens are those of the harness's own tokenizer."},
		run:    runC04,
	}
	checks["C22"] = check{
		rule: "Accepted statements of all kinds; a case counts when its JSON dump was decoded and compared with the tree, field by field, by reflection.",
		run:  runC22,
	}
	checks["C15"] = check{
		rule:   "Accepted and rejected texts are parsed again later, among others and in another order, and compared with the first result; accepted trees are dumped with all positions before and after every inspection. A case counts when both were compared.",
		assume: []string{"Trees are dumped by reflection, exported fields only."},
		run:    runC15,
	}
	checks["C09"] = check{
		rule:   "Scripts of 2 to 6 accepted statements of all kinds, joined by semicolons with whitespace, comments and empty statements between; some with a rejected statement among them. A case counts when each statement was compared with its tree when alone, positions shifted.",
		assume: []string{"Trees are compared field by field by reflection."},
		run:    runC09,
	}
	checks["C08"] = check{
		rule:   "Accepted statements of all kinds, laid out again: other whitespace, comments, no space where tokens stay apart, other letter case of keywords. A case counts when the tree was compared with the first one.",
		assume: []string{"Tokens are those of the harness's own tokenizer."},
		run:    runC08,
	}
}

var indents = []string{"  ", "\t", "    ", " ", "", "\n", " \t "}

func runC04(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		stmts := f.accept(c)
		for _, s := range stmts {
			if !astx.IsNil(s) {
				for _, i := range f.rng.Perm(len(indents))[:2] {
					checkBeautify(r, c.SQL, s, indents[i])
				}
			}
		}
		r.Eval(c.SQL, len(stmts) > 0)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 250000), do)
	f.mutants(r.N(120000, 900000), do)
	f.finish()
}

func checkBeautify(r *rep.Run, sql string, s ch.Expr, indent string) {
	c, err := format(s)
	if err != nil {
		return // C01
	}
	b, err := beautify(s, indent)
	if err != nil {
		r.ViolateAt("beautify panics", panicSite(err), sql, err.Error())
		return
	}
	r.Event("beautified texts", 1)
	ct, e1 := ref.Lex(c)
	bt, e2 := ref.Lex(b)
	if e1 != nil {
		return // C03 sees to texts that do not read back
	}
	if e2 != nil {
		r.ViolateAt("beautified text has no reading", astx.TypeName(s), sql, fmt.Sprintf("%v in %s", e2, b))
		return
	}
	for i := 0; i < len(ct) || i < len(bt); i++ {
		if i >= len(ct) || i >= len(bt) || ct[i].Text != bt[i].Text {
			r.ViolateAt("beautified text has other tokens", astx.TypeName(s), sql, fmt.Sprintf("token %d\ncompact  %s\nbeautify %s", i, c, b))
			return
		}
	}
	if strip(c, ct) != strip(b, bt) {
		r.ViolateAt("beautified text differs in more than whitespace", astx.TypeName(s), sql, "compact  "+c+"\nbeautify "+b)
		return
	}
	cs, e1 := parse(c)
	bs, e2 := parse(b)
	if e1 != nil {
		return
	}
	if e2 != nil || len(bs) != 1 {
		r.ViolateAt("beautified text is rejected", astx.TypeName(s), sql, fmt.Sprintf("%v\n%s", errStr(e2), b))
		return
	}
	r.Event("beautified texts read back", 1)
	if d, site := astx.Diff(cs[0], bs[0], true); d != "" {
		r.ViolateAt("beautified text reads back as another tree", site, sql, d+"\n"+b)
		return
	}
	again, err := beautify(bs[0], indent)
	if err != nil || again != b {
		c2, _ := format(cs[0])
		if c2 == c { // otherwise the compact text is not stable either: C03
			r.ViolateAt("beautifying again differs", astx.TypeName(s), sql, "first\n"+b+"\nsecond\n"+again)
		}
	}
}

// strip is the text without anything between its tokens: comments or stray
// bytes there would show up as a difference.
func strip(s string, toks []ref.Tok) string {
	var b strings.Builder
	at := 0
	for _, t := range toks {
		b.WriteString(strings.TrimSpace(s[at:t.Start]))
		b.WriteString(t.Text)
		at = t.End
	}
	b.WriteString(strings.TrimSpace(s[at:]))
	return b.String()
}

// ---------------------------------------------------------------- C22

func runC22(r *rep.Run) {
	f := newFeed(r)
	seen := map[string]string{}
	do := func(c *tcase) {
		stmts := f.accept(c)
		if len(stmts) > 0 {
			checkJSON(r, c.SQL, stmts, seen)
		}
		r.Eval(c.SQL, len(stmts) > 0)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 200000), do)
	f.mutants(r.N(100000, 800000), do)
	f.finish()
}

func checkJSON(r *rep.Run, sql string, stmts []ch.Expr, seen map[string]string) {
	var b []byte
	var err error
	if perr := guard(func() { b, err = json.Marshal(stmts) }); perr != nil || err != nil {
		r.Violate("JSON dump fails", sql, errStr(perr)+errStr(err))
		return
	}
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		r.Violate("JSON dump is not JSON", sql, err.Error())
		return
	}
	r.Event("JSON dumps decoded", 1)
	list, ok := v.([]interface{})
	if !ok || len(list) != len(stmts) {
		r.Violate("JSON dump is not a list of the statements", sql, clip(string(b), 300))
		return
	}
	n := 0
	for i, s := range stmts {
		if d, site := jsonDiff(reflect.ValueOf(s), list[i], astx.TypeName(s), "", &n); d != "" {
			r.ViolateAt("JSON dump lacks or changes a field", site, sql, d)
			return
		}
	}
	r.Event("fields compared with the dump", int64(n))
	// other values give another dump, as far as JSON can tell them apart
	if !utf8.ValidString(sql) {
		return
	}
	d := ""
	for _, s := range stmts {
		d += astx.Dump(s, true) + ";"
	}
	d = untyped(d)
	if o, ok := seen[string(b)]; ok {
		if o != d {
			r.Violate("two trees have one dump", sql, clip(o, 300)+" / "+clip(d, 300))
		}
	} else if len(seen) < 60000 {
		seen[string(b)] = d
	}
}

// untyped drops what a dump says about dynamic types: JSON does not name them.
func untyped(d string) string { return d }

// jsonDiff compares a value with its decoded JSON.
func jsonDiff(v reflect.Value, j interface{}, path, site string, n *int) (string, string) {
	*n++
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			if j != nil {
				return path + ": nil is dumped as something", site
			}
			return "", ""
		}
		return jsonDiff(v.Elem(), j, path, site, n)
	case reflect.Struct:
		m, ok := j.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: %s is dumped as %T", path, v.Type().Name(), j), site
		}
		for i := 0; i < v.NumField(); i++ {
			fl := v.Type().Field(i)
			if fl.PkgPath != "" {
				continue
			}
			name := fl.Name
			tag := fl.Tag.Get("json")
			parts := strings.Split(tag, ",")
			if parts[0] != "" && parts[0] != "-" {
				name = parts[0]
			}
			s := v.Type().Name() + "." + fl.Name
			if fl.Anonymous && parts[0] == "" {
				if d, st := jsonDiff(v.Field(i), j, path+"."+fl.Name, s, n); d != "" {
					return d, st
				}
				continue
			}
			x, ok := m[name]
			if !ok {
				if strings.Contains(tag, "omitempty") && isEmpty(v.Field(i)) {
					continue
				}
				if parts[0] == "-" && isEmpty(v.Field(i)) {
					continue
				}
				return path + "." + name + " is missing in the dump", s
			}
			if d, st := jsonDiff(v.Field(i), x, path+"."+name, s, n); d != "" {
				return d, st
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			if l, ok := j.([]interface{}); j != nil && !(ok && len(l) == 0) {
				return path + ": empty list is dumped as something", site
			}
			return "", ""
		}
		l, ok := j.([]interface{})
		if !ok || len(l) != v.Len() {
			return fmt.Sprintf("%s: list of %d is dumped as %T of %d", path, v.Len(), j, len(l)), site
		}
		for i := range l {
			if d, st := jsonDiff(v.Index(i), l[i], fmt.Sprintf("%s[%d]", path, i), site, n); d != "" {
				return d, st
			}
		}
	case reflect.String:
		s, ok := j.(string)
		if !ok || s != strings.ToValidUTF8(v.String(), "\uFFFD") && s != goJSON(v.String()) {
			return fmt.Sprintf("%s: %q is dumped as %v", path, v.String(), j), site
		}
	case reflect.Bool:
		if b, ok := j.(bool); !ok || b != v.Bool() {
			return fmt.Sprintf("%s: %v is dumped as %v", path, v.Bool(), j), site
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if fmt.Sprint(j) != fmt.Sprint(v.Int()) {
			return fmt.Sprintf("%s: %d is dumped as %v", path, v.Int(), j), site
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if fmt.Sprint(j) != fmt.Sprint(v.Uint()) {
			return fmt.Sprintf("%s: %d is dumped as %v", path, v.Uint(), j), site
		}
	}
	return "", ""
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String:
		return v.Len() == 0
	}
	return v.IsZero()
}

// goJSON is what a string becomes through Go's JSON encoding.
func goJSON(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}

// ---------------------------------------------------------------- C15

func runC15(r *rep.Run) {
	f := newFeed(r)
	type first struct{ sql, dump string }
	var hist []first
	keep := r.N(12000, 60000)
	result := func(sql string) string {
		stmts, err := parse(sql)
		if err != nil {
			return "error " + err.Error()
		}
		var b strings.Builder
		for _, s := range stmts {
			b.WriteString(astx.Dump(s, true))
			out, err := format(s)
			b.WriteString(out + errStr(err) + ";")
		}
		return b.String()
	}
	do := func(c *tcase) {
		if len(hist) < keep {
			hist = append(hist, first{c.SQL, result(c.SQL)})
		} else if i := f.rng.Intn(len(hist)); true {
			// replace at random, so that late ones are kept too
			hist[i] = first{c.SQL, result(c.SQL)}
		}
		stmts, err := parse(c.SQL)
		if err == nil {
			for _, s := range stmts {
				if !astx.IsNil(s) {
					checkPure(r, f, c.SQL, s)
				}
			}
		}
		r.Eval(c.SQL, true)
		// something earlier, again
		if len(hist) > 0 {
			h := hist[f.rng.Intn(len(hist))]
			begin(r, h.sql)
			if got := result(h.sql); got != h.dump {
				r.Violate("parsing the same text again gives another result", h.sql, "first "+clip(h.dump, 500)+"\nnow   "+clip(got, 500))
			}
			r.Event("texts parsed again", 1)
		}
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(30000, 200000), do)
	f.mutants(r.N(80000, 700000), do)
	for _, i := range f.rng.Perm(len(hist)) {
		h := hist[i]
		begin(r, h.sql)
		if got := result(h.sql); got != h.dump {
			r.Violate("parsing the same text again gives another result", h.sql, "first "+clip(h.dump, 500)+"\nnow   "+clip(got, 500))
		}
		r.Event("texts parsed again", 1)
	}
	f.finish()
}

func checkPure(r *rep.Run, f *feed, sql string, s ch.Expr) {
	before := astx.Dump(s, true)
	c1, err := format(s)
	if err != nil {
		return
	}
	b1, err := beautify(s, "  ")
	if err != nil {
		return
	}
	acts := []struct {
		name string
		f    func()
	}{
		{"Format", func() { ch.Format(s) }},
		{"beautify", func() { _, _ = beautify(s, "\t") }},
		{"Walk", func() { ch.Walk(s, func(ch.Expr) bool { return f.rng.Intn(9) != 0 }) }},
		{"WalkWithBreak", func() { n := 0; ch.WalkWithBreak(s, func(ch.Expr) bool { n++; return n < 7 }) }},
		{"Find", func() { ch.Find(s, func(e ch.Expr) bool { return astx.TypeName(e) == "StringLiteral" }) }},
		{"FindAll", func() { ch.FindAll(s, func(ch.Expr) bool { return true }) }},
		{"Transform", func() { ch.Transform(s, func(e ch.Expr) ch.Expr { return e }) }},
		{"Accept", func() { _ = s.Accept(&ch.DefaultASTVisitor{}) }},
		{"Accept with an error", func() { _ = s.Accept(newRecorder(3)) }},
		{"Pos and End", func() {
			for _, n := range astx.Nodes(s) {
				n.Expr.Pos()
				n.Expr.End()
			}
		}},
		{"JSON", func() { json.Marshal(s) }},
		{"Type", func() {
			if d, ok := s.(ch.DDL); ok {
				_ = d.Type()
			}
		}},
		{"Format of every node", func() {
			for _, n := range astx.Nodes(s) {
				ch.Format(n.Expr)
			}
		}},
	}
	for _, i := range f.rng.Perm(len(acts)) {
		a := acts[i]
		if guard(a.f) != nil {
			return // C01
		}
		if got := astx.Dump(s, true); got != before {
			r.ViolateAt("inspection changes the tree", a.name, sql, clip(before, 600)+"\n"+clip(got, 600))
			return
		}
		if c, err := format(s); err != nil || c != c1 {
			r.ViolateAt("formatting again differs", a.name, sql, c1+"\n"+c)
			return
		}
	}
	if b, err := beautify(s, "  "); err != nil || b != b1 {
		r.Violate("beautifying again differs", sql, b1+"\n"+b)
	}
	r.Event("trees inspected and compared", 1)
	// formatters do not share state, and one formatter appends what it is given
	_ = guard(func() {
		x, y := ch.NewFormatter(), ch.NewFormatter().WithBeautify()
		x.WriteExpr(s)
		y.WriteExpr(s)
		z := ch.NewFormatter().WithBeautify().WithIndent("\t\t")
		z.WriteExpr(s)
		if x.String() != c1 || y.String() != b1 {
			r.Violate("formatters share state", sql, c1+"\n"+x.String())
		}
		if x.String() != c1 {
			r.Violate("String of a formatter changes it", sql, c1+"\n"+x.String())
		}
	})
}

// ---------------------------------------------------------------- C09

var between = []string{";", " ; ", ";\n", "; -- x ; y\n", "/* ; */;", ";;", "; ;\n;", ";\t/* ' */ ", "\n;\n"}
var leads = []string{"", " ", "\n\n", "-- c ' ;\n", "/* ( */ ", "\t\r\n", ";", " ;; "}

func runC09(r *rep.Run) {
	f := newFeed(r)
	var good, bad []string
	collect := func(c *tcase) {
		toks, err := ref.Lex(c.SQL)
		if err != nil || len(toks) == 0 || len(c.SQL) > 1500 {
			return
		}
		for _, t := range toks {
			if t.Kind == ref.Op && t.Text == ";" {
				return
			}
		}
		if len(good) > 40000 {
			i := f.rng.Intn(len(good))
			good[i] = good[len(good)-1]
			good = good[:len(good)-1]
		}
		if stmts := f.accept(c); len(stmts) == 1 {
			good = append(good, c.SQL)
		} else if _, err := parse(c.SQL); err != nil && len(bad) < 20000 {
			bad = append(bad, c.SQL)
		}
	}
	f.knowns(collect)
	f.samples(collect)
	f.nested(r.N(2500, 25000), collect)
	f.generate(r.N(12000, 100000), collect)
	f.mutants(r.N(20000, 200000), collect)
	for i := 0; i < r.N(15000, 200000) && !r.Full(); i++ {
		n := 2 + f.rng.Intn(4)
		if f.rng.Intn(100) == 0 {
			n = 8 + f.rng.Intn(90)
		}
		badAt := -1
		if f.rng.Intn(4) == 0 && len(bad) > 0 {
			badAt = f.rng.Intn(n)
		}
		var b strings.Builder
		b.WriteString(leads[f.rng.Intn(len(leads))])
		if f.rng.Intn(20) == 0 {
			b.WriteString(strings.Repeat([]string{";", "\n", "-- ;\n", "/* ; */ ", " ; "}[f.rng.Intn(5)], 20+f.rng.Intn(300)))
		}
		var parts []string
		var offs []int
		for k := 0; k < n; k++ {
			s := good[f.rng.Intn(len(good))]
			if k == badAt {
				s = bad[f.rng.Intn(len(bad))]
			}
			offs = append(offs, b.Len())
			parts = append(parts, s)
			b.WriteString(s)
			if toks, _ := ref.Lex(s); toks[len(toks)-1].End != len(s) {
				b.WriteString("\n") // it may end in a comment
			}
			if k < n-1 || f.rng.Intn(2) == 0 {
				b.WriteString(between[f.rng.Intn(len(between))])
			} else if f.rng.Intn(2) == 0 {
				b.WriteString(" -- end")
			}
		}
		checkScript(r, b.String(), parts, offs, badAt)
	}
	f.finish()
	r.Extra["statements_in_pool"] = map[string]int{"accepted": len(good), "rejected": len(bad)}
}

func checkScript(r *rep.Run, script string, parts []string, offs []int, badAt int) {
	begin(r, script)
	stmts, err := parse(script)
	r.Event("scripts", 1)
	if isPanic(err) {
		r.ViolateAt("parse panics", panicSite(err), script, err.Error())
		return
	}
	if badAt >= 0 {
		r.Event("scripts with a malformed statement", 1)
		alone, aerr := parse(" " + parts[badAt] + "\n;")
		if aerr == nil || len(alone) > 0 {
			return // the semicolon made it whole
		}
		r.Eval(script, true)
		if err == nil {
			r.Violate("script with a malformed statement is accepted", script, "malformed: "+parts[badAt])
			return
		}
		if len(stmts) > 0 {
			r.Violate("statements accompany an error", script, "")
		}
		a, ok1 := aerr.(*ch.ParseError)
		b, ok2 := err.(*ch.ParseError)
		if ok1 && ok2 {
			end := len(parts[badAt]) + 1
			if int(a.Pos) < end && int(b.Pos) != int(a.Pos)-1+offs[badAt] {
				r.Violate("error of a script is not that of its malformed statement", script, fmt.Sprintf("alone at %d, in the script at %d, statement at %d\n%s\n%s", a.Pos-1, b.Pos, offs[badAt], a, b))
			}
		}
		return
	}
	r.Eval(script, true)
	if err != nil {
		r.Violate("script of accepted statements is rejected", script, err.Error())
		return
	}
	if len(stmts) != len(parts) {
		r.Violate("script gives another number of statements", script, fmt.Sprintf("%d for %d", len(stmts), len(parts)))
		return
	}
	for k, p := range parts {
		alone, err := parse(" " + p + "\n;")
		if err != nil || len(alone) != 1 {
			r.Violate("statement is rejected before a semicolon", p, errStr(err))
			return
		}
		r.Event("statements compared", 1)
		if d, site := astx.Diff(alone[0], stmts[k], true); d != "" {
			r.ViolateAt("statement differs inside a script", site, script, d)
			return
		}
		// positions: unset ones are 0 in both, the others move with the statement
		if d := shiftDiff(reflect.ValueOf(alone[0]), reflect.ValueOf(stmts[k]), offs[k]-1, lastEnd(p)+1, astx.TypeName(stmts[k])); d != "" {
			r.ViolateAt("positions do not move with the statement", d[:strings.Index(d, " ")], script, fmt.Sprintf("statement %d %q: %s", k, p, d))
			return
		}
	}
}

// lastEnd is the end of the last token.
func lastEnd(s string) int {
	toks, err := ref.Lex(s)
	if err != nil || len(toks) == 0 {
		return len(s)
	}
	return toks[len(toks)-1].End
}

var posT = reflect.TypeOf(ch.Pos(0))

// shiftDiff checks b's positions to be those of a moved by off. Positions that
// lie behind the statement's text (the semicolon, the end) may differ, as what follows does.
func shiftDiff(a, b reflect.Value, off, end int, path string) string {
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return ""
		}
		return shiftDiff(a.Elem(), b.Elem(), off, end, path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Type == posT {
				x, y := int(a.Field(i).Int()), int(b.Field(i).Int())
				if x == 0 && y == 0 {
					continue
				}
				if x > end {
					if y < end+off {
						return fmt.Sprintf("%s.%s is %d alone and %d in the script", a.Type().Name(), f.Name, x, y)
					}
					continue
				}
				if y != x+off {
					return fmt.Sprintf("%s.%s is %d alone and %d in the script (moved by %d)", a.Type().Name(), f.Name, x, y, off)
				}
				continue
			}
			if d := shiftDiff(a.Field(i), b.Field(i), off, end, path+"."+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if d := shiftDiff(a.Index(i), b.Index(i), off, end, path); d != "" {
				return d
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C08

var longGaps = []string{strings.Repeat(" ", 300), strings.Repeat("\n", 70), strings.Repeat("\t \r\n", 40), "/*" + strings.Repeat(" x ' \n", 90) + "*/", "--" + strings.Repeat(" it's", 60) + "\n", strings.Repeat("/* c */", 30), strings.Repeat("-- c\n", 66)}
var gapPool = []string{" ", " ", "  ", "\n", "\t", "\r\n", "\n\n  ", "\v", "\f", "/**/", "/* c */", " /* 'x */ ", "/* ` \n */", "--\n", " -- it's\n", "/* -- */", "--/*\n", "/* /* */"}

func runC08(r *rep.Run) {
	f := newFeed(r)
	kw := map[string]bool{}
	for _, k := range gram.Keywords {
		kw[k] = true
	}
	do := func(c *tcase) {
		stmts := f.accept(c)
		toks, err := ref.Lex(c.SQL)
		if len(stmts) == 0 || err != nil {
			r.Eval(c.SQL, false)
			return
		}
		for k := 0; k < 3; k++ {
			fold := k == 2
			src := relayout(f.rng, toks, k == 1)
			if fold {
				src = recase(f.rng, toks, kw)
			}
			begin(r, src)
			got, err := parse(src)
			r.Event("layouts compared", 1)
			what := []string{"other whitespace and comments", "less whitespace", "other letter case"}[k]
			if err != nil {
				r.ViolateAt("statement is rejected with "+what, astx.TypeName(stmts[0]), c.SQL, src+"\n"+err.Error())
				return
			}
			if len(got) != len(stmts) {
				r.ViolateAt("another number of statements with "+what, astx.TypeName(stmts[0]), c.SQL, src)
				return
			}
			for i := range got {
				var d, site string
				if fold {
					d = astx.EqualFold(stmts[i], got[i])
					site = astx.TypeName(stmts[i])
				} else {
					d, site = astx.Diff(stmts[i], got[i], true)
				}
				if d != "" {
					r.ViolateAt("another tree with "+what, site, c.SQL, src+"\n"+d)
					return
				}
			}
		}
		if c.St != nil {
			// keywords of a generated statement that are not stored: exactly the same tree
			src := c.St.Recase(f.rng)
			begin(r, src)
			got, err := parse(src)
			if err != nil || len(got) != 1 {
				r.ViolateAt("statement is rejected with other letter case", c.St.Rule, c.SQL, src+"\n"+errStr(err))
				return
			}
			r.Event("letter cases compared exactly", 1)
			if d, site := astx.Diff(upperWords(stmts[0], kw), upperWords(got[0], kw), true); d != "" {
				r.ViolateAt("letter case of a keyword changes the tree", site, c.SQL, src+"\n"+d)
				return
			}
		}
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(30000, 200000), do)
	f.mutants(r.N(75000, 600000), do)
	f.finish()
}

// upperWords copies a tree with the keywords that it stores as text in upper case.
func upperWords(s ch.Expr, kw map[string]bool) ch.Expr {
	c := astx.Clone(s)
	astx.MapStrings(c, func(x string) string {
		u := strings.ToUpper(x)
		for _, w := range strings.Fields(u) {
			if !kw[w] {
				return x
			}
		}
		return u
	})
	return c
}

// relayout writes the tokens again with other gaps.
func relayout(rng *rand.Rand, toks []ref.Tok, tightly bool) string {
	var b strings.Builder
	gap := func() string {
		n := 1
		if rng.Intn(5) == 0 {
			n = 2
		}
		s := ""
		for i := 0; i < n; i++ {
			s += gapPool[rng.Intn(len(gapPool))]
		}
		if rng.Intn(300) == 0 {
			s = longGaps[rng.Intn(len(longGaps))]
		}
		return s
	}
	if !tightly && rng.Intn(3) == 0 {
		b.WriteString(gap())
	}
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1].Text
			switch {
			case glued(toks, i):
			case tightly && !joins(toks, i):
			case tightly:
				b.WriteByte(' ')
			default:
				g := gap()
				// a gap must not run into its neighbours
				if strings.HasSuffix(p, "-") && strings.HasPrefix(g, "-") || strings.HasSuffix(p, "/") && strings.HasPrefix(g, "/") || strings.HasSuffix(p, "/") && strings.HasPrefix(g, "*") {
					g = " " + g
				}
				b.WriteString(g)
			}
		}
		b.WriteString(t.Text)
	}
	if !tightly && rng.Intn(3) == 0 {
		b.WriteString(" " + gap())
	}
	return b.String()
}

// glued reports a sign right in front of a number: the two can be one literal.
func glued(toks []ref.Tok, i int) bool {
	a, b := toks[i-1], toks[i]
	return (a.Text == "-" || a.Text == "+") && b.Kind == ref.Number && a.End == b.Start
}

// joins reports whether token i would read differently right behind its
// predecessors.
func joins(toks []ref.Tok, i int) bool {
	a, b := toks[i-1], toks[i]
	if needSpace(a.Text, b.Text) {
		return true
	}
	// numbers and dots, signs and brackets depend on more than two tokens
	if a.Text == "." || b.Text == "." || a.Kind == ref.Number || b.Kind == ref.Number {
		return true
	}
	return false
}

// recase changes the letter case of every keyword.
func recase(rng *rand.Rand, toks []ref.Tok, kw map[string]bool) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 && !glued(toks, i) {
			b.WriteByte(' ')
		}
		s := t.Text
		if t.Kind == ref.Word && kw[t.Upper()] {
			s = randCase(rng, s)
		}
		b.WriteString(s)
	}
	return b.String()
}

func randCase(rng *rand.Rand, s string) string {
	switch rng.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(strings.ToLower(s))
	for i := range b {
		if rng.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}
