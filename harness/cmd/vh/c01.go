package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/ref"
	"verif/harness/rep"
	"verif/harness/work"
)

func init() {
	checks["C01"] = check{
		rule:   "Sample and generated statements, edited statements, every truncation of the samples, random bytes and random token sequences, and texts of up to 1 MiB that nest or repeat one construct. Every input that was answered counts; an accepted one only after every inspection of its tree had returned.",
		assume: []string{"A fatal error of the Go runtime (stack, map) ends the worker process, which the supervising process reports with the input.", "120 s of processor time for one input is called a hang."},
		run:    runC01,
	}
}

func runC01(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		stmts, err := parse(c.SQL)
		switch {
		case isPanic(err):
			r.ViolateAt("parse panics", panicSite(err), c.SQL, err.Error())
		case err != nil:
			r.Event("rejected", 1)
			if perr := guard(func() { _ = err.Error() }); perr != nil {
				r.ViolateAt("error text panics", panicSite(perr), c.SQL, perr.Error())
			}
		default:
			r.Event("accepted", 1)
			for _, s := range stmts {
				if astx.IsNil(s) {
					r.Violate("a nil statement", c.SQL, "")
					continue
				}
				f.seen(s)
				inspect(r, c.SQL, s, true)
			}
			if err := guard(func() {
				if _, err := json.Marshal(stmts); err != nil {
					panic(err)
				}
			}); err != nil {
				r.ViolateAt("JSON dump fails", panicSite(err), c.SQL, err.Error())
			}
		}
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(700, 10000), do)
	f.generate(r.N(10000, 100000), do)
	// cut every sample at every token, and some at every byte
	for i, s := range f.corpus.Stmts {
		if len(s) > 3000 || r.Full() {
			continue
		}
		toks, err := ref.Lex(s)
		if err != nil {
			continue
		}
		for _, t := range toks {
			do(f.run(&tcase{Kind: "truncated sample", SQL: s[:t.End]}))
		}
		if i%r.N(12, 1) == 0 && len(s) < 500 {
			for k := range s {
				do(f.run(&tcase{Kind: "truncated sample", SQL: s[:k]}))
			}
		}
	}
	f.mutants(r.N(80000, 1500000), do)
	// token soup and byte soup
	for i := 0; i < r.N(30000, 400000) && !r.Full(); i++ {
		do(f.run(&tcase{Kind: "token soup", SQL: f.soup()}))
	}
	for i := 0; i < r.N(15000, 200000) && !r.Full(); i++ {
		do(f.run(&tcase{Kind: "byte soup", SQL: f.byteSoup()}))
	}
	// hand-made odd inputs
	for _, s := range oddInputs {
		do(f.run(&tcase{Kind: "odd input", SQL: s}))
	}
	deep(r, f)
	f.finish()
}

func panicSite(err error) string {
	s := err.Error()
	if i := strings.Index(s, " at parser."); i >= 0 {
		s = s[i+4:]
		if j := strings.Index(s, " < "); j >= 0 {
			s = s[:j]
		}
		return s
	}
	return ""
}

// inspect calls everything the library offers on a tree.
func inspect(r *rep.Run, sql string, s ch.Expr, deepToo bool) {
	try := func(what string, f func()) {
		if err := guard(f); err != nil {
			r.ViolateAt(what+" panics", panicSite(err), sql, err.Error())
		}
	}
	try("Format", func() { ch.Format(s) })
	try("beautify", func() {
		for _, ind := range []string{"  ", "\t", ""} {
			f := ch.NewFormatter().WithBeautify().WithIndent(ind)
			f.WriteExpr(s)
			_ = f.String()
		}
	})
	try("Walk", func() { ch.Walk(s, func(ch.Expr) bool { return true }) })
	try("Accept", func() { _ = s.Accept(&ch.DefaultASTVisitor{}) })
	try("Accept", func() { _ = s.Accept(&ch.DefaultASTVisitor{Visit: func(ch.Expr) error { return nil }}) })
	try("Find", func() {
		ch.Find(s, func(ch.Expr) bool { return false })
		ch.FindAll(s, func(ch.Expr) bool { return true })
	})
	try("Transform", func() { ch.Transform(s, func(e ch.Expr) ch.Expr { return e }) })
	if !deepToo {
		try("Pos and End", func() { s.Pos(); s.End() })
		return
	}
	nodes := astx.Nodes(s)
	r.Event("nodes asked for their position", int64(len(nodes)))
	for _, n := range nodes {
		n := n
		if err := guard(func() { n.Expr.Pos(); n.Expr.End() }); err != nil {
			r.ViolateAt("Pos or End panics", n.Type(), sql, err.Error())
		}
		// every node can be formatted by itself
		if err := guard(func() { ch.Format(n.Expr) }); err != nil {
			r.ViolateAt("Format of a node panics", n.Type(), sql, err.Error())
		}
		// and has a type name if it is a statement of the DDL kind
		if d, ok := n.Expr.(ch.DDL); ok {
			if err := guard(func() { _ = d.Type() }); err != nil {
				r.ViolateAt("Type panics", n.Type(), sql, err.Error())
			}
		}
	}
	// methods without arguments that return something are part of the API too
	for _, n := range nodes {
		v := reflect.ValueOf(n.Expr)
		t := v.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() == 1 && m.Type.NumOut() > 0 && m.Name != "Pos" && m.Name != "End" {
				if err := guard(func() { v.Method(i).Call(nil) }); err != nil {
					r.ViolateAt(m.Name+" panics", n.Type(), sql, err.Error())
				}
			}
		}
	}
}

// soup strings random tokens together, led by a statement keyword.
func (f *feed) soup() string {
	var b strings.Builder
	lead := []string{"SELECT", "CREATE TABLE t", "CREATE", "ALTER TABLE t", "INSERT INTO t", "SYSTEM", "GRANT", "DROP", "SHOW", "WITH", "SET", "RENAME", "OPTIMIZE", "CHECK", "EXPLAIN", "DESC", "USE", "DELETE FROM", "CREATE USER u", "CREATE MATERIALIZED VIEW v", "CREATE DICTIONARY d", "TRUNCATE", "KILL", "ATTACH", "DETACH", ""}
	b.WriteString(lead[f.rng.Intn(len(lead))])
	n := 1 + f.rng.Intn(14)
	for i := 0; i < n; i++ {
		if f.rng.Intn(12) != 0 {
			b.WriteByte(' ')
		}
		b.WriteString(work.Dict[f.rng.Intn(len(work.Dict))])
	}
	return b.String()
}

func (f *feed) byteSoup() string {
	n := 1 + f.rng.Intn(24)
	b := make([]byte, n)
	for i := range b {
		switch f.rng.Intn(3) {
		case 0:
			b[i] = byte(f.rng.Intn(256))
		default:
			c := "'`\"\\/*-;()[]{}.,:@#$\n\r\t +><=|!?0x19eEabS\xff\xc3\xa9"
			b[i] = c[f.rng.Intn(len(c))]
		}
	}
	if f.rng.Intn(2) == 0 {
		return "SELECT " + string(b)
	}
	return string(b)
}

var oddInputs = []string{"", " ", "\n", ";", ";;", "\x00", "\ufeff", "\ufeffSELECT 1", "--", "-- x", "/*", "/**/", "/* /* */ */", "'", "`", "\"", "\\", "SELECT", "SELECT ;", "SELECT 1;;SELECT 2", "SELECT '\\", "SELECT `\\", "0x", "1e", "1e+", "SELECT 1e400", "SELECT 0xffffffffffffffffffff",
	"SELECT 99999999999999999999999999999", "SELECT {", "SELECT {a", "SELECT {a:", "SELECT {a:b", "SELECT {:}", "{}", "SELECT {}", "SELECT \u00a01", "SELECT\u20281", "\xff\xfe", "SELECT '\xff'", "SELECT `\xff`", "SELECT \xe2\x82", "SELECT 'é", "SELECT é", "*", "/", "%", "|", "||", "!", "!=", "@", "#", "$", "^", "&", "~", "SELECT 1 FORMAT", "FORMAT", "SELECT 1 AS", "WITH", "WITH a", "WITH a AS", "WITH a AS ("}

// deep nests and repeats every construct up to 1 MiB of text.
func deep(r *rep.Run, f *feed) {
	debug.SetGCPercent(400)
	size := 1 << 20
	for i, h := range handPumps {
		if r.Full() {
			return
		}
		if !r.Thorough() && i%3 != int(r.Seed%3) && !strings.Contains(h[1], "(") {
			continue
		}
		unit := len(h[1]) + len(h[3])
		n := (size - len(h[0]) - len(h[2]) - len(h[4])) / unit
		var b bytes.Buffer
		b.WriteString(h[0])
		for k := 0; k < n; k++ {
			b.WriteString(h[1])
		}
		b.WriteString(h[2])
		for k := 0; k < n; k++ {
			b.WriteString(h[3])
		}
		b.WriteString(h[4])
		sql := b.String()
		begin(r, sql)
		stmts, err := parse(sql)
		r.Event("texts of 1 MiB", 1)
		if isPanic(err) {
			r.ViolateAt("parse panics", panicSite(err), clip(sql, 300), err.Error())
		}
		if err != nil {
			_ = err.Error()
			r.Event("texts of 1 MiB rejected", 1)
			// what depth is still answered with a tree?
			if n > 3000 {
				s := h[0] + strings.Repeat(h[1], 3000) + h[2] + strings.Repeat(h[3], 3000) + h[4]
				if st, err := parse(s); err == nil {
					for _, x := range st {
						inspectDeep(r, s, x)
					}
				}
			}
		}
		for _, s := range stmts {
			inspectDeep(r, clip(sql, 300), s)
		}
		r.Eval(fmt.Sprintf("%s (%s)^%d %s (%s)^%d %s", h[0], h[1], n, h[2], h[3], n, h[4]), true)
	}
}

func inspectDeep(r *rep.Run, sql string, s ch.Expr) {
	try := func(what string, f func()) {
		if err := guard(f); err != nil {
			r.ViolateAt(what+" panics", panicSite(err), clip(sql, 300), err.Error())
		}
	}
	try("Format", func() { ch.Format(s) })
	try("Walk", func() { ch.Walk(s, func(ch.Expr) bool { return true }) })
	try("Accept", func() { _ = s.Accept(&ch.DefaultASTVisitor{}) })
	try("Pos and End", func() { s.Pos(); s.End() })
}
