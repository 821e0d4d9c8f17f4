package main

import (
	"errors"
	"fmt"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C11"] = check{
		rule: "Edited statements, truncated samples and generated statements, token and byte soup; a case counts when the library rejected it and its error was examined. Statements cut off in the middle and statements with a stray character between two tokens also say where the error must point.",
		run:  runC11,
	}
}

func runC11(r *rep.Run) {
	f := newFeed(r)
	kinds := map[string]int{}
	// what stands before a text moves its errors
	above := []string{strings.Repeat("\n", 9), strings.Repeat("-- c\n", 99), strings.Repeat("\r\n", 100), strings.Repeat("/* x\ny */\n", 600), strings.Repeat(" ", 80), strings.Repeat("\t", 40),
		strings.Repeat(" ", 260), strings.Repeat("/* é😀 */", 70), strings.Repeat("SELECT 1;", 130), strings.Repeat("SELECT 'é' ;\n", 70), strings.Repeat("SELECT 'a\nb' ;\n", 300)}
	do := func(c *tcase) {
		if c.Kind == "mutant" && f.rng.Intn(8) == 0 {
			c.SQL = above[f.rng.Intn(len(above))] + c.SQL
		}
		err := checkError(r, c.SQL)
		if err != nil {
			kinds[shape(err.Error())]++
		}
		r.Eval(c.SQL, err != nil)
	}
	f.knowns(do)
	f.mutants(r.N(180000, 1500000), do)
	for i := 0; i < r.N(60000, 500000) && !r.Full(); i++ {
		do(f.run(&tcase{Kind: "token soup", SQL: f.soup()}))
	}
	for i := 0; i < r.N(10000, 100000) && !r.Full(); i++ {
		do(f.run(&tcase{Kind: "byte soup", SQL: f.byteSoup()}))
	}
	for _, s := range oddInputs {
		do(f.run(&tcase{Kind: "odd input", SQL: s}))
	}
	gaps := []string{" ", " ", "\n", "  ", "\r\n", "\t", " /* c\n */ ", " -- c\n"}
	f.generate(r.N(20000, 150000), func(c *tcase) {
		idx := c.St.SrcIdx()
		ts := c.St.SrcTexts()
		// lay the statement out over several lines
		var b strings.Builder
		var start, end []int
		for i, t := range ts {
			if i > 0 {
				b.WriteString(gaps[f.rng.Intn(len(gaps))])
			}
			start = append(start, b.Len())
			b.WriteString(t)
			end = append(end, b.Len())
		}
		src := b.String()
		if _, err := parse(src); err != nil {
			return
		}
		// cut off where the statement cannot end: the error points at the end
		k := f.rng.Intn(len(ts))
		if !c.St.Toks[idx[k]].Complete {
			s := src[:end[k]] + gaps[f.rng.Intn(5)]
			begin(r, s)
			if pe := checkError(r, s); pe != nil {
				r.Event("statements cut off", 1)
				// INTERVAL is tried as an operator first and then as a name: the second
				// attempt may stop earlier than the first
				if int(pe.Pos) < start[k] && !strings.Contains(strings.ToUpper(s), "INTERVAL") {
					r.ViolateAt("error of a text that stops short points before its last token", c.St.Rule, s, fmt.Sprintf("offset %d of %d; %s", pe.Pos, len(s), pe.Error()))
				}
			}
			r.Eval(s, true)
		}
		// a stray character: the error points at it, or at the token before which the parser stopped
		k = f.rng.Intn(len(ts) + 1)
		at := len(src)
		if k < len(ts) {
			at = start[k]
		}
		s := src[:at] + " \x01 " + src[at:]
		begin(r, s)
		if pe := checkError(r, s); pe != nil {
			r.Event("stray characters", 1)
			lo := 0
			if k > 1 {
				lo = start[k-1]
			}
			if int(pe.Pos) < lo && !strings.Contains(strings.ToUpper(s), "INTERVAL") || int(pe.Pos) > at+1 {
				r.ViolateAt("error points away from a stray character", c.St.Rule, s, fmt.Sprintf("stray character at %d, offset %d; %s", at+1, pe.Pos, pe.Error()))
			}
		} else {
			r.ViolateAt("stray character is accepted", c.St.Rule, s, "")
		}
		r.Eval(s, true)
	})
	f.finish()
	r.Extra["error_kinds_seen"] = len(kinds)
}

// shape reduces an error text to its kind.
func shape(s string) string {
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.IndexByte(s, ' '); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "got"); i >= 0 {
		s = s[:i]
	}
	return clip(s, 60)
}

// checkError parses a text; when it is rejected the error is examined and returned.
func checkError(r *rep.Run, sql string) *ch.ParseError {
	p := ch.NewParser(sql)
	var stmts []ch.Expr
	var err error
	if perr := guard(func() { stmts, err = p.ParseStmts() }); perr != nil {
		r.ViolateAt("parse panics", panicSite(perr), sql, perr.Error())
		return nil
	}
	if err == nil {
		return nil
	}
	r.Event("errors examined", 1)
	if len(stmts) != 0 {
		r.Violate("statements accompany an error", sql, fmt.Sprint(len(stmts), " statements and ", err))
	}
	var pe *ch.ParseError
	if !errors.As(err, &pe) || pe == nil {
		r.Violate("error is not a ParseError", sql, fmt.Sprintf("%T %v", err, err))
		return nil
	}
	text := ""
	if perr := guard(func() { text = err.Error() }); perr != nil {
		r.ViolateAt("error text panics", panicSite(perr), sql, perr.Error())
		return nil
	}
	if pe.Pos < 0 || int(pe.Pos) > len(sql) {
		r.ViolateAt("error offset outside the input", shape(text), sql, fmt.Sprintf("offset %d of %d", pe.Pos, len(sql)))
		return pe
	}
	line := 1 + strings.Count(sql[:pe.Pos], "\n")
	ls := strings.LastIndexByte(sql[:pe.Pos], '\n') + 1
	col := int(pe.Pos) - ls + 1
	if pe.Line != line || pe.Column != col {
		r.ViolateAt("line and column disagree with the offset", shape(text), sql, fmt.Sprintf("offset %d is line %d column %d, error says %d:%d", pe.Pos, line, col, pe.Line, pe.Column))
		return pe
	}
	le := len(sql)
	if i := strings.IndexByte(sql[ls:], '\n'); i >= 0 {
		le = ls + i
	}
	src := strings.TrimSuffix(sql[ls:le], "\r")
	head := fmt.Sprintf("line %d:%d ", line, col)
	if !strings.HasPrefix(text, head) {
		r.ViolateAt("error text does not name line and column", shape(text), sql, text)
		return pe
	}
	if len(text) > 4*len(sql)+2000 {
		r.ViolateAt("error text is out of proportion", shape(text), clip(sql, 300), fmt.Sprint(len(text)))
		return pe
	}
	// the text ends with the source line and a marker under the place
	mark := ""
	rest := strings.TrimRight(text, "\n")
	if i := strings.LastIndexByte(rest, '\n'); i >= 0 {
		mark, rest = rest[i+1:], rest[:i]
	}
	carets := strings.TrimLeft(mark, " \t")
	if !strings.HasSuffix(rest, "\n"+src) || carets == "" || strings.Trim(carets, "^~") != "" || len(mark)-len(carets) != col-1 {
		r.ViolateAt("error text does not show the line and the place", shape(text), sql, fmt.Sprintf("line %q column %d in %q", src, col, text))
		return pe
	}
	if msg := strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(rest, head), src)); msg == "" {
		r.Violate("error without a message", sql, text)
	}
	if pe.Got != nil {
		g := pe.Got
		r.Event("failing tokens examined", 1)
		if g.Pos < 0 || g.End < g.Pos || int(g.End) > len(sql) {
			r.ViolateAt("failing token outside the input", shape(text), sql, fmt.Sprintf("%d..%d of %d", g.Pos, g.End, len(sql)))
			return pe
		}
		if !strings.Contains(sql[max(0, int(g.Pos)-1):min(len(sql), int(g.End)+1)], g.String) {
			r.ViolateAt("failing token is not the text at its place", shape(text), sql, fmt.Sprintf("%q at %d..%d is %q", g.String, g.Pos, g.End, sql[g.Pos:g.End]))
			return pe
		}
		for _, k := range pe.Expected {
			if k == g.Kind {
				r.ViolateAt("failing token is of an expected kind", shape(text), sql, fmt.Sprintf("%q %s", g.String, text))
			}
		}
		if pe.Keyword != "" && strings.EqualFold(g.String, pe.Keyword) && g.Kind == ch.TokenKindKeyword {
			r.ViolateAt("failing token is the expected keyword", shape(text), sql, text)
		}
		if g.Pos != pe.Pos {
			r.ViolateAt("failing token is not at the offset", shape(text), sql, fmt.Sprintf("offset %d token at %d; %s", pe.Pos, g.Pos, text))
			return pe
		}
	}
	if toks, lerr := ref.Lex(sql); lerr == nil && pe.Got == nil && len(toks) > 0 {
		// no failing token: the end of the input was the trouble
		if int(pe.Pos) < toks[len(toks)-1].Start && !strings.Contains(text, "nested deeper") {
			r.ViolateAt("error without a token points before the end", shape(text), sql, fmt.Sprintf("offset %d of %d; %s", pe.Pos, len(sql), text))
			return pe
		}
	}
	// again, the same
	p2, err2 := parse(sql)
	if err2 == nil || err2.Error() != text || len(p2) != 0 {
		r.Violate("another run gives another error", sql, text+" / "+errStr(err2))
	}
	return pe
}
