package main

import (
	"fmt"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C20"] = check{
		rule:   "Each literal, quoted name and bare name of accepted statements (samples, generated, edited) is replaced once by a plain marker of its kind and once by hostile content of the same kind; a case counts when the text with the marker was accepted and both trees, compact outputs and beautified outputs were compared. Generated statements with hostile operands at random places are checked for each operand's field and printed form.",
		assume: []string{"What follows a backslash and a doubled quote belong to the quoted text, as in ClickHouse; content is kept as written, not unescaped."},
		run:    runC20,
	}
}

// contents makes the inside of a quoted token.
func contents(f *feed, q byte) string {
	r := f.rng
	dq := string(q) + string(q)
	fixed := []string{"", " ", "\x00", "a\x00b", "\xff\xfe", "\xc3", "\u2028", "\ufeff", "\u2019", "\u3000", "\r", "\r\n", "\n\n", "\t", "\x7f", "\x1b[0m", dq, dq + dq, "\\" + string(q), "\\\\", "x\\\\" + dq,
		"--", "-- x\n", "/*", "*/", "/* */", ";", "a;b", "){]", "SELECT", "select 1", "{a:b}", "?", "%s%d%!", "\\u0041", "\\x", "日本語", "😀", "NULL", "-1", "0x1", "1e", "a.b", "*", "@", "$1", "#", "=",
		strings.Repeat("x", 3000), strings.Repeat("\\n", 50), strings.Repeat(dq, 40), strings.Repeat("é", 200)}
	switch r.Intn(3) {
	case 0:
		return fixed[r.Intn(len(fixed))]
	case 1:
		return f.gen.Content(q)
	}
	// bytes
	var b strings.Builder
	n := 1 + r.Intn(12)
	if r.Intn(20) == 0 {
		n = 30 + r.Intn(500)
	}
	for ; n > 0; n-- {
		c := byte(r.Intn(256))
		switch {
		case c == q:
			b.WriteString(dq)
		case c == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(r.Intn(256)))
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

var bareNames = []string{"_", "_1", "a", "Z", "a$b", "$x", "x_1_", "ABC", "aBc", "e1", "x0x1", "E", "selectx", "_from", "t$", "b2", "nulls1", strings.Repeat("n", 400)}
var decInts = []string{"0", "7", "007", "000", "42", "18446744073709551616", "999999999999999999999999999999999999", "2147483648"}
var floats = []string{"0.5", "1.", "3.25", "1e5", "1E5", "1e+5", "1.5E-10", "0e0", "00.10", "1.e3", "123456789.123456789123456789", "9e400"}
var hexes = []string{"0x0", "0xABCDEF", "0xFF", "0x0F", "0x0a", "0xAbCd", "0x1e5", "0xE", "0x0100", "0xabcdef0123456789", "0xFFFFFFFFFFFFFFFFFFFFFFFFF", "0x00"}

func runC20(r *rep.Run) {
	f := newFeed(r)
	kinds := map[string]int64{}
	// operands of generated statements
	n := r.N(25000, 500000)
	rules := f.gr.Statements()
	for i := 0; i < n && !r.Full(); i++ {
		f.gen.Weird = []float64{0.35, 0.6, 1}[f.rng.Intn(3)]
		f.gen.MaxDepth = 3 + f.rng.Intn(3)
		c := f.run(&tcase{Kind: "generated, hostile operands", St: f.gen.Make(rules[i%len(rules)])})
		hostileOperands(r, f, c.St)
		r.Eval(c.SQL, true)
	}
	swap := func(c *tcase) {
		toks, err := ref.Lex(c.SQL)
		if err != nil || len(toks) == 0 || f.accept(c) == nil {
			return
		}
		tries := 4
		if c.Kind == "corpus" {
			tries = r.N(2*len(toks), 20*len(toks))
		}
		for ; tries > 0 && !r.Full(); tries-- {
			i := f.rng.Intn(len(toks))
			if c.Kind == "corpus" {
				i = tries % len(toks)
			}
			if k := swapContent(r, f, c.SQL, toks, i); k != "" {
				kinds[k]++
				r.Eval(c.SQL+fmt.Sprint(i), true)
			}
		}
	}
	f.samples(swap)
	f.nested(r.N(600, 8000), swap)
	f.generate(r.N(15000, 300000), swap)
	f.mutants(r.N(20000, 400000), swap)
	numbers(r, f)
	r.Extra["contents_swapped"] = kinds
	f.finish()
}

func hostileOperands(r *rep.Run, f *feed, st *gram.Stmt) {
	src := st.Src()
	stmts, err := parse(src)
	if err != nil || len(stmts) != 1 {
		r.ViolateAt("statement with unusual literals or names is rejected", st.Rule, src, errStr(err))
		return
	}
	f.seen(stmts[0])
	out, err := format(stmts[0])
	toks, lerr := ref.Lex(out)
	if err != nil || lerr != nil {
		r.ViolateAt("formatted text has no reading", st.Rule, src, errStr(err)+errStr(lerr)+out)
		return
	}
	have := map[string]int{}
	for _, t := range toks {
		have[t.Text]++
	}
	leaves := astx.Leaves(stmts[0])
	for _, t := range st.Toks {
		if t.Val == "" {
			continue
		}
		r.Event("operands looked up in tree and output", 1)
		if m := leafAt(leaves, t); m != "" {
			r.ViolateAt("content is not kept", st.Rule, src, m)
			return
		}
		x := t.Out
		if x == "" {
			continue
		}
		if x[0] == '-' || x[0] == '+' {
			x = x[1:]
		}
		if have[x] == 0 {
			r.ViolateAt("content is not printed", st.Rule, src, fmt.Sprintf("%q is missing from %q", x, out))
			return
		}
		have[x]--
	}
}

// swapContent replaces the content of token i; it returns the kind of token
// that was compared, or "".
func swapContent(r *rep.Run, f *feed, sql string, toks []ref.Tok, i int) string {
	t := toks[i]
	var kind, mark, hostile, pre, post string
	switch {
	case t.Kind == ref.String:
		kind, pre, post, mark = "string", "'", "'", "zqmark"
		hostile = contents(f, '\'')
	case t.Kind == ref.Quoted:
		q := byte("`\""[f.rng.Intn(2)])
		kind, pre, post, mark = "quoted name", string(q), string(q), "zqmark"
		hostile = contents(f, q)
		if hostile == "" {
			hostile = " "
		}
	case t.Kind == ref.Number:
		switch {
		case strings.HasPrefix(t.Text, "0x"):
			kind, mark, hostile = "hex number", "0x900000009", hexes[f.rng.Intn(len(hexes))]
		case strings.ContainsAny(t.Text, ".eE"):
			kind, mark, hostile = "float", "900000.00009", floats[f.rng.Intn(len(floats))]
		default:
			kind, mark, hostile = "integer", "9000000009", decInts[f.rng.Intn(len(decInts))]
		}
	case t.Kind == ref.Word && f.rng.Intn(3) > 0:
		kind, mark, hostile = "bare name", "zqmark", bareNames[f.rng.Intn(len(bareNames))]
	case t.Kind == ref.Word:
		q := byte("`\""[f.rng.Intn(2)])
		kind, pre, post, mark = "bare name quoted", string(q), string(q), "zqmark"
		hostile = contents(f, q)
		if hostile == "" {
			hostile = " "
		}
	default:
		return ""
	}
	if strings.Contains(sql, "zqmark") {
		return ""
	}
	if i > 0 && toks[i-1].Upper() == "FORMAT" && toks[0].Upper() == "SHOW" && pre != "'" {
		hostile = "x" + strings.ReplaceAll(hostile, "'", "") // the name of a format is kept as a string there
	}
	glue := ""
	if kind == "hex number" || kind == "float" || kind == "integer" {
		if t.End < len(sql) && (sql[t.End] == '.' || isWordByte(sql[t.End])) {
			return ""
		}
	}
	sql1 := sql[:t.Start] + pre + mark + post + glue + sql[t.End:]
	sql2 := sql[:t.Start] + pre + hostile + post + glue + sql[t.End:]
	s1, err := parse(sql1)
	if err != nil || len(s1) == 0 {
		r.Event("marker rejected at this place", 1)
		return ""
	}
	begin(r, sql2)
	s2, err := parse(sql2)
	if err != nil || len(s2) != len(s1) {
		r.ViolateAt("accepted or not depends on the content of a literal or name", kind, sql2, errStr(err)+"\nwhile this is accepted: "+sql1)
		return kind
	}
	into := func(s string) string { return strings.ReplaceAll(s, mark, hostile) }
	for k := range s1 {
		o1, e1 := format(s1[k])
		o2, e2 := format(s2[k])
		if e1 != nil || e2 != nil {
			continue // C01's
		}
		b1, e1 := beautify(s1[k], "  ")
		b2, e2 := beautify(s2[k], "  ")
		if e1 != nil || e2 != nil {
			continue
		}
		want := astx.Clone(s1[k])
		astx.MapStrings(want, into)
		if p, site := astx.Diff(want, s2[k], true); p != "" {
			r.ViolateAt("tree depends on the content of a literal or name", site, sql2, p)
			return kind
		}
		if into(o1) != o2 {
			r.ViolateAt("content is printed differently", kind, sql2, fmt.Sprintf("expected %q\nprinted  %q", into(o1), o2))
			return kind
		}
		if into(b1) != b2 {
			r.ViolateAt("content is beautified differently", kind, sql2, fmt.Sprintf("expected %q\nprinted  %q", into(b1), b2))
			return kind
		}
		r.Event("trees and outputs compared", 1)
	}
	return kind
}

func isWordByte(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// numberPlaces are texts around a number, with the signs that belong to a number
// there, and what is printed before and behind it.
var numberPlaces = [][]string{
	{"SELECT ", "", ""},
	{"SELECT f(", ")", "+-"}, {"SELECT f(a, ", ", b)", "+-"}, {"SELECT [", "]", "+-"}, {"SELECT (", ", 1)", "+-"}, {"SELECT a = ", "", "+-"}, {"SELECT a * ", "", "+-"},
	{"SELECT a FROM t WHERE a IN (", ", 2)", "+-"}, {"SELECT a FROM t WHERE a >= ", " AND b", "+-"}, {"SELECT 1, ", ", 2", "+-"}, {"SELECT a + ", "", "+-"}, {"SELECT {'k': ", "}", "+-"},
	{"SELECT a FROM t LIMIT ", "", ""}, {"SELECT a FROM t LIMIT 1 OFFSET ", "", ""}, {"SELECT a FROM t ORDER BY a WITH FILL FROM ", " TO 10", ""},
	{"SELECT CASE WHEN ", " THEN 1 END", ""}, {"SELECT a[", "]", "+-"}, {"SELECT a BETWEEN ", " AND 2", ""}, {"SELECT f(", ")(a)", "+-"},
	{"SELECT a FROM t SAMPLE ", "", ""}, {"SELECT CAST(", " AS Int8)", "+-"}, {"SELECT INTERVAL ", " DAY", ""},
}

// signedNumber reads a number with a sign, which is one literal.
func signedNumber(r *rep.Run, at []string, sign, num string) {
	sql := at[0] + sign + num + at[1]
	begin(r, sql)
	stmts, err := parse(sql)
	r.Event("signed number texts read", 1)
	r.Eval(sql, true)
	if err != nil || len(stmts) != 1 {
		r.ViolateAt("number is rejected", "number with a sign", sql, errStr(err))
		return
	}
	lit := astx.Leaves(stmts[0])[sign+num]
	out, _ := format(stmts[0])
	if len(lit) == 0 || out != sql {
		r.ViolateAt("number is not kept", "number with a sign", sql, out)
	}
}

// numbers reads random digit strings: those that the number grammar allows are
// one literal with exactly that text, the others are no operand.
func numbers(r *rep.Run, f *feed) {
	n := r.N(20000, 400000)
	for i := 0; i < n && !r.Full(); i++ {
		var b strings.Builder
		b.WriteByte("0123456789"[f.rng.Intn(10)])
		for k := f.rng.Intn(7); k > 0; k-- {
			b.WriteByte("0011234567890x.eE+-aF_ g"[f.rng.Intn(24)])
		}
		if f.rng.Intn(30) == 0 {
			b.WriteString(strings.Repeat([]string{"0", "1", "97", "0f"}[f.rng.Intn(4)], 10+f.rng.Intn(200)))
		}
		num := strings.TrimSpace(b.String())
		if f.rng.Intn(3) == 0 {
			pool := [][]string{decInts, floats, hexes}[f.rng.Intn(3)]
			num = pool[f.rng.Intn(len(pool))]
		}
		at := numberPlaces[f.rng.Intn(len(numberPlaces))]
		sql := at[0] + num + at[1]
		toks, lerr := ref.Lex(num)
		if sign := at[2]; sign != "" && lerr == nil && len(toks) == 1 && toks[0].Text == num && f.rng.Intn(2) == 0 {
			// the sign belongs to the number there
			sign = string(sign[f.rng.Intn(len(sign))])
			signedNumber(r, at, sign, num)
			continue
		}
		begin(r, sql)
		stmts, err := parse(sql)
		r.Event("number texts read", 1)
		switch {
		case lerr != nil && err == nil:
			r.ViolateAt("malformed number is accepted", "number", sql, lerr.Error())
		case lerr == nil && len(toks) == 1 && toks[0].Text == num:
			r.Eval(sql, true)
			if err != nil {
				r.ViolateAt("number is rejected", "number", sql, err.Error())
				continue
			}
			lit := astx.Leaves(stmts[0])[num]
			out, _ := format(stmts[0])
			if len(lit) == 0 || out != sql {
				r.ViolateAt("number is not kept", "number", sql, out)
			}
			base := 10
			if strings.HasPrefix(num, "0x") {
				base = 16
			}
			ch.Walk(stmts[0], func(e ch.Expr) bool {
				if l, ok := e.(*ch.NumberLiteral); ok && l.Literal == num && l.Base != base {
					r.ViolateAt("number is not kept", "base", sql, fmt.Sprint(l.Base, l.Literal))
				}
				return true
			})
		}
	}
}
