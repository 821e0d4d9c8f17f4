package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C02"] = check{
		rule: "A case is one statement with a part repeated or nested n, 2n and 4n times; it counts when the repeated form was accepted (or, for the broken forms, refused) at all sizes and the work at the sizes was compared.",
		assume: []string{"Work is counted as basic blocks of the parser package executed, by counters that the build adds, and bytes allocated. Both are exact or nearly so, and need no clock.",
			"Growth is called more than proportional when doubling the input more than doubles the work by a wide margin twice in a row."},
		run: runC02,
	}
}

// A cost is the work of one operation.
type cost struct {
	blocks uint64
	bytes  uint64
	out    int // length of the text made, if any
}

var covLive *covMap

func measure(f func()) cost {
	var a, b runtime.MemStats
	covReset()
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	c := cost{covSum(), b.TotalAlloc - a.TotalAlloc, 0}
	if covLive != nil {
		covLive.merge()
	}
	return c
}

var opNames = []string{"parse", "format", "beautify", "walk", "visit", "pos", "error text"}

// costs measures every operation on one text.
func costs(sql string) (accepted bool, c [7]cost, err error) {
	var stmts []ch.Expr
	var perr error
	c[0] = measure(func() { stmts, perr = parse(sql) })
	if isPanic(perr) {
		return false, c, perr
	}
	if perr != nil {
		c[6] = measure(func() { _ = perr.Error() })
		return false, c, nil
	}
	err = guard(func() {
		c[1] = measure(func() {
			for _, s := range stmts {
				ch.Format(s)
			}
		})
		made := 0
		c[2] = measure(func() {
			for _, s := range stmts {
				f := ch.NewFormatter().WithBeautify()
				f.WriteExpr(s)
				made += len(f.String())
			}
		})
		c[2].out = made
		c[3] = measure(func() {
			for _, s := range stmts {
				ch.Walk(s, func(ch.Expr) bool { return true })
			}
		})
		c[4] = measure(func() {
			v := &ch.DefaultASTVisitor{}
			for _, s := range stmts {
				_ = s.Accept(v)
			}
		})
		c[5] = measure(func() {
			for _, s := range stmts {
				s.Pos()
				s.End()
			}
		})
	})
	return true, c, err
}

// A pump makes a text of any size.
type pump struct {
	name string
	make func(n int) string
	size int    // base size
	site string // of a listed finding: growth with the square of the size goes under this name
}

// grows compares the work at n, 2n, 4n; it returns a message when it grows more than in proportion.
func (p *pump) grows(r *rep.Run) (string, string, bool) {
	n := p.size
	var cs [3][7]cost
	var acc [3]bool
	var sz [3]int
	for i := 0; i < 3; i++ {
		s := p.make(n << i)
		begin(r, s)
		sz[i] = len(s)
		a, c, err := costs(s)
		if err != nil {
			return "", "", false
		}
		acc[i], cs[i] = a, c
	}
	if acc[0] != acc[1] || acc[1] != acc[2] {
		return "", "", false
	}
	r.Event("growth series measured", 1)
	for op := range opNames {
		for m, get := range []func(cost) uint64{func(c cost) uint64 { return c.blocks }, func(c cost) uint64 { return c.bytes }} {
			w := [3]float64{float64(get(cs[0][op])), float64(get(cs[1][op])), float64(get(cs[2][op]))}
			floor := 2000.0
			if m == 1 {
				floor = 200000
			}
			if w[2] < floor*4 {
				continue
			}
			// what each doubling of the text adds must itself about double
			d1, d2 := w[1]-w[0], w[2]-w[1]
			g := float64(sz[2]-sz[1]) / float64(sz[1]-sz[0])
			h := float64(sz[2]) / float64(sz[1])
			limit, total := 1.2, 1.08
			if m == 1 {
				limit, total = 1.75, 1.25 // slices grow in jumps
			}
			if o := cs[1][op].out; o > 0 && cs[2][op].out > o && o > cs[0][op].out {
				// indented text is longer than its source by itself
				if og := float64(cs[2][op].out-o) / float64(o-cs[0][op].out); og > g {
					g = og
				}
				if oh := float64(cs[2][op].out) / float64(o); oh > h {
					h = oh
				}
			}
			if d1 > 0 && d2 > floor && d2/d1 > g*limit && w[2]/w[1] > total*h {
				unit := []string{"blocks", "bytes"}[m]
				site := opNames[op]
				if p.site == "" && strings.Contains(strings.ReplaceAll(strings.ToUpper(p.make(2)), " ", ""), "INTERVAL[") {
					p.site = "an operand INTERVAL [ ] repeated"
				}
				if p.site != "" && d2/d1 < 4.4 {
					site += ": " + p.site
				}
				return site, fmt.Sprintf("%s: %s of %s, %s for %v %s at sizes %d, %d, %d", p.name, opNames[op], map[bool]string{true: "an accepted text", false: "a refused text"}[acc[2]], unit, w, unit, sz[0], sz[1], sz[2]), true
			}
		}
	}
	return "", "", true
}

func runC02(r *rep.Run) {
	f := newFeed(r)
	covLive = f.cov
	n := r.N(160, 256)
	check := func(p *pump) bool {
		op, msg, ok := p.grows(r)
		r.Eval(p.name, ok)
		if msg != "" {
			r.ViolateAt("work grows more than the input", op, p.make(16), msg)
		}
		return ok
	}
	// the constructs that can be repeated or nested by hand
	for hi, h := range handPumps {
		h := h
		if !r.Mine(hi) {
			continue
		}
		for _, cut := range []bool{false, true} {
			cut := cut
			mk := func(k int) string {
				s := h[0] + strings.Repeat(h[1], k) + h[2] + strings.Repeat(h[3], k) + h[4]
				if cut { // the same, broken at the end
					s += " ) +"
				}
				return s
			}
			name := fmt.Sprintf("%s(%s)^n %s (%s)^n%s", h[0], h[1], h[2], h[3], h[4])
			if cut {
				name += " broken"
			}
			if !check(&pump{name: name, make: mk, size: 6 * n}) {
				continue
			}
			if !cut {
				if _, err := parse(mk(3)); err != nil {
					r.Event("hand-written forms that are refused", 1)
					if r.Thorough() {
						fmt.Println("refused:", mk(3))
					}
				}
			}
		}
	}
	// every keyword where a name or an operand may stand, with what may follow one
	ki := 0
	for _, k := range gram.Keywords {
		for _, by := range afterName {
			for _, h := range [][3]string{{"SELECT ", by + ", ", "1"}, {"SELECT ", by + " + ", "1"}, {"SELECT f(", by + ", ", "1)"}, {"SELECT * FROM t WHERE ", by + " AND ", "1"}, {"SELECT ", "f(" + by + ", ", "1"}, {"SELECT [", by + ", ", "1]"}} {
				ki++
				if !r.Mine(ki) || r.Full() {
					continue
				}
				if !startsOperand[k] && !r.Thorough() && f.rng.Intn(6) != 0 {
					continue
				}
				pre, unit, post := h[0], strings.ReplaceAll(h[1], "%", k), h[2]
				cl := ""
				if strings.HasPrefix(unit, "f(") {
					cl = ")"
				}
				mk := func(n int) string { return pre + strings.Repeat(unit, n) + post + strings.Repeat(cl, n) }
				begin(r, mk(3))
				if _, err := parse(mk(3)); err != nil {
					continue
				}
				r.Event("keywords as names that repeat", 1)
				name := pre + "(" + unit + ")^n" + post
				switch {
				case cl != "":
					check(&pump{name: name, make: mk, size: 40})
				case k == "INTERVAL" && strings.Contains(unit, "["):
					check(&pump{name: name, make: mk, size: 80})
				default:
					check(&pump{name: name, make: mk, size: r.N(160, 640)})
				}
			}
		}
	}
	// repeat or nest a random part of a statement
	tries := r.N(20000, 150000)
	found := 0
	for i := 0; i < tries && !r.Full(); i++ {
		var src string
		if i%3 == 0 {
			src = f.corpus.Stmts[f.rng.Intn(len(f.corpus.Stmts))]
		} else {
			src = f.one().Src()
		}
		toks, err := ref.Lex(src)
		if err != nil || len(toks) < 2 || len(toks) > 120 {
			continue
		}
		ts := ref.Texts(toks)
		a := f.rng.Intn(len(ts))
		b := a + 1 + f.rng.Intn(8)
		if b > len(ts) {
			b = len(ts)
		}
		var mk func(k int) string
		name := ""
		if f.rng.Intn(2) == 0 {
			pre, unit, post := strings.Join(ts[:a], " "), strings.Join(ts[a:b], " "), strings.Join(ts[b:], " ")
			mk = func(k int) string { return pre + " " + strings.Repeat(unit+" ", k) + post }
			name = pre + " (" + unit + ")^n " + post
		} else {
			c := b + f.rng.Intn(6)
			if c > len(ts) {
				c = len(ts)
			}
			d := c + f.rng.Intn(5)
			if d > len(ts) {
				d = len(ts)
			}
			pre, open, mid, cl, post := strings.Join(ts[:a], " "), strings.Join(ts[a:b], " "), strings.Join(ts[b:c], " "), strings.Join(ts[c:d], " "), strings.Join(ts[d:], " ")
			mk = func(k int) string {
				return pre + " " + strings.Repeat(open+" ", k) + mid + " " + strings.Repeat(cl+" ", k) + post
			}
			name = pre + " (" + open + ")^n " + mid + " (" + cl + ")^n " + post
		}
		begin(r, mk(3))
		if _, err := parse(mk(2)); err != nil {
			if f.rng.Intn(40) != 0 { // a few refused ones as well
				continue
			}
		} else if _, err := parse(mk(3)); err != nil {
			continue
		}
		r.Event("random parts that repeat", 1)
		found++
		check(&pump{name: name, make: mk, size: n})
	}
	// many statements, long tokens, long comments
	for _, s := range []string{"SELECT 1;", "SELECT 1 -- c\n;", "/* c */ SELECT 'x';\n", "USE db;\n\n", "SHOW TABLES;", ";"} {
		s := s
		check(&pump{name: "(" + s + ")^n", make: func(k int) string { return strings.Repeat(s, k) }, size: 4 * n})
	}
	for _, s := range [][3]string{{"SELECT '", "x", "'"}, {"SELECT '", "''", "'"}, {"SELECT '", "\\\\", "'"}, {"SELECT `", "y", "`"}, {"SELECT ", "z", ""}, {"SELECT ", "9", ""}, {"SELECT 1 -- ", "c", ""},
		{"SELECT 1 /* ", "*", " */"}, {"SELECT 1", " ", ""}, {"SELECT 1", "\n", ""}, {"SELECT 1\n", "--\n", ""}, {"SELECT /**/", "/**/", "1"}, {"SELECT 0x", "f", ""}, {"SELECT 1.", "1", ""}, {"SELECT '", "\n", "'"}, {"SELECT '", "\n", ""}, {"SELECT `", "\n", ""}, {"/*", "\n", ""}, {"SELECT 1", "\n", " )"}, {"SELECT 1", "\n", " 'a"}} {
		s := s
		check(&pump{name: s[0] + "(" + s[1] + ")^n" + s[2], make: func(k int) string { return s[0] + strings.Repeat(s[1], k) + s[2] }, size: 16 * n})
	}
	big(r)
	f.finish()
	r.Extra["random_parts_found"] = found
}

// startsOperand are the keywords that begin an operand of their own.
var startsOperand = set("INTERVAL CASE CAST EXTRACT DATE TIMESTAMP NOT EXISTS ARRAY DISTINCT TRIM SUBSTRING IF ANY ALL TRUE FALSE NULL")

// afterName are a word and what may follow a name.
var afterName = []string{"%", "%[1]", "%.a", "%(1)", "% AS z", "% IN (1)", "%::Int8", "% ? 1 : 2", "% -> 1", "a.%", "%[1].1", "- %"}

// big runs whole large texts and reads the processor time that the thread
// spent: it sees what block counters cannot, such as scanning done in the
// standard library.
func big(r *rep.Run) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for _, h := range [][3]string{{"SELECT 1", ", a", ""}, {"SELECT 1", ",\n a", ""}, {"SELECT 1", "\n + a", ")"}, {"", "SELECT 1;\n", ""}, {"", "SELECT 1;\n", ")"}, {"SELECT 1", "\n", ""}, {"SELECT 1", "\n--c", "\n)"},
		{"INSERT INTO t VALUES (1, 'a')", ",\n(2, 'b')", ""}, {"SELECT '", "x\n", "'"}, {"SELECT '", "x\n", ""}, {"SELECT * FROM t WHERE a IN (1", ",\n'b'", ")"}, {"CREATE TABLE t (a Int8", ",\n b String COMMENT 'x'", ") ENGINE = Memory"},
		{"SELECT a", ", `b`", ""}, {"SELECT 'a'", " || 'b'", ""}, {"SELECT 1", "\n UNION ALL SELECT 2", ""}} {
		var cpu [2]float64
		for i, size := range []int{256 << 10, 1 << 20} {
			s := h[0] + strings.Repeat(h[1], size/len(h[1])) + h[2]
			begin(r, s)
			t := threadCPU()
			stmts, err := parse(s)
			if isPanic(err) {
				r.Violate("parse panics", clip(s, 300), err.Error())
			}
			if err != nil {
				_ = err.Error()
			}
			for _, st := range stmts {
				_, _ = format(st)
				_, _ = beautify(st, "  ")
			}
			cpu[i] = threadCPU() - t
		}
		r.Event("large texts timed", 2)
		r.Eval("large "+h[0]+"("+h[1]+")^n"+h[2], true)
		if cpu[1] > 4 && cpu[1] > 9*cpu[0] {
			r.Violate("processor time grows more than the input", h[0]+h[1]+h[2], fmt.Sprintf("%s(%s)^n%s: %.2f s for 256 KiB, %.2f s for 1 MiB", h[0], h[1], h[2], cpu[0], cpu[1]))
		}
	}
}

// threadCPU is the user time of this thread in seconds.
func threadCPU() float64 {
	var u syscall.Rusage
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	return float64(u.Utime.Nano()) / 1e9
}

// handPumps: before, repeated opening, middle, repeated closing, after.
var handPumps = [][5]string{
	{"SELECT ", "(", "1", ")", ""},
	{"SELECT ", "((a, ", "1", "), 2)", ""},
	{"SELECT ", "[", "1", "]", ""},
	{"SELECT ", "f(", "1", ")", ""},
	{"SELECT ", "f(a, ", "1", ")", ""},
	{"SELECT ", "f(1)(", "1", ")", ""},
	{"SELECT ", "- ", "1", "", ""},
	{"SELECT ", "+ -", "x", "", ""},
	{"SELECT ", "NOT ", "1", "", ""},
	{"SELECT ", "a + ", "1", "", ""},
	{"SELECT ", "a * (b - ", "1", ")", ""},
	{"SELECT ", "a AND b OR ", "1", "", ""},
	{"SELECT ", "a ? b : ", "1", "", ""},
	{"SELECT ", "x -> ", "1", "", ""},
	{"SELECT ", "(x, y) -> ", "1", "", ""},
	{"SELECT ", "CASE WHEN a THEN ", "1", " ELSE 0 END", ""},
	{"SELECT ", "CASE ", "x", " WHEN 1 THEN 2 END", ""},
	{"SELECT CASE ", "WHEN a THEN b ", "", "", "END"},
	{"SELECT ", "CAST(", "1", " AS Int8)", ""},
	{"SELECT ", "CAST(", "1", ", 'Int8')", ""},
	{"SELECT ", "", "a", "[1]", ""},
	{"SELECT ", "", "a", ".1", ""},
	{"SELECT ", "", "a", ".b", ""},
	{"SELECT ", "", "a", "::Int8", ""},
	{"SELECT a::", "Array(", "Int8", ")", ""},
	{"SELECT ", "EXTRACT(DAY FROM ", "x", ")", ""},
	{"SELECT ", "if(a, ", "1", ", 2)", ""},
	{"SELECT ", "a IN (", "1", ")", ""},
	{"SELECT a", " IN (SELECT 1)", "", "", ""},
	{"SELECT a BETWEEN ", "(1 BETWEEN ", "2", " AND 3)", " AND 4"},
	{"SELECT a", " BETWEEN 1 AND 2 AND b", "", "", ""},
	{"SELECT a", " LIKE 'x' || b", "", "", ""},
	{"SELECT a", " IS NULL AND b", "", "", ""},
	{"SELECT 1", ", 1", "", "", ""},
	{"SELECT a AS b", ", a AS b", "", "", ""},
	{"SELECT f(1", ", 1", ")", "", ""},
	{"SELECT [1", ", 1", "]", "", ""},
	{"SELECT (1", ", 1", ")", "", ""},
	{"SELECT f(DISTINCT a", ", b", ")", "", ""},
	{"SELECT f(1) OVER (PARTITION BY a", ", b", ")", "", ""},
	{"SELECT ", "(SELECT ", "1", ")", ""},
	{"SELECT * FROM ", "(SELECT * FROM ", "t", ")", ""},
	{"SELECT * FROM ", "(SELECT * FROM ", "t", ") AS x", ""},
	{"SELECT * FROM t", " JOIN u ON a = b", "", "", ""},
	{"SELECT * FROM t", " LEFT JOIN (SELECT 1) AS u USING a", "", "", ""},
	{"SELECT * FROM t", ", u", "", "", ""},
	{"SELECT * FROM t", " ARRAY JOIN a AS b", "", "", ""},
	{"SELECT * FROM t", " CROSS JOIN u", "", "", ""},
	{"SELECT * FROM ", "f(", "x", ")", ""},
	{"SELECT * FROM f(a", ", b", ")", "", ""},
	{"SELECT * FROM f(", "a = f(", "1", ")", ")"},
	{"SELECT * FROM t WHERE ", "(", "1", ")", ""},
	{"SELECT * FROM t WHERE ", "a = 1 AND ", "1", "", ""},
	{"SELECT * FROM t WHERE ", "a IN (SELECT 1 WHERE ", "1", ")", ""},
	{"SELECT * FROM t WHERE ", "EXISTS(SELECT 1 FROM t WHERE ", "1", ")", ""},
	{"SELECT * FROM t GROUP BY a", ", b", "", "", ""},
	{"SELECT * FROM t GROUP BY GROUPING SETS ((a)", ", (b, c)", ")", "", ""},
	{"SELECT * FROM t ORDER BY a", ", b DESC", "", "", ""},
	{"SELECT * FROM t ORDER BY a WITH FILL FROM ", "(", "1", ")", ""},
	{"SELECT * FROM t WINDOW w AS (ORDER BY a)", ", x AS (PARTITION BY b)", "", "", ""},
	{"SELECT * FROM t SETTINGS a = 1", ", b = 2", "", "", ""},
	{"SELECT * FROM t LIMIT ", "(", "1", ")", ""},
	{"SELECT 1", " UNION ALL SELECT 1", "", "", ""},
	{"SELECT 1", " EXCEPT SELECT 1", "", "", ""},
	{"SELECT 1", " UNION ALL (SELECT 1", "", ")", ""},
	{"", "(", "SELECT 1", ")", ""},
	{"WITH a AS (SELECT 1)", ", b AS (SELECT 1)", " SELECT 1", "", ""},
	{"", "WITH a AS (", "SELECT 1", ") SELECT 1", ""},
	{"SELECT * REPLACE(1 AS a", ", 2 AS b", ") FROM t", "", ""},
	{"SELECT *", " EXCEPT(a)", " FROM t", "", ""},
	{"SELECT *", " APPLY(f)", " FROM t", "", ""},
	{"SELECT DISTINCT ON (a", ", b", ") 1", "", ""},
	{"SELECT '", "a", "' FROM t", "", ""},
	{"SELECT {p:", "Array(", "String", ")", "}"},
	{"SELECT {p:", "Tuple(a ", "String", ")", "}"},
	{"SET x = {'a': 1", ", 'b': 2", "}", "", ""},
	{"SET x = ", "{'a': ", "1", "}", ""},
	{"SET x = ", "[", "1", "]", ""},
	{"SET a = 1", ", b = 2", "", "", ""},
	{"INSERT INTO t VALUES (1)", ", (2)", "", "", ""},
	{"INSERT INTO t VALUES (1", ", 2", ")", "", ""},
	{"INSERT INTO t VALUES (", "(", "1", ")", ")"},
	{"INSERT INTO t VALUES (", "f(", "1", ")", ")"},
	{"INSERT INTO t VALUES (", "[", "1", "]", ")"},
	{"INSERT INTO t (a", ", b", ") VALUES (1)", "", ""},
	{"INSERT INTO t SELECT 1", " UNION ALL SELECT 1", "", "", ""},
	{"CREATE TABLE t (a Int8", ", b Int8", ") ENGINE = Memory", "", ""},
	{"CREATE TABLE t (a ", "Array(", "Int8", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a ", "Tuple(x ", "Int8", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a ", "Nested(x ", "Int8", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a ", "Map(String, ", "Int8", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a Enum8('a' = 1", ", 'b' = 2", ")) ENGINE = Memory", "", ""},
	{"CREATE TABLE t (a Tuple(Int8", ", Int8", ")) ENGINE = Memory", "", ""},
	{"CREATE TABLE t (a JSON(a Int8", ", b Int8", ")) ENGINE = Memory", "", ""},
	{"CREATE TABLE t (a JSON(", "a JSON(", "b Int8", ")", ")) ENGINE = Memory"},
	{"CREATE TABLE t (a Int8 DEFAULT ", "(", "1", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a Int8 DEFAULT ", "f(", "1", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a Int8 CODEC(", "Delta, ", "LZ4", "", ")) ENGINE = Memory"},
	{"CREATE TABLE t (a Int8, INDEX i ", "f(", "a", ")", " TYPE minmax GRANULARITY 1) ENGINE = Memory"},
	{"CREATE TABLE t (a Int8, CONSTRAINT c CHECK ", "(", "a", ")", ") ENGINE = Memory"},
	{"CREATE TABLE t (a Int8, PROJECTION p (SELECT a", ", b", ")) ENGINE = Memory", "", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E(", "f(", "1", ")", ")"},
	{"CREATE TABLE t (a Int8) ENGINE = E(1", ", 2", ")", "", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E ORDER BY (a", ", b", ")", "", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E ORDER BY ", "(", "a", ")", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E PARTITION BY ", "f(", "a", ")", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E ORDER BY a TTL a + INTERVAL 1 DAY", ", b + INTERVAL 1 DAY", "", "", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E ORDER BY a SETTINGS a = 1", ", b = 1", "", "", ""},
	{"CREATE TABLE t (a Int8) ENGINE = E AS ", "SELECT * FROM (", "SELECT 1", ")", ""},
	{"CREATE VIEW v AS ", "(", "SELECT 1", ")", ""},
	{"CREATE VIEW v AS SELECT 1", " UNION ALL SELECT 1", "", "", ""},
	{"CREATE MATERIALIZED VIEW v DEPENDS ON a", ", b", " TO t AS SELECT 1", "", ""},
	{"CREATE MATERIALIZED VIEW v TO t AS ", "SELECT * FROM (", "SELECT 1", ")", ""},
	{"CREATE FUNCTION f AS (x", ", y", ") -> 1", "", ""},
	{"CREATE FUNCTION f AS (x) -> ", "(", "x", ")", ""},
	{"CREATE DICTIONARY d (a Int8", ", b Int8", ") PRIMARY KEY a SOURCE(NULL()) LAYOUT(FLAT()) LIFETIME(1)", "", ""},
	{"CREATE DICTIONARY d (a Int8) PRIMARY KEY a", ", b", " SOURCE(NULL()) LAYOUT(FLAT()) LIFETIME(1)", "", ""},
	{"CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(X(a 1", " b 2", ")) LAYOUT(FLAT()) LIFETIME(1)", "", ""},
	{"CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(X(", "a (", "b 1", ")", ")) LAYOUT(FLAT()) LIFETIME(1)"},
	{"CREATE NAMED COLLECTION c AS a = 1", ", b = 1", "", "", ""},
	{"CREATE ROLE a", ", b", "", "", ""},
	{"CREATE USER a", ", b", "", "", ""},
	{"CREATE USER a", " HOST IP '1'", "", "", ""},
	{"CREATE USER a SETTINGS a = 1", ", b = 1", "", "", ""},
	{"CREATE USER a GRANTEES a", ", b", "", "", ""},
	{"ALTER ROLE a", ", b RENAME TO c", "", "", ""},
	{"ALTER TABLE t DROP COLUMN a", ", DROP COLUMN b", "", "", ""},
	{"ALTER TABLE t ADD COLUMN a Int8", ", ADD COLUMN b Int8 AFTER a", "", "", ""},
	{"ALTER TABLE t UPDATE a = 1", ", b = 1", " WHERE 1", "", ""},
	{"ALTER TABLE t DELETE WHERE ", "(", "1", ")", ""},
	{"ALTER TABLE t MODIFY ORDER BY ", "(", "1", ")", ""},
	{"ALTER TABLE t MODIFY SETTING a = 1", ", b = 1", "", "", ""},
	{"ALTER TABLE t RESET SETTING a", ", b", "", "", ""},
	{"ALTER TABLE t MODIFY TTL a", ", b", "", "", ""},
	{"ALTER TABLE t DROP PARTITION ", "(", "1", ")", ""},
	{"RENAME TABLE a TO b", ", c TO d", "", "", ""},
	{"GRANT SELECT", ", INSERT", " ON *.* TO u", "", ""},
	{"GRANT SELECT(a", ", b", ") ON *.* TO u", "", ""},
	{"GRANT SELECT ON *.* TO u", ", v", "", "", ""},
	{"GRANT SELECT ON *.* TO u", " WITH GRANT OPTION", "", "", ""},
	{"DROP USER a", ", b", "", "", ""},
	{"DELETE FROM t WHERE ", "(", "1", ")", ""},
	{"OPTIMIZE TABLE t DEDUPLICATE BY a", ", b", "", "", ""},
	{"EXPLAIN AST ", "SELECT * FROM (", "SELECT 1", ")", ""},
	{"EXPLAIN ", "EXPLAIN AST ", "SELECT 1", "", ""},
	{"SELECT a", ".b", " FROM t", "", ""},
	{"SELECT * FROM t SAMPLE 1", "/2", "", "", ""},
	{"SELECT ", "$", "", "", ""},
	{"", "$$", "", "", ""},
	{"SELECT ", "?", "", "", ""},
	{"SELECT ", "@", "", "", ""},
	{"", "(", "", "", ""},
	{"SELECT ", "[", "", "", ""},
	{"SELECT ", "{", "", "", ""},
	{"SELECT ", "f(", "", "", ""},
	{"SELECT ", "CASE WHEN ", "", "", ""},
	{"SELECT ", "(SELECT ", "", "", ""},
	{"SELECT * FROM ", "(", "", "", ""},
	{"SELECT * FROM ", "f(", "", "", ""},
	{"CREATE TABLE t (a ", "Array(", "", "", ""},
	{"INSERT INTO t VALUES ", "(", "", "", ""},
}
