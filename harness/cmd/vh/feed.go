package main

import (
	"math/rand"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
	"verif/harness/work"
)

// A tcase is one statement of the workload.
type tcase struct {
	Kind string // corpus, generated, mutant
	SQL  string
	St   *gram.Stmt // for generated ones: what must be true of it
}

// A feed makes the workload of a check: the repository's sample queries, the
// harness's own, statements generated from the grammar, and a pool of edited
// statements that grows by what reaches new parser blocks.
type feed struct {
	r                         *rep.Run
	gr                        *gram.Grammar
	gen                       *gram.Gen
	corpus                    *work.Corpus
	cov                       *covMap
	rng                       *rand.Rand
	stmts                     map[string]int64
	nodes                     map[string]int64
	pool                      []string
	edges                     map[string]bool
	framesE, framesQ, framesS []string
	tr                        *transplants
}

func newFeed(r *rep.Run) *feed {
	f := &feed{r: r, gr: gram.Load(), corpus: work.LoadCorpus(r.Repo), cov: newCovMap(), stmts: map[string]int64{}, nodes: map[string]int64{}}
	f.rng = rand.New(rand.NewSource(r.Rng.Int63()))
	f.gen = gram.NewGen(f.gr, f.rng)
	f.gen.AnyOrder = r.Prop != "C11" && r.Prop != "C18" && r.Prop != "C19" // these rely on the printed order
	f.pool = append(f.pool, f.corpus.Stmts...)
	f.tr = &transplants{f: f}
	return f
}

// generate makes n statements, spread over all statement rules.
func (f *feed) generate(n int, fn func(c *tcase)) {
	rules := f.gr.Statements()
	for i := 0; i < n && !f.r.Full(); i++ {
		f.gen.Weird = []float64{0, 0.1, 0.1, 0.35}[f.rng.Intn(4)]
		f.gen.MaxDepth = []int{3, 4, 5, 7}[f.rng.Intn(4)]
		fn(f.run(&tcase{Kind: "generated", St: f.gen.Make(rules[i%len(rules)])}))
	}
}

// around are constructs that hold a query (%q) or an expression (%e).
var aroundQuery = strings.Split(`SELECT * FROM ( % )|SELECT a FROM t WHERE a IN ( % )|SELECT a FROM t WHERE a NOT IN ( % ) AND b|WITH x AS ( % ) SELECT a FROM x
SELECT a FROM t JOIN ( % ) AS j ON a = b|SELECT a FROM ( % ) AS s LEFT JOIN u USING a|SELECT 1 UNION ALL %|SELECT ( % )|SELECT a , ( % ) AS q FROM t ORDER BY a|SELECT a FROM f ( ( % ) )|SELECT a FROM t GROUP BY ( % )
SELECT CASE WHEN a IN ( % ) THEN 1 ELSE 2 END|SELECT f ( ( % ) , b )|WITH 1 AS c SELECT c FROM ( % ) LIMIT 10|SELECT a FROM t PREWHERE a = ( % ) WHERE b|SELECT * FROM ( % ) GROUP BY a HAVING b SETTINGS c = 1`, "|")
var aroundExpr = strings.Split(`f ( % )|( % , 1 )|CASE WHEN % THEN 1 ELSE 2 END|CASE a WHEN 1 THEN % END|[ % ]|a + ( % )|NOT ( % )|f ( a , % , b )|( % ) AND c|( % ) IN ( 1 , 2 )|CAST ( % AS String )|if ( a , % , 0 )
( a , % )|f ( x -> ( % ) )|f ( a ) OVER ( PARTITION BY % )|f ( a ) OVER ( ORDER BY % )|EXTRACT ( DAY FROM % )|( % ) BETWEEN 1 AND 2|CASE WHEN a THEN ( % ) END|f ( % ) OVER ( PARTITION BY a )|[ a , % ]|( % ) IS NULL|c OR ( % )|{ 'k' : % }|( % ) ? 1 : 2|- ( % )|f ( DISTINCT % )|f ( 1 ) ( % )`, "|")

func init() {
	for _, x := range []*[]string{&aroundQuery, &aroundExpr} {
		*x = strings.Split(strings.Join(*x, "|"), "|")
		var out []string
		for _, s := range *x {
			out = append(out, strings.Split(s, "\n")...)
		}
		*x = out
	}
}

// nest wraps a query in levels of other queries and expressions.
func (f *feed) nest(levels int) string {
	g := f.gen
	g.Weird, g.MaxDepth = 0.1, 3
	q := g.Make("stmt_select_clauses").Src()
	r := f.rng
	wrap := func(s, by string) string { return strings.Replace(by, "%", s, 1) }
	fill := func(s, by string) string { return strings.Replace(by, hole, s, 1) }
	if f.framesE == nil {
		f.framesE = f.frames(func() string { return "expr" }, "( zqhole )", 300)
		f.framesQ = f.frames(func() string { return "stmt_select_clauses" }, "( SELECT zqhole )", 150)
		rules := f.gr.Statements()
		f.framesS = f.frames(func() string { return rules[r.Intn(len(rules))] }, "( SELECT zqhole )", 200)
	}
	for n := 0; n < levels; {
		switch r.Intn(5) {
		case 3: // a generated query around it
			q = fill("( "+q+" )", f.framesQ[r.Intn(len(f.framesQ))])
			n++
		case 4: // generated expressions around it, often the same one
			e := "( " + q + " )"
			by := f.framesE[r.Intn(len(f.framesE))]
			for k := 1 + r.Intn(8); k > 0 && n < levels; k-- {
				e = fill(e, by)
				if r.Intn(2) == 0 {
					by = f.framesE[r.Intn(len(f.framesE))]
				}
				n++
			}
			q = "SELECT " + e
			if r.Intn(2) == 0 {
				q = fill(e, f.framesQ[r.Intn(len(f.framesQ))])
			}
		case 0:
			q = wrap(q, aroundQuery[r.Intn(len(aroundQuery))])
			n++
		case 1: // one construct many times
			by := aroundQuery[r.Intn(len(aroundQuery))]
			for k := 2 + r.Intn(12); k > 0 && n < levels; k-- {
				q = wrap(q, by)
				n++
			}
		case 2: // expressions
			e := "( " + q + " )"
			for k := 1 + r.Intn(14); k > 0 && n < levels; k-- {
				e = wrap(e, aroundExpr[r.Intn(len(aroundExpr))])
				n++
			}
			at := []string{"SELECT %", "SELECT a FROM t WHERE %", "SELECT a FROM t ORDER BY %", "SELECT a FROM t GROUP BY %", "SELECT a FROM t JOIN u ON %", "SELECT a FROM t HAVING %", "SELECT a , % AS b FROM t LIMIT 1"}
			q = wrap(e, at[r.Intn(len(at))])
		}
		if len(q) > 12000 {
			break
		}
	}
	switch r.Intn(10) {
	case 5, 6:
		q = fill("( "+q+" )", f.framesS[r.Intn(len(f.framesS))])
	case 0:
		q = "CREATE VIEW v AS " + q
	case 1:
		q = "INSERT INTO t " + q
	case 2:
		q = "CREATE TABLE t ENGINE = Memory AS " + q
	case 3:
		q = "CREATE MATERIALIZED VIEW v TO t AS " + q
	case 4:
		q = "EXPLAIN AST " + q
	}
	return q
}

// frames are generated texts with one name taken out, at a place where anything
// in brackets may stand instead.
func (f *feed) frames(rule func() string, fill string, n int) []string {
	var out []string
	for i := 0; i < 4*n && len(out) < n; i++ {
		f.gen.Weird, f.gen.MaxDepth = 0.1, 2
		name := rule()
		st := f.gen.Make(name)
		ts := st.SrcTexts()
		var ids []int
		for j, k := range st.SrcIdx() {
			if st.Toks[k].Kind == gram.Id {
				ids = append(ids, j)
			}
		}
		if len(ids) == 0 {
			continue
		}
		at := ids[f.rng.Intn(len(ids))]
		ts[at] = hole
		s := strings.Join(ts, " ")
		if name == "expr" {
			s = "( " + s + " )"
			if _, err := parse("SELECT " + strings.Replace(s, hole, fill, 1)); err != nil {
				continue
			}
		} else if _, err := parse(strings.Replace(s, hole, fill, 1)); err != nil {
			continue
		}
		out = append(out, s)
	}
	return out
}

const hole = "\x00"

// nested makes n statements of deep nesting.
func (f *feed) nested(n int, fn func(c *tcase)) {
	for i := 0; i < n && !f.r.Full(); i++ {
		fn(f.run(&tcase{Kind: "nested", SQL: f.nest([]int{3, 8, 16, 30, 50}[f.rng.Intn(5)])}))
	}
}

// one makes one generated statement.
func (f *feed) one() *gram.Stmt {
	rules := f.gr.Statements()
	f.gen.Weird = []float64{0, 0.1, 0.1, 0.35}[f.rng.Intn(4)]
	f.gen.MaxDepth = []int{3, 4, 5}[f.rng.Intn(3)]
	return f.gen.Make(rules[f.rng.Intn(len(rules))])
}

// knowns runs the inputs of the listed findings, so that each shows up while it lasts.
func (f *feed) knowns(fn func(c *tcase)) {
	for _, in := range f.r.KnownInputs() {
		fn(f.run(&tcase{Kind: "listed finding", SQL: in}))
	}
}

func (f *feed) samples(fn func(c *tcase)) {
	for _, s := range f.corpus.Stmts {
		if f.r.Full() {
			return
		}
		fn(f.run(&tcase{Kind: "corpus", SQL: s}))
	}
}

// mutants makes n edited statements.
func (f *feed) mutants(n int, fn func(c *tcase)) {
	m := &work.Mutator{R: f.rng, Pool: f.pool}
	f.cov.merge()
	for i := 0; i < n && !f.r.Full(); i++ {
		var s string
		if k := f.rng.Intn(8); k == 0 && f.rng.Intn(3) == 0 {
			s = f.keywordNames()
		} else if k == 0 {
			s = f.tr.next()
		} else if k < 3 {
			s = m.Mutate(f.one().Src())
		} else {
			s = m.Mutate(m.Pool[f.rng.Intn(len(m.Pool))])
		}
		if len(s) > 6000 {
			s = s[:6000]
		}
		covReset()
		fn(f.run(&tcase{Kind: "mutant", SQL: s}))
		if f.novel(s) && len(s) < 3000 {
			f.pool = append(f.pool, s)
			m.Pool = f.pool
		}
	}
}

var keywordSet = map[string]bool{}

func init() {
	for _, k := range gram.Keywords {
		keywordSet[k] = true
	}
}

// keywordNames makes a statement with keywords in place of names.
func (f *feed) keywordNames() string {
	pick := func() string { return anyCase(f, gram.Keywords[f.rng.Intn(len(gram.Keywords))]) }
	if f.rng.Intn(3) == 0 {
		by := behindName[f.rng.Intn(len(behindName))]
		return strings.Replace(operandPlaces[f.rng.Intn(len(operandPlaces))], "@", strings.TrimSpace(pick()+" "+by), 1)
	}
	var s string
	if f.rng.Intn(2) == 0 {
		s = f.one().Src()
	} else {
		s = f.pool[f.rng.Intn(len(f.pool))]
	}
	toks, err := ref.Lex(s)
	if err != nil {
		return s
	}
	var names []int
	for i, t := range toks {
		if t.Kind == ref.Word && !keywordSet[strings.ToUpper(t.Text)] {
			names = append(names, i)
		}
	}
	for n := 1 + f.rng.Intn(2); n > 0 && len(names) > 0; n-- {
		toks[names[f.rng.Intn(len(names))]].Text = pick()
	}
	out := make([]string, len(toks))
	for i, t := range toks {
		out[i] = t.Text
	}
	return strings.Join(out, " ")
}

func (f *feed) mutator() *work.Mutator { return &work.Mutator{R: f.rng, Pool: f.pool} }

// novel reports whether the text is worth editing further. In the quick tier
// this depends on the tree only, so that the workload is the same for code that
// does the same, however it is written; the thorough tier follows the blocks.
func (f *feed) novel(sql string) bool {
	if f.r.Thorough() {
		return f.cov.merge() > 0
	}
	if f.edges == nil {
		f.edges = map[string]bool{}
	}
	n := len(f.edges)
	stmts, err := parse(sql)
	if err != nil {
		return false
	}
	for _, s := range stmts {
		for _, x := range astx.Nodes(s) {
			p, pp := "", ""
			if x.Parent != nil {
				p = x.Parent.Type()
				if x.Parent.Parent != nil {
					pp = x.Parent.Parent.Type()
				}
			}
			f.edges[pp+"/"+p+"."+x.Field+"/"+x.Type()] = true
		}
	}
	return len(f.edges) > n
}

func (f *feed) run(c *tcase) *tcase {
	if c.SQL == "" && c.St != nil {
		c.SQL = c.St.Src()
	}
	f.r.Event("inputs of kind "+c.Kind, 1)
	begin(f.r, c.SQL)
	return c
}

// accept parses the case; it reports what it saw and returns nil when the
// library rejects the text.
func (f *feed) accept(c *tcase) []ch.Expr {
	stmts, err := parse(c.SQL)
	if err != nil {
		f.r.Event("rejected", 1)
		return nil
	}
	f.r.Event("accepted", 1)
	for _, s := range stmts {
		f.seen(s)
	}
	return stmts
}

func (f *feed) seen(s ch.Expr) {
	f.stmts[astx.TypeName(s)]++
	for _, n := range astx.Nodes(s) {
		f.nodes[n.Type()]++
	}
}

// finish records what the workload reached.
func (f *feed) finish() {
	f.cov.merge()
	f.r.Extra["statement_types"] = f.stmts
	f.r.Extra["node_counts"] = f.nodes
	if covSlices != nil {
		f.r.Sets["parser_blocks"] = f.cov.list()
		f.r.Extra["parser_blocks of"] = f.cov.total
	}
	for i, n := range f.gen.Count {
		if n > 0 {
			f.r.Sets["grammar_branches"] = append(f.r.Sets["grammar_branches"], i)
		}
	}
	f.r.Extra["grammar_branches of"] = f.gr.Choices()
}

// single parses a case that must be one statement; nil if it is not.
func (f *feed) single(c *tcase) ch.Expr {
	stmts := f.accept(c)
	if len(stmts) != 1 || astx.IsNil(stmts[0]) {
		return nil
	}
	return stmts[0]
}

// joinTight joins tokens with as little space as their reading allows.
func tight(ts []string) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && needSpace(ts[i-1], t) {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

// needSpace reports whether two tokens would read differently without a gap.
func needSpace(a, b string) bool {
	toks, err := ref.Lex(a + b)
	return err != nil || len(toks) != 2 || toks[0].Text != a || toks[1].Text != b
}
