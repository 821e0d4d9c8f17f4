package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/rep"
)

func init() {
	checks["C16"] = check{
		rule:   "Built with the race detector. In each round a group of goroutines starts at one barrier, with random pauses and a random GOMAXPROCS; they parse (own and equal texts, right and wrong ones), then format, beautify, walk, search, visit, dump and read positions of shared trees and print shared errors. The first rounds are the first use the process makes of the library. A case counts when each goroutine's result was compared with the one computed alone afterwards; the detector watches every access. Also: steps of several parsers and formatters interleaved in one goroutine.",
		assume: []string{"The race detector sees the accesses that were executed; it needs no particular interleaving to see an unordered pair, but both accesses must run."},
		run:    runC16,
	}
}

// An op inspects a shared statement and says what it saw.
type op struct {
	name string
	do   func(s ch.Expr, rng *rand.Rand) string
}

func guarded(f func() string) (out string) {
	if err := guard(func() { out = f() }); err != nil {
		return "panic"
	}
	return out
}

var readers = []op{
	{"Format", func(s ch.Expr, _ *rand.Rand) string { return ch.Format(s) }},
	{"beautify", func(s ch.Expr, _ *rand.Rand) string {
		f := ch.NewFormatter().WithBeautify()
		f.WriteExpr(s)
		return f.String()
	}},
	{"beautify with tabs", func(s ch.Expr, _ *rand.Rand) string {
		f := ch.NewFormatter().WithBeautify().WithIndent("\t")
		f.WriteExpr(s)
		return f.String()
	}},
	{"Walk", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		ch.Walk(s, func(e ch.Expr) bool { b.WriteString(astx.TypeName(e)); b.WriteByte(' '); return true })
		return b.String()
	}},
	{"WalkWithBreak", func(s ch.Expr, _ *rand.Rand) string {
		n := 0
		ch.WalkWithBreak(s, func(e ch.Expr) bool { n++; return n < 9 })
		return fmt.Sprint(n)
	}},
	{"Find", func(s ch.Expr, _ *rand.Rand) string {
		e, ok := ch.Find(s, func(e ch.Expr) bool { return astx.TypeName(e) == "NumberLiteral" })
		if !ok {
			return "none"
		}
		return fmt.Sprint(astx.TypeName(e), e.Pos())
	}},
	{"FindAll", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		for _, e := range ch.FindAll(s, func(e ch.Expr) bool { return astx.TypeName(e) == "Ident" }) {
			fmt.Fprint(&b, e.Pos(), " ", ch.Format(e), ";")
		}
		return b.String()
	}},
	{"Transform", func(s ch.Expr, _ *rand.Rand) string {
		return ch.Format(ch.Transform(s, func(e ch.Expr) ch.Expr { return e }))
	}},
	{"Accept", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		v := &ch.DefaultASTVisitor{Visit: func(e ch.Expr) error { b.WriteString(astx.TypeName(e)); b.WriteByte(' '); return nil }}
		err := s.Accept(v)
		return b.String() + errStr(err)
	}},
	{"Accept with an error", func(s ch.Expr, _ *rand.Rand) string {
		v := newRecorder(3)
		err := s.Accept(v)
		return fmt.Sprint(v.visits, errStr(err))
	}},
	{"JSON", func(s ch.Expr, _ *rand.Rand) string {
		b, err := json.Marshal(s)
		return string(b) + errStr(err)
	}},
	{"positions", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		for _, n := range astx.Nodes(s) {
			fmt.Fprint(&b, n.Expr.Pos(), "-", n.Expr.End(), " ")
		}
		return b.String()
	}},
	{"every node formatted", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		for _, n := range astx.Nodes(s) {
			b.WriteString(ch.Format(n.Expr))
			b.WriteByte(';')
		}
		return b.String()
	}},
	{"String methods", func(s ch.Expr, _ *rand.Rand) string {
		var b strings.Builder
		for _, n := range astx.Nodes(s) {
			if x, ok := n.Expr.(fmt.Stringer); ok {
				b.WriteString(x.String())
			}
			if d, ok := n.Expr.(ch.DDL); ok {
				b.WriteString(d.Type())
			}
		}
		return b.String()
	}},
}

func parseText(sql string) string {
	stmts, err := parse(sql)
	if err != nil {
		return "error " + err.Error()
	}
	var b strings.Builder
	for _, s := range stmts {
		b.WriteString(astx.Dump(s, true))
	}
	return b.String()
}

// A step is what one goroutine did, and when.
type step struct {
	name   string
	text   int
	from   int64
	to     int64
	result string
}

func runC16(r *rep.Run) {
	start := time.Now()
	now := func() int64 { return int64(time.Since(start)) }
	f := newFeed(r)
	rng := f.rng
	// The texts: nothing of the library runs before the first round.
	var texts []string
	texts = append(texts, f.corpus.Stmts...)
	f.generate(r.N(1200, 12000), func(c *tcase) { texts = append(texts, c.SQL) })
	m := newBlindMutator(f)
	for i := 0; i < r.N(800, 8000); i++ {
		texts = append(texts, m())
	}
	for i, s := range texts {
		if len(s) > 4000 {
			texts[i] = s[:4000]
		}
	}
	rng.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })

	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	overlaps := map[string]int64{}
	orders := map[string]bool{}
	together := 0
	pause := func(rng *rand.Rand) {
		switch rng.Intn(6) {
		case 0:
			runtime.Gosched()
		case 1:
			for i := rng.Intn(3000); i > 0; i-- {
			}
		case 2:
			time.Sleep(time.Duration(rng.Intn(60)) * time.Microsecond)
		}
	}
	// together runs the goroutines of a round; each returns its steps.
	group := func(n int, mark string, work func(g int, rng *rand.Rand, add func(name string, text int, f func() string))) [][]step {
		runtime.GOMAXPROCS([]int{2, 4, 8, 8, 16}[rng.Intn(5)])
		begin(r, mark)
		out := make([][]step, n)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			seed := rng.Int63()
			go func(g int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				var mine []step
				<-gate
				work(g, rng, func(name string, text int, f func() string) {
					pause(rng)
					s := step{name: name, text: text, from: now()}
					s.result = guarded(f)
					s.to = now()
					mine = append(mine, s)
				})
				out[g] = mine
			}(g)
		}
		close(gate)
		wg.Wait()
		together += n
		observe(out, overlaps, orders)
		return out
	}
	markOf := func(ids []int) string {
		var b strings.Builder
		for _, i := range ids {
			b.WriteString(texts[i] + "\n;\n")
		}
		return b.String()
	}
	compare := func(kind string, steps [][]step, alone func(s step) string) {
		for _, ss := range steps {
			for _, s := range ss {
				want := alone(s)
				r.Eval(fmt.Sprint(s.name, texts[s.text]), true)
				r.Event("results of "+kind+" compared", 1)
				if s.result != want {
					r.ViolateAt("a result differs from the one alone", s.name, texts[s.text], "alone  "+clip(want, 700)+"\nshared "+clip(s.result, 700))
				}
			}
		}
	}

	// 1. Everything at once, cold: every goroutine parses and inspects the same slice of texts.
	rounds := r.N(40, 400)
	per := len(texts)/rounds + 1
	at := 0
	for k := 0; k < rounds && !r.Full(); k++ {
		var ids []int
		for i := 0; i < per && at < len(texts); i++ {
			ids = append(ids, at)
			at++
		}
		if len(ids) == 0 {
			break
		}
		n := []int{4, 8, 12, 16}[rng.Intn(4)]
		steps := group(n, markOf(ids), func(g int, rng *rand.Rand, add func(string, int, func() string)) {
			mine := ids
			if g%2 == 1 { // some begin elsewhere
				mine = nil
				for _, i := range rng.Perm(len(ids)) {
					mine = append(mine, ids[i])
				}
			}
			for _, id := range mine {
				sql := texts[id]
				if g%4 == 3 {
					sql = string(append([]byte(nil), sql...))
				}
				add("parse", id, func() string { return parseText(sql) })
				if stmts, err := parse(sql); err == nil {
					for _, s := range stmts {
						if astx.IsNil(s) {
							continue
						}
						op := readers[rng.Intn(len(readers))]
						op.do(s, rng)
					}
				}
			}
		})
		memo := map[int]string{}
		compare("parsing", steps, func(s step) string {
			if _, ok := memo[s.text]; !ok {
				memo[s.text] = guarded(func() string { return parseText(texts[s.text]) })
			}
			return memo[s.text]
		})
	}
	r.Event("rounds of parsing", int64(rounds))

	// 2. Shared trees and shared errors, straight from the parser: nobody has inspected them before.
	shared := r.N(2500, 30000)
	for k := 0; k < shared && !r.Full(); k++ {
		id := rng.Intn(len(texts))
		stmts, err := parse(texts[id])
		if isPanic(err) {
			continue
		}
		n := []int{3, 4, 6, 8}[rng.Intn(4)]
		if err != nil {
			r.Event("errors shared", 1)
			steps := group(n, texts[id], func(g int, rng *rand.Rand, add func(string, int, func() string)) {
				add("Error", id, func() string { return err.Error() })
				add("parse", id, func() string { return parseText(texts[id]) })
			})
			compare("printing errors", steps, func(s step) string {
				if s.name == "Error" {
					_, e := parse(texts[id])
					return errStr(e)
				}
				return parseText(texts[id])
			})
			continue
		}
		for _, s := range stmts {
			if astx.IsNil(s) {
				continue
			}
			f.seen(s)
			r.Event("trees shared", 1)
			twin := rng.Intn(len(readers)) // one operation that everybody runs
			count := 2 + rng.Intn(3)
			steps := group(n, texts[id], func(g int, rng *rand.Rand, add func(string, int, func() string)) {
				do := func(o op) { add(o.name, id, func() string { return o.do(s, rng) }) }
				if g%2 == 0 {
					do(readers[twin])
				}
				for i := 0; i < count; i++ {
					do(readers[rng.Intn(len(readers))])
				}
				if g%2 == 1 {
					do(readers[twin])
				}
				if g == n-1 { // somebody goes on parsing
					add("parse", id, func() string { return parseText(texts[id]) })
				}
			})
			memo := map[string]string{}
			again, err := parse(texts[id])
			if err != nil || len(again) != len(stmts) {
				continue
			}
			var twinTree ch.Expr
			for i := range stmts {
				if stmts[i] == s {
					twinTree = again[i]
				}
			}
			compare("reading shared trees", steps, func(s step) string {
				if _, ok := memo[s.name]; !ok {
					for _, o := range readers {
						if o.name == s.name {
							memo[s.name] = guarded(func() string { return o.do(twinTree, rng) })
						}
					}
					if s.name == "parse" {
						memo[s.name] = parseText(texts[id])
					}
				}
				return memo[s.name]
			})
		}
	}

	// 3. Interleaved steps of several parsers and formatters in one goroutine.
	for k := 0; k < r.N(3000, 30000) && !r.Full(); k++ {
		interleave(r, rng, texts)
	}
	r.Event("goroutines run", int64(together))
	var names []string
	for n := range overlaps {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Extra["pairs_of_operations_seen_overlapping"] = len(names)
	r.Extra["overlaps"] = overlaps
	r.Extra["distinct_start_orders"] = len(orders)
	f.finish()
}

// newBlindMutator edits texts without asking the library what they reach.
func newBlindMutator(f *feed) func() string {
	m := f.mutator()
	return func() string { return m.Mutate(m.Pool[f.rng.Intn(len(m.Pool))]) }
}

// observe counts which operations were under way at the same time.
func observe(out [][]step, overlaps map[string]int64, orders map[string]bool) {
	type ev struct {
		g int
		s step
	}
	var all []ev
	for g, ss := range out {
		for _, s := range ss {
			all = append(all, ev{g, s})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].s.from < all[j].s.from })
	var order strings.Builder
	for i, a := range all {
		if i < 40 {
			fmt.Fprint(&order, a.g, a.s.name, ";")
		}
		for j := i + 1; j < len(all) && all[j].s.from < a.s.to; j++ {
			if all[j].g == a.g {
				continue
			}
			x, y := a.s.name, all[j].s.name
			if x > y {
				x, y = y, x
			}
			overlaps[x+" | "+y]++
		}
	}
	orders[order.String()] = true
}

// interleave mixes the steps of several parsers and formatters.
func interleave(r *rep.Run, rng *rand.Rand, texts []string) {
	const n = 3
	var sqls [n]string
	var ps [n]*ch.Parser
	var trees [n][]ch.Expr
	var errs [n]error
	var dumps [n]string
	for i := range sqls {
		sqls[i] = texts[rng.Intn(len(texts))]
	}
	begin(r, sqls[0]+"\n;\n"+sqls[1]+"\n;\n"+sqls[2])
	if guard(func() {
		for _, i := range rng.Perm(n) {
			ps[i] = ch.NewParser(sqls[i])
		}
		for _, i := range rng.Perm(n) {
			trees[i], errs[i] = ps[i].ParseStmts()
			if errs[i] != nil {
				dumps[i] = "error " + errs[i].Error()
				continue
			}
			for _, s := range trees[i] {
				dumps[i] += astx.Dump(s, true)
			}
		}
	}) != nil {
		return
	}
	for i := range sqls {
		if want := parseText(sqls[i]); dumps[i] != want {
			r.ViolateAt("parsers that take turns disturb each other", "parse", sqls[i], "alone "+clip(want, 700)+"\nmixed "+clip(dumps[i], 700))
			return
		}
		now := ""
		if errs[i] != nil {
			now = "error " + errs[i].Error()
		}
		for _, s := range trees[i] {
			now += astx.Dump(s, true)
		}
		if now != dumps[i] {
			r.ViolateAt("a result changes while others parse", "parse", sqls[i], "before "+clip(dumps[i], 700)+"\nafter  "+clip(now, 700))
			return
		}
	}
	// formatters that take turns, node by node
	var fs [n]*ch.Formatter
	var want [n]string
	var outs [n]string
	if guard(func() {
		for i := range fs {
			fs[i] = ch.NewFormatter()
			if i == 1 {
				fs[i].WithBeautify()
			}
			if i == 2 {
				fs[i].WithBeautify().WithIndent("    ")
			}
		}
		for _, i := range rng.Perm(n) {
			for _, s := range trees[i] {
				fs[i].WriteExpr(s)
			}
			outs[i] = fs[i].String()
		}
		for i := range fs {
			g := ch.NewFormatter()
			if i == 1 {
				g.WithBeautify()
			}
			if i == 2 {
				g.WithBeautify().WithIndent("    ")
			}
			for _, s := range trees[i] {
				g.WriteExpr(s)
			}
			want[i] = g.String()
		}
	}) != nil {
		return
	}
	for i := range fs {
		if outs[i] != want[i] || fs[i].String() != want[i] {
			r.ViolateAt("formatters that take turns disturb each other", "format", sqls[i], "alone "+clip(want[i], 700)+"\nmixed "+clip(outs[i], 700)+"\nlater "+clip(fs[i].String(), 700))
			return
		}
	}
	r.Eval(sqls[0]+sqls[1]+sqls[2], true)
	r.Event("groups of parsers and formatters taking turns", 1)
}
