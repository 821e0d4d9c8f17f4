package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/rep"
)

// nodeKey identifies a node: its type and its address.
type nodeKey struct {
	t reflect.Type
	p uintptr
}

func keyOf(e ch.Expr) nodeKey {
	v := reflect.ValueOf(e)
	return nodeKey{v.Type(), v.Pointer()}
}

// A tree is what reflection alone finds below a statement.
type tree struct {
	root  ch.Expr
	nodes []*astx.Node
	by    map[nodeKey]*astx.Node
}

func newTree(root ch.Expr) *tree {
	t := &tree{root: root, nodes: astx.Nodes(root), by: map[nodeKey]*astx.Node{}}
	for _, n := range t.nodes {
		t.by[keyOf(n.Expr)] = n
	}
	return t
}

// sub lists n and everything below it.
func (t *tree) sub(n *astx.Node) map[nodeKey]bool {
	out := map[nodeKey]bool{}
	for _, m := range t.nodes {
		for p := m; p != nil; p = p.Parent {
			if p == n {
				out[keyOf(m.Expr)] = true
				break
			}
		}
	}
	return out
}

// shared reports whether one node hangs in two places.
func (t *tree) shared() (string, bool) {
	if len(t.by) == len(t.nodes) {
		return "", false
	}
	seen := map[nodeKey]*astx.Node{}
	for _, n := range t.nodes {
		if o := seen[keyOf(n.Expr)]; o != nil {
			return n.Type() + " under " + where(o) + " and " + where(n), true
		}
		seen[keyOf(n.Expr)] = n
	}
	return "", false
}

// where names the field that holds a node.
func where(n *astx.Node) string {
	if n.Parent == nil {
		return "root"
	}
	return n.Parent.Type() + "." + n.Field
}

// topWhere names the highest missing place: the node itself, as its parent was met.
func describe(e ch.Expr) string {
	s, err := format(e)
	if err != nil {
		s = "?"
	}
	return fmt.Sprintf("%s %q", astx.TypeName(e), clip(s, 60))
}

func init() {
	checks["C12"] = check{
		rule:   "Every statement of the sample queries, of the generated ones and of accepted edited ones is walked; a case counts when its tree was compared with what reflection finds. The same for a random subtree of each.",
		assume: []string{"Reflection over the exported fields of the tree is the list of nodes: every pointer or value whose type has the methods of Expr."},
		run:    runC12,
	}
	checks["C13"] = check{
		rule:   "On each statement: a Walk that leaves out a random set of nodes, a WalkWithBreak stopped at a random place, Find and FindAll for a random node type, and a rewrite of a random leaf; a case counts when the recorded calls were compared with the tree.",
		assume: []string{"As for C12."},
		run:    runC13,
	}
	checks["C14"] = check{
		rule:   "Each statement is visited by a visitor that records every call of every method, and again with an error injected at a random call; a case counts when the recorded trace was compared with the tree.",
		assume: []string{"As for C12."},
		run:    runC14,
	}
}

func runC12(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		stmts := f.accept(c)
		for _, s := range stmts {
			if astx.IsNil(s) {
				r.Violate("a nil statement", c.SQL, "")
				continue
			}
			checkWalk(r, c.SQL, s)
			// and from an inner node
			ns := astx.Nodes(s)
			checkWalk(r, c.SQL, ns[f.rng.Intn(len(ns))].Expr)
		}
		r.Eval(c.SQL, len(stmts) > 0)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 250000), do)
	f.mutants(r.N(120000, 1000000), do)
	f.finish()
}

func checkWalk(r *rep.Run, sql string, root ch.Expr) {
	t := newTree(root)
	if s, bad := t.shared(); bad {
		r.ViolateAt("one node hangs in two places", s, sql, "")
		return
	}
	var order []ch.Expr
	at := map[nodeKey]int{}
	bad := ""
	site := ""
	err := guard(func() {
		ch.Walk(root, func(n ch.Expr) bool {
			if astx.IsNil(n) {
				bad = "called with a nil node"
				return true
			}
			k := keyOf(n)
			if _, dup := at[k]; dup {
				bad, site = "node met twice", astx.TypeName(n)
				if m := t.by[k]; m != nil {
					site = where(m)
				}
			} else {
				at[k] = len(order)
			}
			order = append(order, n)
			return true
		})
	})
	r.Event("walk calls", int64(len(order)))
	if err != nil {
		r.ViolateAt("Walk panics", astx.TypeName(root), sql, err.Error())
		return
	}
	if bad != "" {
		r.ViolateAt(bad, site, sql, "")
		return
	}
	for _, n := range t.nodes {
		k := keyOf(n.Expr)
		i, ok := at[k]
		if !ok {
			r.ViolateAt("node not walked", where(n), sql, describe(n.Expr))
			return
		}
		if n.Parent != nil {
			if j := at[keyOf(n.Parent.Expr)]; j >= i {
				r.ViolateAt("node walked before its parent", where(n), sql, describe(n.Expr))
				return
			}
		}
	}
	if len(order) > len(t.nodes) {
		for _, n := range order {
			if t.by[keyOf(n)] == nil {
				r.ViolateAt("walked something that is not in the tree", astx.TypeName(n), sql, describe(n))
				return
			}
		}
	}
	// depth first: the nodes below one node are walked together
	end := map[nodeKey]int{}
	count := map[nodeKey]int{}
	for i := len(t.nodes) - 1; i >= 0; i-- {
		n := t.nodes[i]
		k := keyOf(n.Expr)
		count[k]++
		if at[k] > end[k] {
			end[k] = at[k]
		}
		if n.Parent != nil {
			pk := keyOf(n.Parent.Expr)
			count[pk] += count[k]
			if end[k] > end[pk] {
				end[pk] = end[k]
			}
		}
	}
	for _, n := range t.nodes {
		k := keyOf(n.Expr)
		if end[k]-at[k]+1 != count[k] {
			r.ViolateAt("subtree not walked in one go", where(n), sql, describe(n.Expr))
			return
		}
	}
	// items of one list in their order
	last := map[string]int{}
	for _, n := range t.nodes {
		if n.Parent == nil {
			continue
		}
		key := fmt.Sprint(keyOf(n.Parent.Expr), n.Field)
		i := at[keyOf(n.Expr)]
		if j, ok := last[key]; ok && j > i {
			r.ViolateAt("list items walked out of order", where(n), sql, describe(n.Expr))
			return
		}
		last[key] = i
	}
	// the helpers see the same nodes in the same order
	var all []ch.Expr
	var broke []ch.Expr
	var res bool
	err = guard(func() {
		all = ch.FindAll(root, func(ch.Expr) bool { return true })
		res = ch.WalkWithBreak(root, func(n ch.Expr) bool { broke = append(broke, n); return true })
	})
	if err != nil {
		r.ViolateAt("FindAll or WalkWithBreak panics", astx.TypeName(root), sql, err.Error())
		return
	}
	if !sameNodes(all, order) {
		r.Violate("FindAll sees other nodes than Walk", sql, fmt.Sprintf("%d vs %d", len(all), len(order)))
	}
	if !sameNodes(broke, order) || !res {
		r.Violate("WalkWithBreak sees other nodes than Walk", sql, fmt.Sprintf("%d vs %d, returned %v", len(broke), len(order), res))
	}
}

func sameNodes(a, b []ch.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if keyOf(a[i]) != keyOf(b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C13

func runC13(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		stmts := f.accept(c)
		for _, s := range stmts {
			if !astx.IsNil(s) {
				checkControl(r, f, c.SQL, s)
			}
		}
		r.Eval(c.SQL, len(stmts) > 0)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 250000), do)
	f.mutants(r.N(90000, 800000), do)
	f.finish()
}

func checkControl(r *rep.Run, f *feed, sql string, root ch.Expr) {
	var order []ch.Expr
	if err := guard(func() {
		ch.Walk(root, func(n ch.Expr) bool { order = append(order, n); return true })
	}); err != nil {
		r.ViolateAt("Walk panics", astx.TypeName(root), sql, err.Error())
		return
	}
	t := newTree(root)
	for round := 0; round < 2; round++ {
		// prune at one node or at several
		cut := map[nodeKey]bool{}
		gone := map[nodeKey]bool{}
		for k := 0; k < 1+round*3; k++ {
			n := t.nodes[f.rng.Intn(len(t.nodes))]
			cut[keyOf(n.Expr)] = true
		}
		for _, n := range t.nodes {
			for p := n.Parent; p != nil; p = p.Parent {
				if cut[keyOf(p.Expr)] {
					gone[keyOf(n.Expr)] = true
					break
				}
			}
		}
		var want, got []ch.Expr
		for _, n := range order {
			if !gone[keyOf(n)] {
				want = append(want, n)
			}
		}
		err := guard(func() {
			ch.Walk(root, func(n ch.Expr) bool { got = append(got, n); return !cut[keyOf(n)] })
		})
		r.Event("pruned walks", 1)
		if err != nil || !sameNodes(got, want) {
			site := ""
			for _, n := range t.nodes {
				if cut[keyOf(n.Expr)] {
					site = n.Type()
				}
			}
			r.ViolateAt("pruned walk leaves out something else than the subtree", site, sql, fmt.Sprintf("met %d nodes, expected %d %v", len(got), len(want), errStr(err)))
			return
		}
	}
	// stop at the k-th node
	k := f.rng.Intn(len(order))
	var got []ch.Expr
	res := true
	err := guard(func() {
		res = ch.WalkWithBreak(root, func(n ch.Expr) bool { got = append(got, n); return len(got) <= k })
	})
	r.Event("stopped walks", 1)
	if err != nil || res || !sameNodes(got, order[:k+1]) {
		r.ViolateAt("WalkWithBreak does not stop at once", astx.TypeName(order[k]), sql, fmt.Sprintf("stop at %d, called %d times, returned %v %v", k, len(got), res, errStr(err)))
		return
	}
	// search by type: one type at random, and every type that occurs below itself
	types := map[reflect.Type]bool{reflect.TypeOf(order[f.rng.Intn(len(order))]): true}
	for _, n := range t.nodes {
		typ := reflect.TypeOf(n.Expr)
		for p := n.Parent; p != nil && !types[typ]; p = p.Parent {
			if reflect.TypeOf(p.Expr) == typ {
				types[typ] = true
				r.Event("types searched that occur below themselves", 1)
			}
		}
	}
	ok := true
	for typ := range types {
		typ := typ
		ok = ok && search(r, sql, root, order, typ.String(), func(n ch.Expr) bool { return reflect.TypeOf(n) == typ })
	}
	// and by any set of nodes
	for _, one := range []int{2, 5} {
		in := map[nodeKey]bool{}
		for _, n := range order {
			if f.rng.Intn(one) == 0 {
				in[keyOf(n)] = true
			}
		}
		ok = ok && search(r, sql, root, order, "a set of nodes", func(n ch.Expr) bool { return in[keyOf(n)] })
	}
	if !ok {
		return
	}
	if x, ok := ch.Find(root, func(ch.Expr) bool { return false }); ok || x != nil {
		r.Violate("Find finds what does not match", sql, "")
	}
	if xs := ch.FindAll(root, func(ch.Expr) bool { return false }); len(xs) != 0 {
		r.Violate("FindAll finds what does not match", sql, "")
	}
	rewrite(r, f, sql, root)
}

// search runs Find and FindAll with one predicate; order is what Walk meets.
func search(r *rep.Run, sql string, root ch.Expr, order []ch.Expr, name string, pred func(ch.Expr) bool) bool {
	var want []ch.Expr
	for _, n := range order {
		if pred(n) {
			want = append(want, n)
		}
	}
	var asked []ch.Expr
	ask := func(n ch.Expr) bool { asked = append(asked, n); return pred(n) }
	var first ch.Expr
	var ok bool
	var all, askedAll []ch.Expr
	if err := guard(func() {
		first, ok = ch.Find(root, ask)
		asked, askedAll = nil, asked
		all = ch.FindAll(root, ask)
		asked, askedAll = askedAll, asked
	}); err != nil {
		r.ViolateAt("Find or FindAll panics", name, sql, err.Error())
		return false
	}
	r.Event("searches", 2)
	if len(want) == 0 {
		if ok || !astx.IsNil(first) || len(all) != 0 || !sameNodes(asked, order) {
			r.ViolateAt("Find or FindAll finds what does not match", name, sql, fmt.Sprint(ok, len(all)))
			return false
		}
	} else if !ok || keyOf(first) != keyOf(want[0]) || len(asked) == 0 || len(asked) > len(order) || keyOf(asked[len(asked)-1]) != keyOf(want[0]) || !sameNodes(asked, order[:len(asked)]) {
		r.ViolateAt("Find does not return the first match", name, sql, fmt.Sprint(ok, " calls ", len(asked)))
		return false
	}
	if !sameNodes(all, want) || !sameNodes(askedAll, order) {
		r.ViolateAt("FindAll does not return the matches", name, sql, fmt.Sprintf("%d of %d, asked about %d of %d nodes", len(all), len(want), len(askedAll), len(order)))
		return false
	}
	return true
}

// rewrite changes one leaf on the node that Walk hands out: the printed text
// must change in that leaf's token only.
func rewrite(r *rep.Run, f *feed, sql string, root ch.Expr) {
	root = astx.Clone(root)
	before, err := format(root)
	if err != nil {
		return
	}
	var leaves []ch.Expr
	ch.Walk(root, func(n ch.Expr) bool {
		switch x := n.(type) {
		case *ch.Ident:
			if x.Name != "" && (x.Name != "*" || x.QuoteType != ch.Unquoted) {
				leaves = append(leaves, n)
			}
		case *ch.StringLiteral, *ch.NumberLiteral:
			leaves = append(leaves, n)
		}
		return true
	})
	if len(leaves) == 0 {
		return
	}
	n := leaves[f.rng.Intn(len(leaves))]
	mark, old := "zz_rewritten_zz", ""
	switch x := n.(type) {
	case *ch.Ident:
		old, x.Name = x.Name, mark
	case *ch.StringLiteral:
		old, x.Literal = x.Literal, mark
	case *ch.NumberLiteral:
		mark = "987654321987"
		old, x.Literal = x.Literal, mark
	}
	after, err := format(root)
	r.Event("rewritten leaves", 1)
	site := astx.TypeName(n)
	if m := newTree(root).by[keyOf(n)]; m != nil {
		site = where(m) + " " + site
	}
	if err != nil {
		r.ViolateAt("format panics after a rewrite", site, sql, err.Error())
		return
	}
	if c := strings.Count(after, mark); c != 1 {
		r.ViolateAt("rewritten leaf is not printed once", site, sql, fmt.Sprintf("%q printed %d times in %s", mark, c, after))
		return
	}
	if back := strings.Replace(after, mark, old, 1); back != before {
		// spelling apart from the leaf may depend on it only by spacing
		if !sameTokens(back, before) {
			r.ViolateAt("rewriting a leaf changes other text", site, sql, "before "+before+"\nafter  "+after)
		}
	}
	// and beautified output follows the same change
	b, err := beautify(root, "  ")
	if err != nil || strings.Count(b, mark) != 1 {
		r.ViolateAt("rewritten leaf is not beautified once", site, sql, b)
	}
}

// ---------------------------------------------------------------- C14

var errInjected = errors.New("injected by the monitor")

type vcall struct {
	kind byte // e enter, v visit, l leave
	k    nodeKey
}

// recorder is a DefaultASTVisitor that records the hooks as well.
type recorder struct {
	ch.DefaultASTVisitor
	calls  []vcall
	nils   int
	failAt int // number of visits before the error
	visits int
}

func newRecorder(failAt int) *recorder {
	v := &recorder{failAt: failAt}
	v.DefaultASTVisitor.Visit = func(e ch.Expr) error {
		if astx.IsNil(e) {
			v.nils++
			return nil
		}
		v.calls = append(v.calls, vcall{'v', keyOf(e)})
		v.visits++
		if v.visits == v.failAt {
			return errInjected
		}
		return nil
	}
	return v
}

func (v *recorder) Enter(e ch.Expr) {
	if astx.IsNil(e) {
		v.nils++
		return
	}
	v.calls = append(v.calls, vcall{'e', keyOf(e)})
}
func (v *recorder) Leave(e ch.Expr) {
	if astx.IsNil(e) {
		v.nils++
		return
	}
	v.calls = append(v.calls, vcall{'l', keyOf(e)})
}

func runC14(r *rep.Run) {
	f := newFeed(r)
	do := func(c *tcase) {
		stmts := f.accept(c)
		for _, s := range stmts {
			if !astx.IsNil(s) {
				checkVisit(r, f, c.SQL, s)
			}
		}
		r.Eval(c.SQL, len(stmts) > 0)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(2500, 25000), do)
	f.generate(r.N(36000, 250000), do)
	f.mutants(r.N(120000, 1000000), do)
	f.finish()
}

func checkVisit(r *rep.Run, f *feed, sql string, root ch.Expr) {
	v := newRecorder(0)
	var res error
	err := guard(func() { res = root.Accept(v) })
	if err != nil {
		r.ViolateAt("Accept panics", astx.TypeName(root), sql, err.Error())
		return
	}
	r.Event("visitor calls", int64(len(v.calls)))
	if res != nil {
		r.Violate("Accept returns an error of its own", sql, res.Error())
		return
	}
	if v.nils > 0 {
		r.Violate("visitor called with a nil node", sql, "")
		return
	}
	t := newTree(root)
	enter, visit, leave := map[nodeKey]int{}, map[nodeKey]int{}, map[nodeKey]int{}
	name := func(k nodeKey) string {
		if n := t.by[k]; n != nil {
			return where(n)
		}
		return k.t.String()
	}
	var stack []nodeKey
	for i, c := range v.calls {
		m := map[byte]map[nodeKey]int{'e': enter, 'v': visit, 'l': leave}[c.kind]
		if _, dup := m[c.k]; dup {
			r.ViolateAt("node visited twice", name(c.k), sql, string(c.kind))
			return
		}
		m[c.k] = i
		switch c.kind {
		case 'e':
			// the innermost open node must be an ancestor, and the nearest one
			if n := t.by[c.k]; n != nil && n.Parent != nil {
				if len(stack) == 0 || stack[len(stack)-1] != keyOf(n.Parent.Expr) {
					r.ViolateAt("node entered outside its parent", name(c.k), sql, "")
					return
				}
			}
			stack = append(stack, c.k)
		case 'l':
			if len(stack) == 0 || stack[len(stack)-1] != c.k {
				r.ViolateAt("Leave does not match Enter", name(c.k), sql, "")
				return
			}
			stack = stack[:len(stack)-1]
		case 'v':
			if len(stack) == 0 || stack[len(stack)-1] != c.k {
				r.ViolateAt("node visited outside its Enter and Leave", name(c.k), sql, "")
				return
			}
		}
	}
	for _, n := range t.nodes {
		k := keyOf(n.Expr)
		_, e := enter[k]
		_, w := visit[k]
		_, l := leave[k]
		if !e || !w || !l {
			r.ViolateAt("node not visited", where(n), sql, fmt.Sprintf("%s enter %v visit %v leave %v", describe(n.Expr), e, w, l))
			return
		}
	}
	if len(enter) > len(t.nodes) {
		r.Violate("visited something that is not in the tree", sql, "")
		return
	}
	// an error from the k-th visit ends the traversal and comes back
	if v.visits > 0 {
		k := 1 + f.rng.Intn(v.visits)
		e := newRecorder(k)
		var res error
		err := guard(func() { res = root.Accept(e) })
		r.Event("errors injected", 1)
		site := ""
		nv := 0
		for _, c := range v.calls {
			if c.kind == 'v' {
				nv++
				if nv == k {
					site = name(c.k)
				}
			}
		}
		switch {
		case err != nil:
			r.ViolateAt("Accept panics on an error", site, sql, err.Error())
		case !errors.Is(res, errInjected):
			r.ViolateAt("error of a visit function is lost", site, sql, fmt.Sprint("Accept returned ", res))
		case e.visits != k:
			r.ViolateAt("traversal goes on after an error", site, sql, fmt.Sprintf("%d visits after the error", e.visits-k))
		default:
			// up to the error the trace is the same
			for i := 0; i < len(e.calls) && e.calls[i].kind != 'l' && i < len(v.calls); i++ {
				if e.calls[i] != v.calls[i] {
					r.ViolateAt("trace changes before the error", site, sql, "")
					return
				}
			}
		}
	}
}
