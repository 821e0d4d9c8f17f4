package gram

import (
	_ "embed"
	"sort"

	"verif/harness/ref"
)

//go:embed accept.txt
var acceptText string

// Recogniser decides whether a text is a statement of the dialect. It reads the
// rules that statements are generated from, the other way round, with names,
// literals and expressions taken as widely as accept.txt says. It accepts more
// than the dialect, never less.
type Recogniser struct {
	nodes []rnode
	ids   map[string]int // rule -> node
	stmts []int
	names []string
	toks  []ref.Tok
	memo  map[[2]int][]int
	busy  map[[2]int]bool
	// Far is how far any rule got in the last text.
	Far int
}

type rnode struct {
	op   byte // k word, o operator, n native, s seq, a alt, ? opt, l list, p perm, r rule, e empty
	text string
	kids []int
}

// NewRecogniser compiles the grammar, with the rules of accept.txt in place of
// those of the same name.
func NewRecogniser() *Recogniser {
	g := &Grammar{rules: map[string]elem{}, null: map[string]int{}}
	for _, txt := range []string{grammarText, acceptText} {
		p := &gparser{toks: glex(txt), g: g}
		for p.i < len(p.toks) {
			name := p.next()
			p.want("::=")
			e := p.alt()
			p.want(";")
			if g.rules[name] == nil {
				g.order = append(g.order, name)
			}
			g.rules[name] = e
		}
	}
	rc := &Recogniser{ids: map[string]int{}}
	for _, n := range g.order {
		rc.ids[n] = rc.add(rnode{op: 'r'})
	}
	for _, n := range g.order {
		k := rc.compile(g.rules[n])
		rc.nodes[rc.ids[n]].kids = []int{k}
		rc.nodes[rc.ids[n]].text = n
	}
	for _, n := range g.Statements() {
		rc.stmts = append(rc.stmts, rc.ids[n])
		rc.names = append(rc.names, n)
	}
	return rc
}

func (rc *Recogniser) add(n rnode) int {
	rc.nodes = append(rc.nodes, n)
	return len(rc.nodes) - 1
}

func (rc *Recogniser) compile(e elem) int {
	all := func(op byte, es []elem) int {
		n := rnode{op: op}
		for _, k := range es {
			n.kids = append(n.kids, rc.compile(k))
		}
		return rc.add(n)
	}
	switch x := e.(type) {
	case eKw:
		return rc.add(rnode{op: 'k', text: x.text})
	case eOp:
		return rc.add(rnode{op: 'o', text: x.text})
	case eRef:
		id, ok := rc.ids[x.name]
		if !ok {
			panic("accept: no rule " + x.name)
		}
		return id
	case eNat:
		return rc.add(rnode{op: 'n', text: x.name})
	case eSeq:
		return all('s', x.kids)
	case eAlt:
		return all('a', x.kids)
	case ePerm:
		return all('p', x.kids)
	case eRev:
		kids := make([]elem, 0, len(x.kids))
		for i := len(x.kids) - 1; i >= 0; i-- {
			kids = append(kids, x.kids[i])
		}
		return all('s', kids)
	case eOpt:
		return all('?', []elem{x.kid})
	case eList:
		n := rnode{op: 'l', kids: []int{rc.compile(x.kid)}, text: x.sep}
		return rc.add(n)
	case eCtx:
		return rc.compile(x.kid)
	case eClause:
		return rc.compile(x.kid)
	case eSrc:
		return rc.compile(x.kid)
	case eAny:
		return rc.compile(x.kid)
	case eOut:
		return rc.add(rnode{op: 'e'})
	}
	panic("accept: unknown element")
}

// Statement names a statement rule that the tokens follow; "" if there is none.
func (rc *Recogniser) Statement(toks []ref.Tok) string {
	if n := len(toks); n > 3 && toks[n-2].Is("FORMAT") && toks[n-1].Kind <= ref.Quoted {
		// any statement may say in which format its result comes
		if name := rc.statement(toks[:n-2]); name != "" {
			return name
		}
	}
	if name := rc.statement(toks); name != "" {
		return name
	}
	if len(toks) > 1 && toks[0].Is("ATTACH") && !toks[1].Is("OR") {
		// ATTACH brings back whatever can be created
		t := append([]ref.Tok{}, toks...)
		t[0].Text = "CREATE"
		return rc.statement(t)
	}
	return ""
}

func (rc *Recogniser) statement(toks []ref.Tok) string {
	rc.toks = toks
	rc.memo = map[[2]int][]int{}
	rc.busy = map[[2]int]bool{}
	rc.Far = 0
	for i, s := range rc.stmts {
		for _, e := range rc.match(s, 0) {
			if e == len(toks) {
				return rc.names[i]
			}
		}
	}
	return ""
}

func (rc *Recogniser) match(n, i int) []int {
	nd := &rc.nodes[n]
	switch nd.op {
	case 'k', 'o', 'n':
		if e := rc.token(nd, i); e >= 0 {
			if e > rc.Far {
				rc.Far = e
			}
			return []int{e}
		}
		return nil
	case 'e':
		return []int{i}
	case 'r':
		key := [2]int{n, i}
		if v, ok := rc.memo[key]; ok {
			return v
		}
		if rc.busy[key] {
			panic("accept: left recursion in " + nd.text)
		}
		rc.busy[key] = true
		v := rc.match(nd.kids[0], i)
		delete(rc.busy, key)
		rc.memo[key] = v
		return v
	case '?':
		return union([]int{i}, rc.match(nd.kids[0], i))
	case 'a':
		var out []int
		for _, k := range nd.kids {
			out = union(out, rc.match(k, i))
		}
		return out
	case 's':
		cur := []int{i}
		for _, k := range nd.kids {
			var next []int
			for _, p := range cur {
				next = union(next, rc.match(k, p))
			}
			if cur = next; len(cur) == 0 {
				return nil
			}
		}
		return cur
	case 'l':
		out := rc.match(nd.kids[0], i)
		seen := map[int]bool{}
		for work := append([]int{}, out...); len(work) > 0; {
			p := work[0]
			work = work[1:]
			if seen[p] {
				continue
			}
			seen[p] = true
			q := p
			if nd.text != "" {
				if q >= len(rc.toks) || rc.toks[q].Kind != ref.Op || rc.toks[q].Text != nd.text {
					continue
				}
				q++
			}
			more := rc.match(nd.kids[0], q)
			work = append(work, more...)
			out = union(out, more)
		}
		return out
	case 'p':
		// every kid once, in any order; a kid that may be left out may match nothing
		type st struct{ mask, pos int }
		seen := map[st]bool{}
		var out []int
		work := []st{{0, i}}
		for len(work) > 0 {
			s := work[0]
			work = work[1:]
			if seen[s] {
				continue
			}
			seen[s] = true
			if s.mask == 1<<len(nd.kids)-1 {
				out = union(out, []int{s.pos})
				continue
			}
			for k, kid := range nd.kids {
				if s.mask>>k&1 == 0 {
					for _, e := range rc.match(kid, s.pos) {
						work = append(work, st{s.mask | 1<<k, e})
					}
				}
			}
		}
		return out
	}
	panic("accept: node")
}

// token matches one token; -1 if it does not.
func (rc *Recogniser) token(nd *rnode, i int) int {
	if i >= len(rc.toks) {
		return -1
	}
	t := rc.toks[i]
	switch nd.op {
	case 'k':
		if t.Is(nd.text) && t.Kind == ref.Word {
			return i + 1
		}
		return -1
	case 'o':
		if t.Kind == ref.Op && t.Text == nd.text {
			return i + 1
		}
		return -1
	}
	signed := func() int {
		if t.Kind == ref.Op && (t.Text == "-" || t.Text == "+") && i+1 < len(rc.toks) && rc.toks[i+1].Kind == ref.Number {
			return i + 2
		}
		if t.Kind == ref.Number {
			return i + 1
		}
		if t.Is(".") && i+1 < len(rc.toks) && rc.toks[i+1].Kind == ref.Number {
			return i + 2 // .5
		}
		return -1
	}
	switch nd.text {
	case "id", "pid":
		if t.Kind == ref.Quoted || t.Kind == ref.Word && !Reserved[t.Upper()] {
			return i + 1
		}
	case "anyid", "codec1":
		if t.Kind == ref.Quoted || t.Kind == ref.Word {
			return i + 1
		}
	case "str":
		if t.Kind == ref.String {
			return i + 1
		}
	case "int", "num", "negint":
		return signed()
	case "lit":
		if t.Kind == ref.String {
			return i + 1
		}
		return signed()
	case "placeholder":
		if t.Is("?") {
			return i + 1
		}
	default:
		panic("accept: native " + nd.text)
	}
	return -1
}

func union(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := append([]int{}, a...)
	for _, x := range b {
		k := sort.SearchInts(out, x)
		if k == len(out) || out[k] != x {
			out = append(out, 0)
			copy(out[k+1:], out[k:])
			out[k] = x
		}
	}
	return out
}
