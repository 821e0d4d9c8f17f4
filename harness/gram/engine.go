// Package gram generates statements of the documented dialect from a grammar.
//
// Every statement comes with what must be true of it: the tokens that its
// formatted text has to consist of, the place in the tree where each name and
// literal belongs, the positions at which it may not be cut off, and the spans
// of its clauses.
package gram

import (
	_ "embed"
	"fmt"
	"math/rand"
	"strings"
)

//go:embed grammar.txt
var grammarText string

// TokKind classifies generated tokens.
type TokKind byte

const (
	Kw  TokKind = 'k'
	Op  TokKind = 'o'
	Id  TokKind = 'i'
	Str TokKind = 's'
	Num TokKind = 'n'
)

// Tok is one token of a generated statement.
type Tok struct {
	Kind TokKind
	Src  string // source text; "" for a token only printed
	Out  string // printed text; "" for a token only read
	Keep bool   // keyword printed with the case of the source
	// for names and literals
	Val  string   // the text the tree must hold
	Path []string // Type.Field steps that must lead to it, outermost first
	// Complete says that the text before this token is a statement by itself.
	Complete bool
	Noise    bool // source-only: leaving it out changes nothing
}

// Span is a clause occurrence: tokens [Start,End).
type Span struct {
	Name       string
	Seq        int // clauses of one sequence share it
	Start, End int
	Free       bool // its clauses may come in any order
}

// Stmt is a generated statement.
type Stmt struct {
	Rule  string
	Toks  []Tok // in the order of the formatted text
	Spans []Span
	Order []int // the order of the source, as indexes into Toks
	Perms [][][2]int
}

// ---- grammar representation

type elem interface{}

type (
	eKw struct {
		text string
		keep bool
	}
	eOp  struct{ text string }
	eRef struct{ name string }
	eNat struct{ name string }
	eSeq struct{ kids []elem }
	eAlt struct {
		id   int
		kids []elem
	}
	eOpt struct {
		id  int
		kid elem
	}
	eList struct {
		id  int
		kid elem
		sep string // "" for plain repetition
	}
	eCtx struct {
		path string
		kid  elem
	}
	eClause struct {
		name string
		kid  elem
	}
	eSrc  struct{ kid elem }    // read, not printed
	eOut  struct{ kid elem }    // printed, not read
	ePerm struct{ kids []elem } // read in any order, printed in this one
	eRev  struct{ kids []elem } // read in the reverse order, printed in this one
	eAny  struct{ kid elem }    // cutting before or inside it proves nothing
)

// Grammar is the parsed grammar.
type Grammar struct {
	rules    map[string]elem
	order    []string
	nChoices int
	null     map[string]int // 0 unknown 1 computing 2 no 3 yes
}

// Load parses the embedded grammar.
func Load() *Grammar {
	g := &Grammar{rules: map[string]elem{}, null: map[string]int{}}
	p := &gparser{toks: glex(grammarText), g: g}
	for p.i < len(p.toks) {
		name := p.next()
		if p.next() != "::=" {
			panic("grammar: ::= expected after " + name)
		}
		e := p.alt()
		if t := p.next(); t != ";" {
			panic("grammar: ; expected in " + name + ", got " + t)
		}
		if _, dup := g.rules[name]; dup {
			panic("grammar: rule twice: " + name)
		}
		g.rules[name] = e
		g.order = append(g.order, name)
	}
	for n, e := range g.rules {
		g.check(n, e)
	}
	return g
}

func (g *Grammar) check(rule string, e elem) {
	switch x := e.(type) {
	case eRef:
		if g.rules[x.name] == nil {
			panic("grammar: unknown rule " + x.name + " in " + rule)
		}
	case eNat:
		if natives[x.name] == nil {
			panic("grammar: unknown native $" + x.name + " in " + rule)
		}
	case eSeq:
		for _, k := range x.kids {
			g.check(rule, k)
		}
	case ePerm:
		for _, k := range x.kids {
			g.check(rule, k)
		}
	case eRev:
		for _, k := range x.kids {
			g.check(rule, k)
		}
	case eAlt:
		for _, k := range x.kids {
			g.check(rule, k)
		}
	case eOpt:
		g.check(rule, x.kid)
	case eList:
		g.check(rule, x.kid)
	case eCtx:
		g.check(rule, x.kid)
	case eClause:
		g.check(rule, x.kid)
	case eSrc:
		g.check(rule, x.kid)
	case eOut:
		g.check(rule, x.kid)
	case eAny:
		g.check(rule, x.kid)
	}
}

// Statements lists the rules that are whole statements (stmt_*).
func (g *Grammar) Statements() []string {
	var out []string
	for _, n := range g.order {
		if strings.HasPrefix(n, "stmt_") {
			out = append(out, n)
		}
	}
	return out
}

// Choices is the number of branch points' branches in the grammar.
func (g *Grammar) Choices() int { return g.nChoices }

func (g *Grammar) nullable(e elem) bool {
	switch x := e.(type) {
	case eKw, eOp, eNat:
		return false
	case eRef:
		switch g.null[x.name] {
		case 1:
			return false
		case 2:
			return false
		case 3:
			return true
		}
		g.null[x.name] = 1
		v := g.nullable(g.rules[x.name])
		g.null[x.name] = 2
		if v {
			g.null[x.name] = 3
		}
		return v
	case eSeq:
		for _, k := range x.kids {
			if !g.nullable(k) {
				return false
			}
		}
		return true
	case ePerm:
		return g.nullable(eSeq{x.kids})
	case eRev:
		return g.nullable(eSeq{x.kids})
	case eAlt:
		for _, k := range x.kids {
			if g.nullable(k) {
				return true
			}
		}
		return false
	case eOpt:
		return true
	case eList:
		return g.nullable(x.kid)
	case eCtx:
		return g.nullable(x.kid)
	case eClause:
		return g.nullable(x.kid)
	case eSrc:
		return g.nullable(x.kid)
	case eOut:
		return true
	case eAny:
		return true
	}
	return false
}

func glex(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '#': // comment
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			out = append(out, s[i:i+j+2])
			i += j + 2
		case strings.HasPrefix(s[i:], "::="):
			out = append(out, "::=")
			i += 3
		case isW(c) || c == '$' || c == '=' && i+1 < len(s) && isW(s[i+1]):
			j := i + 1
			for j < len(s) && (isW(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case (c == '@' || c == '%') && i+1 < len(s):
			j := i + 1
			for j < len(s) && (isW(s[j]) || s[j] == '.') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func isW(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

type gparser struct {
	toks []string
	i    int
	g    *Grammar
}

func (p *gparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *gparser) next() string { t := p.peek(); p.i++; return t }

func (p *gparser) alt() elem {
	first := p.seq()
	if p.peek() != "|" {
		return first
	}
	a := eAlt{kids: []elem{first}}
	for p.peek() == "|" {
		p.next()
		a.kids = append(a.kids, p.seq())
	}
	a.id = p.g.nChoices
	p.g.nChoices += len(a.kids)
	return a
}

func (p *gparser) seq() elem {
	var s eSeq
	for {
		switch t := p.peek(); t {
		case "", "|", ")", "]", "}", ";", ":":
			if len(s.kids) == 1 {
				return s.kids[0]
			}
			return s
		}
		s.kids = append(s.kids, p.prim())
	}
}

func (p *gparser) prim() elem {
	t := p.next()
	switch {
	case t == "(":
		e := p.alt()
		p.want(")")
		return e
	case t == "[":
		e := p.alt()
		p.want("]")
		o := eOpt{id: p.g.nChoices, kid: e}
		p.g.nChoices += 2
		return o
	case t == "{":
		e := p.alt()
		l := eList{id: p.g.nChoices, kid: e, sep: ","}
		if p.peek() == ":" {
			p.next()
			l.sep = strings.Trim(p.next(), `"`)
		}
		p.want("}")
		p.g.nChoices += 2
		return l
	case t == "&" || t == "~":
		p.want("(")
		var kids []elem
		for p.peek() != ")" {
			kids = append(kids, p.prim())
		}
		p.want(")")
		if t == "~" {
			return eRev{kids}
		}
		return ePerm{kids}
	case t[0] == '@':
		p.want("(")
		e := p.alt()
		p.want(")")
		return eCtx{t[1:], e}
	case t[0] == '%':
		p.want("(")
		e := p.alt()
		p.want(")")
		return eClause{t[1:], e}
	case t == "-":
		return eSrc{p.prim()}
	case t == "+":
		return eOut{p.prim()}
	case t == "?":
		return eAny{p.prim()}
	case t[0] == '"':
		return eOp{t[1 : len(t)-1]}
	case t[0] == '$':
		return eNat{t[1:]}
	case t[0] == '=':
		return eKw{t[1:], t != "=dictGet"}
	case t[0] >= 'a' && t[0] <= 'z':
		return eRef{t}
	case t[0] >= 'A' && t[0] <= 'Z':
		return eKw{t, false}
	}
	panic("grammar: unexpected " + t + fmt.Sprintf(" near %v", p.toks[max(0, p.i-8):p.i]))
}

func (p *gparser) want(s string) {
	if t := p.next(); t != s {
		panic("grammar: want " + s + ", got " + t + fmt.Sprintf(" near %v", p.toks[max(0, p.i-12):min(p.i+3, len(p.toks))]))
	}
}

// ---- generation

// Gen generates statements.
type Gen struct {
	G     *Grammar
	R     *rand.Rand
	Count []int64 // how often each branch was taken
	// per statement
	toks  []Tok
	path  []string
	spans []Span
	perms [][][2]int
	revs  [][][2]int
	// AnyOrder puts clauses of free order in a random one, half of the time
	AnyOrder bool
	seqs     int
	uniq     int
	depth    int
	optP     float64
	wide     int // the next list may get so many items
	srcOff   int // >0: inside a printed-only element
	outOff   int // >0: inside a read-only element
	anyOn    int
	// Weird is the chance that a name or literal has unusual content.
	Weird float64
	// MaxDepth bounds recursion.
	MaxDepth int
	budget   int
}

// NewGen makes a generator.
func NewGen(g *Grammar, r *rand.Rand) *Gen {
	return &Gen{G: g, R: r, Count: make([]int64, g.nChoices), Weird: 0.1, MaxDepth: 4}
}

// Covered is the number of grammar branches taken so far.
func (g *Gen) Covered() int {
	n := 0
	for _, c := range g.Count {
		if c > 0 {
			n++
		}
	}
	return n
}

// Make generates one statement from a rule.
func (g *Gen) Make(rule string) *Stmt {
	g.toks, g.path, g.spans, g.perms, g.revs = nil, nil, nil, nil, nil
	g.seqs, g.uniq, g.depth = 0, 0, 0
	g.srcOff, g.outOff, g.anyOn = 0, 0, 0
	g.budget = 40 + g.R.Intn(120)
	g.optP = []float64{0.08, 0.25, 0.4, 0.6, 0.85}[g.R.Intn(5)]
	g.wide = 0
	if g.R.Intn(14) == 0 {
		g.wide = []int{4, 5, 6, 8, 9, 11, 16, 17, 24, 33, 50, 70, 130}[g.R.Intn(13)]
		g.budget += 3 * g.wide
	}
	g.gen(eRef{rule}, true, false, 0)
	st := &Stmt{Rule: rule, Toks: g.toks, Spans: g.spans, Perms: g.perms}
	st.Order = make([]int, len(g.toks))
	for i := range st.Order {
		st.Order[i] = i
	}
	for _, p := range g.revs { // inner groups come first
		k := make([]int, len(p))
		for i := range k {
			k[i] = len(p) - 1 - i
		}
		st.arrange(p, k)
	}
	if g.AnyOrder && g.R.Intn(2) == 0 {
		st.Shuffle(g.R)
	}
	return st
}

// arrange puts the parts of a group, together in the source, in the order k.
func (s *Stmt) arrange(p [][2]int, order []int) {
	at := make([]int, len(s.Toks)) // token -> place in the source
	for i, k := range s.Order {
		at[k] = i
	}
	first := len(s.Order)
	var out []int
	for _, k := range order {
		lo := len(s.Order)
		for j := p[k][0]; j < p[k][1]; j++ {
			lo = min(lo, at[j])
		}
		first = min(first, lo)
		out = append(out, s.Order[lo:lo+p[k][1]-p[k][0]]...)
	}
	copy(s.Order[first:], out)
}

// Shuffle puts clauses that may come in any order into a random order of the
// source. The formatted text keeps the canonical one.
func (s *Stmt) Shuffle(r *rand.Rand) bool {
	changed := false
	for _, p := range s.Perms { // inner groups come first
		if len(p) > 1 {
			s.arrange(p, r.Perm(len(p)))
			changed = true
		}
	}
	return changed
}

func (g *Gen) emit(t Tok, complete bool) {
	if g.srcOff > 0 {
		t.Src = ""
	}
	if g.outOff > 0 {
		t.Out = ""
		t.Noise = true
	}
	t.Complete = complete || g.anyOn > 0
	if t.Val != "" || t.Kind == Id || t.Kind == Str || t.Kind == Num {
		t.Path = append([]string{}, g.path...)
	}
	g.toks = append(g.toks, t)
}

// pick chooses a branch, leaning towards the ones taken least.
func (g *Gen) pick(id, n int) int {
	k := g.R.Intn(n)
	if g.R.Intn(3) == 0 {
		best := k
		for i := 0; i < n; i++ {
			if g.Count[id+i] < g.Count[id+best] {
				best = i
			}
		}
		k = best
	}
	g.Count[id+k]++
	return k
}

func (g *Gen) small() bool { return g.depth >= g.MaxDepth || len(g.toks) > g.budget }

// gen expands e. after: everything behind e may be left out. before: the text
// up to e is complete as it stands.
func (g *Gen) gen(e elem, after, before bool, seq int) {
	switch x := e.(type) {
	case eKw:
		out := x.text
		g.emit(Tok{Kind: Kw, Src: x.text, Out: out, Keep: x.keep}, before)
	case eOp:
		g.emit(Tok{Kind: Op, Src: x.text, Out: x.text}, before)
	case eNat:
		natives[x.name](g, after, before)
	case eRef:
		g.depth++
		g.gen(g.G.rules[x.name], after, before, seq)
		g.depth--
	case eSeq:
		g.seqs++
		id := g.seqs
		rest := make([]bool, len(x.kids)+1)
		rest[len(x.kids)] = after
		for i := len(x.kids) - 1; i >= 0; i-- {
			rest[i] = rest[i+1] && g.G.nullable(x.kids[i])
		}
		for i, k := range x.kids {
			b := rest[i]
			if i == 0 {
				b = before
			}
			g.gen(k, rest[i+1], b, id)
		}
	case ePerm:
		g.seqs++
		id := g.seqs
		st := len(g.spans)
		var rs [][2]int
		for i, k := range x.kids {
			t0 := len(g.toks)
			b := after
			if i == 0 {
				b = before
			}
			nullRest := after
			for _, k2 := range x.kids[i+1:] {
				nullRest = nullRest && g.G.nullable(k2)
			}
			g.gen(k, nullRest, b, id)
			if len(g.toks) > t0 {
				rs = append(rs, [2]int{t0, len(g.toks)})
			}
		}
		for i := st; i < len(g.spans); i++ {
			if g.spans[i].Seq == id {
				g.spans[i].Free = true
			}
		}
		g.perms = append(g.perms, rs)
	case eRev:
		var rs [][2]int
		for i, k := range x.kids {
			t0 := len(g.toks)
			nullRest := after
			for _, k2 := range x.kids[i+1:] {
				nullRest = nullRest && g.G.nullable(k2)
			}
			g.gen(k, nullRest, before && i == 0, 0)
			if len(g.toks) > t0 {
				rs = append(rs, [2]int{t0, len(g.toks)})
			}
		}
		g.revs = append(g.revs, rs)
	case eAlt:
		k := g.pick(x.id, len(x.kids))
		if g.small() && k != 0 && g.R.Intn(8) != 0 {
			k = 0
		}
		g.gen(x.kids[k], after, before, seq)
	case eOpt:
		p := g.optP
		if g.small() {
			p *= 0.2
		}
		if g.R.Float64() < p {
			g.Count[x.id]++
			g.gen(x.kid, after, before, seq)
		} else {
			g.Count[x.id+1]++
		}
	case eList:
		n := 1
		if !g.small() {
			n += []int{0, 0, 0, 1, 1, 2}[g.R.Intn(6)]
		}
		if g.wide > 0 && g.R.Intn(3) == 0 { // one long list
			n, g.wide = g.wide, 0
		}
		if n == 1 {
			g.Count[x.id]++
		} else {
			g.Count[x.id+1]++
		}
		for i := 0; i < n; i++ {
			if i > 0 && x.sep != "" {
				g.emit(Tok{Kind: Op, Src: x.sep, Out: x.sep}, after)
			}
			b := before
			if i > 0 {
				b = x.sep == "" && after
			}
			g.gen(x.kid, after, b, seq)
		}
	case eCtx:
		g.path = append(g.path, x.path)
		g.gen(x.kid, after, before, seq)
		g.path = g.path[:len(g.path)-1]
	case eClause:
		st := len(g.toks)
		g.gen(x.kid, after, before, seq)
		if len(g.toks) > st {
			g.spans = append(g.spans, Span{Name: x.name, Seq: seq, Start: st, End: len(g.toks)})
		}
	case eSrc:
		g.outOff++
		g.gen(x.kid, after, before, seq)
		g.outOff--
	case eOut:
		g.srcOff++
		g.gen(x.kid, after, before, seq)
		g.srcOff--
	case eAny:
		g.anyOn++
		g.gen(x.kid, after, before, seq)
		g.anyOn--
	}
}
