package ref

import "strings"

// The precedence order of the dialect, loosest first, as README and the
// comments of the parser state it. All operators of one level associate to the
// left, except the arrow.
const (
	levelArrow = 1 + iota
	levelTernary
	levelOr
	levelAnd
	levelNot
	levelIs
	levelCompare
	levelBetween
	levelIn
	levelConcat
	levelAdd
	levelMul
	levelSign
	levelSubscript
	levelCast
)

// Infix lists the binary operators by level; Prefix the prefix ones.
var Infix = map[string]int{
	"->": levelArrow, "OR": levelOr, "AND": levelAnd,
	"=": levelCompare, "==": levelCompare, "!=": levelCompare, "<>": levelCompare, "<": levelCompare, ">": levelCompare, "<=": levelCompare, ">=": levelCompare,
	"LIKE": levelBetween, "NOT LIKE": levelBetween, "ILIKE": levelBetween, "NOT ILIKE": levelBetween, "REGEXP": levelBetween,
	"IN": levelIn, "NOT IN": levelIn, "GLOBAL IN": levelIn, "GLOBAL NOT IN": levelIn,
	"||": levelConcat, "+": levelAdd, "-": levelAdd, "*": levelMul, "/": levelMul, "%": levelMul,
}

var Prefix = map[string]int{"NOT": levelNot, "-": levelSign, "+": levelSign}

// A Part is one piece of a flat expression.
type Part struct {
	Kind  byte // a atom, p prefix, b binary, i IS [NOT] NULL, s subscript, c cast, m member, B [NOT] BETWEEN, & its AND, ? and :
	Text  string
	Canon string // atoms, subscripts, casts and members: their own reading
}

// A Node is a group: pieces of text and operands in their order.
type Node struct {
	Canon string
	texts []string // texts[i] stands before kids[i], the last one at the end
	kids  []*Node
}

// Group reads a flat, well-formed expression by precedence.
func Group(parts []Part) *Node {
	g := &grouper{parts: parts}
	n := g.expr(0)
	if g.i != len(parts) {
		panic("left over at " + parts[g.i].Text + " in " + Words(parts))
	}
	return n
}

// Bracketed writes the expression with brackets around the groups that wrap
// picks, and tells how many it wrote.
func (n *Node) Bracketed(wrap func() bool) (string, int) {
	var b strings.Builder
	count := 0
	for i, k := range n.kids {
		t, c := k.Bracketed(wrap)
		count += c
		b.WriteString(n.texts[i])
		if wrap() {
			t = "( " + t + " )"
			count++
		}
		b.WriteString(t)
	}
	b.WriteString(n.texts[len(n.texts)-1])
	return b.String(), count
}

type grouper struct {
	parts []Part
	i     int
}

func (g *grouper) peek() *Part {
	if g.i < len(g.parts) {
		return &g.parts[g.i]
	}
	return &Part{}
}

func level(p *Part) int {
	switch p.Kind {
	case 'b':
		return Infix[p.Text]
	case 'i':
		return levelIs
	case 'B':
		return levelBetween
	case '?':
		return levelTernary
	case 's', 'm':
		return levelSubscript
	case 'c':
		return levelCast
	}
	return 0
}

func (g *grouper) must(kind byte) {
	if g.peek().Kind != kind {
		panic("no " + string(kind) + " in " + Words(g.parts))
	}
	g.i++
}

// expr reads everything that binds tighter than min.
func (g *grouper) expr(min int) *Node {
	p := g.peek()
	g.i++
	var left *Node
	switch p.Kind {
	case 'a':
		left = &Node{Canon: p.Canon, texts: []string{p.Text}}
	case 'p':
		// signs sit between * and the subscripts, NOT between AND and IS
		l := Prefix[p.Text]
		if l == levelSign {
			l = levelMul
		}
		x := g.expr(l)
		left = &Node{Canon: "(" + p.Text + " " + x.Canon + ")", texts: []string{p.Text + " ", ""}, kids: []*Node{x}}
	default:
		panic("no operand at " + p.Text + " in " + Words(g.parts))
	}
	for {
		p := g.peek()
		l := level(p)
		if l <= min {
			return left
		}
		g.i++
		switch p.Kind {
		case 'b':
			if p.Text == "->" {
				l--
			}
			right := g.expr(l)
			left = &Node{Canon: "(" + left.Canon + " " + p.Text + " " + right.Canon + ")",
				texts: []string{"", " " + p.Text + " ", ""}, kids: []*Node{left, right}}
		case 'i':
			left = &Node{Canon: "(" + left.Canon + " " + p.Text + ")", texts: []string{"", " " + p.Text}, kids: []*Node{left}}
		case 's', 'm', 'c':
			left = &Node{Canon: "(" + left.Canon + " " + p.Canon + ")", texts: []string{"", " " + p.Text}, kids: []*Node{left}}
		case 'B':
			lo := g.expr(levelBetween)
			g.must('&')
			hi := g.expr(levelBetween)
			left = &Node{Canon: "(" + left.Canon + " " + p.Text + " " + lo.Canon + " AND " + hi.Canon + ")",
				texts: []string{"", " " + p.Text + " ", " AND ", ""}, kids: []*Node{left, lo, hi}}
		case '?':
			yes := g.expr(0)
			g.must(':')
			no := g.expr(0)
			left = &Node{Canon: "(" + left.Canon + " ? " + yes.Canon + " : " + no.Canon + ")",
				texts: []string{"", " ? ", " : ", ""}, kids: []*Node{left, yes, no}}
		}
	}
}

// Words joins the parts' texts.
func Words(parts []Part) string {
	var out []string
	for _, p := range parts {
		out = append(out, p.Text)
	}
	return strings.Join(out, " ")
}
