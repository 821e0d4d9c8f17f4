package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C07"] = check{
		rule:   "Flat operator sequences (all pairs, each at places drawn from all where an expression may stand, all triples, and random longer ones with prefix operators, IS NULL, BETWEEN, the ternary, subscripts, casts, members and brackets, in nested operands too) are grouped by an independent precedence parser and by the library; the trees must agree, in every layout, and when every group is put in brackets. A case counts when the tree was compared.",
		assume: []string{"The order of harness/ref/prec.go, which restates the comment above the precedence constants.", "The place of an expression in a statement's tree is found with a marker identifier."},
		run:    runC07,
	}
}

// places are statements with a marker where an expression may stand.
var places = []string{
	"SELECT zzpos",
	"SELECT 1, zzpos, 2 FROM t",
	"SELECT zzpos AS x FROM t",
	"SELECT DISTINCT zzpos FROM t",
	"SELECT f(zzpos)",
	"SELECT f(1, zzpos, 2) FROM t",
	"SELECT f(1)(zzpos)",
	"SELECT (zzpos, 1)",
	"SELECT (1, zzpos)",
	"SELECT [zzpos]",
	"SELECT [1, zzpos]",
	"SELECT a[zzpos] FROM t",
	"SELECT {'k': zzpos}",
	"SELECT CASE zzpos WHEN 1 THEN 2 END",
	"SELECT CASE WHEN zzpos THEN 2 ELSE 3 END",
	"SELECT CASE WHEN 1 THEN zzpos ELSE 3 END",
	"SELECT CASE WHEN 1 THEN 2 ELSE zzpos END",
	"SELECT CAST(zzpos AS Int8)",
	"SELECT CAST(zzpos, 'Int8')",
	"SELECT EXTRACT(DAY FROM zzpos)",
	"SELECT INTERVAL (zzpos) DAY",
	"SELECT sum(x) OVER (PARTITION BY zzpos ORDER BY y) FROM t",
	"SELECT sum(x) OVER (ORDER BY zzpos) FROM t",
	"SELECT a FROM t WHERE zzpos",
	"SELECT a FROM t PREWHERE zzpos WHERE b",
	"SELECT a FROM t GROUP BY zzpos",
	"SELECT a FROM t GROUP BY a, zzpos",
	"SELECT a FROM t GROUP BY a HAVING zzpos",
	"SELECT a FROM t ORDER BY zzpos",
	"SELECT a FROM t ORDER BY zzpos DESC, b",
	"SELECT a FROM t ORDER BY a, zzpos ASC",
	"SELECT a FROM t LIMIT 1 BY zzpos",
	"SELECT a FROM t JOIN u ON zzpos",
	"SELECT a FROM t ANY LEFT JOIN u ON zzpos WHERE 1",
	"SELECT a FROM t ARRAY JOIN zzpos AS q",
	"SELECT a FROM t WINDOW w AS (PARTITION BY zzpos)",
	"WITH zzpos AS x SELECT x",
	"WITH c AS (SELECT zzpos) SELECT 1 FROM c",
	"SELECT a FROM (SELECT b FROM t WHERE zzpos)",
	"SELECT a FROM t WHERE x IN (SELECT zzpos FROM u)",
	"SELECT a FROM t WHERE x IN (1, zzpos)",
	"SELECT 1 UNION ALL SELECT zzpos",
	"INSERT INTO t SELECT zzpos FROM u",
	"CREATE TABLE t (a Int8 DEFAULT zzpos) ENGINE = Memory",
	"CREATE TABLE t (a Int8 MATERIALIZED zzpos, b Int8) ENGINE = Memory",
	"CREATE TABLE t (a Int8 ALIAS zzpos) ENGINE = Memory",
	"CREATE TABLE t (a Int8, CONSTRAINT c CHECK zzpos) ENGINE = Memory",
	"CREATE TABLE t (a Int8, INDEX i zzpos TYPE minmax GRANULARITY 1) ENGINE = Memory",
	"CREATE TABLE t (a Int8, PROJECTION p (SELECT zzpos GROUP BY a)) ENGINE = Memory",
	"CREATE TABLE t (a Int8) ENGINE = MergeTree ORDER BY zzpos",
	"CREATE TABLE t (a Int8) ENGINE = MergeTree PARTITION BY zzpos ORDER BY a",
	"CREATE TABLE t (a Int8) ENGINE = MergeTree ORDER BY a SAMPLE BY zzpos",
	"CREATE TABLE t (a Int8) ENGINE = MergeTree ORDER BY a PRIMARY KEY zzpos",
	"CREATE TABLE t (a Int8) ENGINE = MergeTree ORDER BY a TTL zzpos",
	"CREATE TABLE t (a Date TTL zzpos) ENGINE = MergeTree ORDER BY a",
	"CREATE VIEW v AS SELECT zzpos",
	"CREATE MATERIALIZED VIEW v TO t AS SELECT a FROM u WHERE zzpos",
	"CREATE FUNCTION f AS (x) -> zzpos",
	"ALTER TABLE t DELETE WHERE zzpos",
	"ALTER TABLE t UPDATE a = 1 WHERE zzpos",
	"ALTER TABLE t ADD COLUMN a Int8 DEFAULT zzpos",
	"ALTER TABLE t MODIFY TTL zzpos",
	"ALTER TABLE t ADD INDEX i zzpos TYPE minmax GRANULARITY 1",
	"DELETE FROM t WHERE zzpos",
	"EXPLAIN SYNTAX SELECT zzpos",
}

// An opening in a statement's tree.
type opening struct {
	before, after string
	path          []int // field numbers and indices from the statement
}

// findPlace locates the marker in the parsed template.
func findPlace(tmpl string) (*opening, error) {
	stmts, err := parse(tmpl)
	if err != nil {
		return nil, err
	}
	if len(stmts) != 1 {
		return nil, fmt.Errorf("%d statements", len(stmts))
	}
	i := strings.Index(tmpl, "zzpos")
	o := &opening{before: tmpl[:i], after: tmpl[i+5:]}
	if !locate(reflect.ValueOf(stmts[0]), nil, &o.path) {
		return nil, fmt.Errorf("marker not in the tree")
	}
	return o, nil
}

var exprType = reflect.TypeOf((*ch.Expr)(nil)).Elem()

// locate finds an interface value that holds the marker identifier.
func locate(v reflect.Value, at []int, out *[]int) bool {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return false
		}
		if id, ok := v.Interface().(*ch.Ident); ok && id.Name == "zzpos" {
			*out = append([]int(nil), at...)
			return true
		}
		return locate(v.Elem(), at, out)
	case reflect.Ptr:
		if v.IsNil() {
			return false
		}
		return locate(v.Elem(), at, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && locate(v.Field(i), append(at, i), out) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if locate(v.Index(i), append(at, i), out) {
				return true
			}
		}
	}
	return false
}

// at follows a path.
func at(v reflect.Value, path []int) (e ch.Expr, ok bool) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil, false
		}
		if len(path) == 0 && v.Type().Implements(exprType) {
			e, ok = v.Interface().(ch.Expr)
			return
		}
		v = v.Elem()
	}
	if len(path) == 0 {
		return nil, false
	}
	switch v.Kind() {
	case reflect.Struct:
		if path[0] < v.NumField() {
			return at(v.Field(path[0]), path[1:])
		}
	case reflect.Slice:
		if path[0] < v.Len() {
			return at(v.Index(path[0]), path[1:])
		}
	}
	return nil, false
}

// canon writes the grouping of an expression; brackets counts the pairs that
// hold one expression.
func canon(e ch.Expr, brackets *int) string {
	if astx.IsNil(e) {
		return "nil"
	}
	list := func(xs []ch.Expr) string {
		var out []string
		for _, x := range xs {
			out = append(out, canon(x, brackets))
		}
		return strings.Join(out, ", ")
	}
	switch x := e.(type) {
	case *ch.BinaryOperation:
		op := strings.ToUpper(string(x.Operation))
		if x.HasNot {
			op = "NOT " + op
		}
		if x.HasGlobal {
			op = "GLOBAL " + op
		}
		if op == "::" {
			return "(" + canon(x.LeftExpr, brackets) + " ::" + canonType(x.RightExpr) + ")"
		}
		return "(" + canon(x.LeftExpr, brackets) + " " + op + " " + canon(x.RightExpr, brackets) + ")"
	case *ch.UnaryExpr:
		k := strings.ToUpper(string(x.Kind))
		if k == "DATE" {
			return "DATE " + canon(x.Expr, brackets)
		}
		return "(" + k + " " + canon(x.Expr, brackets) + ")"
	case *ch.IsNullExpr:
		return "(" + canon(x.Expr, brackets) + " IS NULL)"
	case *ch.IsNotNullExpr:
		return "(" + canon(x.Expr, brackets) + " IS NOT NULL)"
	case *ch.BetweenClause:
		op := "BETWEEN"
		if x.Not {
			op = "NOT BETWEEN"
		}
		return "(" + canon(x.Expr, brackets) + " " + op + " " + canon(x.Between, brackets) + " AND " + canon(x.And, brackets) + ")"
	case *ch.TernaryOperation:
		return "(" + canon(x.Condition, brackets) + " ? " + canon(x.TrueExpr, brackets) + " : " + canon(x.FalseExpr, brackets) + ")"
	case *ch.ObjectParams:
		return "(" + canon(x.Object, brackets) + " [" + list(x.Params.Items.Items) + "])"
	case *ch.IndexOperation:
		return "(" + canon(x.Object, brackets) + " ." + canon(x.Index, brackets) + ")"
	case *ch.ParamExprList:
		if x.Items != nil && x.ColumnArgList == nil && len(x.Items.Items) == 1 && !x.Items.HasDistinct && !x.Items.HasTrailingComma {
			*brackets++
			return canon(x.Items.Items[0], brackets)
		}
		return "tuple(" + list(x.Items.Items) + ")"
	case *ch.ColumnExpr:
		if x.Alias == nil {
			return canon(x.Expr, brackets)
		}
		return canon(x.Expr, brackets) + " AS " + x.Alias.Name
	case *ch.ArrayParamList:
		return "[" + list(x.Items.Items) + "]"
	case *ch.FunctionExpr:
		if x.Params != nil && x.Params.ColumnArgList == nil && x.Params.Items != nil {
			return x.Name.Name + "(" + list(x.Params.Items.Items) + ")"
		}
	case *ch.CaseExpr:
		s := "CASE"
		if x.Expr != nil {
			s += " " + canon(x.Expr, brackets)
		}
		for _, w := range x.Whens {
			s += " WHEN " + canon(w.When, brackets) + " THEN " + canon(w.Then, brackets)
			if w.Else != nil {
				s += " ELSE " + canon(w.Else, brackets)
			}
		}
		if x.Else != nil {
			s += " ELSE " + canon(x.Else, brackets)
		}
		return s + " END"
	case *ch.CastExpr:
		return "CAST(" + canon(x.Expr, brackets) + " AS " + canonType(x.AsType) + ")"
	case *ch.ExtractExpr:
		return "EXTRACT(" + list(x.Parameters) + ")"
	case *ch.IntervalFrom:
		return x.Interval.Name + " FROM " + canon(x.FromExpr, brackets)
	case *ch.IntervalExpr:
		return "INTERVAL " + canon(x.Expr, brackets) + " " + x.Unit.Name
	case *ch.SubQuery:
		if x.Select != nil && len(x.Select.SelectItems) == 1 && x.Select.From == nil {
			return "SELECT " + canon(x.Select.SelectItems[0].Expr, brackets)
		}
	case *ch.StringLiteral:
		return "'" + x.Literal + "'"
	case *ch.NumberLiteral:
		return x.Literal
	case *ch.Ident:
		return x.Name
	case *ch.NullLiteral:
		return "NULL"
	}
	s, _ := format(e)
	return s
}

func canonType(e ch.Expr) string {
	s, _ := format(e)
	return strings.Join(strings.Fields(s), "")
}

// mayFollowCase tells whether CASE in front of the text starts a CASE: before
// a sign or NOT the library takes it for a name.
func mayFollowCase(text string) bool {
	toks, err := ref.Lex(text)
	return err != nil || len(toks) == 0 || toks[0].Text != "NOT" && toks[0].Text != "-" && toks[0].Text != "+"
}

// exprMaker makes flat expressions.
type exprMaker struct {
	r     *rand.Rand
	n     int
	depth int
	pairs int // brackets around one expression
}

func (m *exprMaker) name() string {
	m.n++
	return "v" + fmt.Sprint(m.n)
}

// sub makes the text and the reading of a nested expression.
func (m *exprMaker) sub() (string, string) {
	m.depth--
	ps := m.flat(m.r.Intn(3), true)
	m.depth++
	return ref.Words(ps), ref.Group(ps).Canon
}

// atom makes an operand.
func (m *exprMaker) atom() ref.Part {
	k := m.r.Intn(24)
	if m.depth <= 0 {
		k = m.r.Intn(8)
	}
	mk := func(text, canon string) ref.Part { return ref.Part{Kind: 'a', Text: text, Canon: canon} }
	switch k {
	default:
		n := m.name()
		return mk(n, n)
	case 4:
		m.n++
		n := fmt.Sprint(m.n)
		return mk(n, n)
	case 5:
		n := "'" + m.name() + "'"
		return mk(n, n)
	case 6:
		a, b := m.name(), m.name()
		return mk(a+"."+b, a+"."+b)
	case 7:
		a := m.name()
		return mk("f( "+a+" )", "f("+a+")")
	case 8, 9, 10:
		t, c := m.sub()
		m.pairs++
		return mk("( "+t+" )", c)
	case 11:
		t, c := m.sub()
		u, d := m.sub()
		return mk("( "+t+" , "+u+" )", "tuple("+c+", "+d+")")
	case 12:
		t, c := m.sub()
		u, d := m.sub()
		return mk("[ "+t+" , "+u+" ]", "["+c+", "+d+"]")
	case 13:
		t, c := m.sub()
		u, d := m.sub()
		return mk("f( "+t+" , "+u+" )", "f("+c+", "+d+")")
	case 14:
		t, c := m.sub()
		u, d := m.sub()
		w, e := m.sub()
		return mk("CASE WHEN "+t+" THEN "+u+" ELSE "+w+" END", "CASE WHEN "+c+" THEN "+d+" ELSE "+e+" END")
	case 15:
		t, c := m.sub()
		if !mayFollowCase(t) {
			t = "( " + t + " )"
			m.pairs++
		}
		u, d := m.sub()
		return mk("CASE "+t+" WHEN "+u+" THEN 1 END", "CASE "+c+" WHEN "+d+" THEN 1 END")
	case 16:
		t, c := m.sub()
		return mk("CAST( "+t+" AS Int8 )", "CAST("+c+" AS Int8)")
	case 17:
		t, c := m.sub()
		return mk("EXTRACT( DAY FROM "+t+" )", "EXTRACT(DAY FROM "+c+")")
	case 18:
		t, c := m.sub()
		m.pairs++
		return mk("INTERVAL ( "+t+" ) DAY", "INTERVAL "+c+" DAY")
	case 19:
		return mk("INTERVAL 3 DAY", "INTERVAL 3 DAY")
	case 20:
		t, c := m.sub()
		return mk("( SELECT "+t+" )", "SELECT "+c)
	case 21:
		return mk("NULL", "NULL")
	case 22:
		return mk("DATE '2020-01-01'", "DATE '2020-01-01'")
	}
}

var infixOps = func() []string {
	var out []string
	for o := range ref.Infix {
		if o != "->" {
			out = append(out, o)
		}
	}
	sort.Strings(out)
	return out
}()

// tightOps bind tighter than BETWEEN.
var tightOps = []string{"||", "+", "-", "*", "/", "%", "IN", "GLOBAL NOT IN"}

// operand makes an operand with what may stick to it.
func (m *exprMaker) operand(noNot bool) []ref.Part {
	var out []ref.Part
	for m.r.Intn(6) == 0 {
		p := []string{"NOT", "NOT", "-", "+"}[m.r.Intn(4)]
		if noNot && p == "NOT" {
			p = "-"
		}
		out = append(out, ref.Part{Kind: 'p', Text: p})
	}
	a := m.atom()
	if len(out) > 0 && out[len(out)-1].Text != "NOT" && a.Text[0] >= '0' && a.Text[0] <= '9' {
		a = ref.Part{Kind: 'a', Text: "w", Canon: "w"} // a sign and a number are one literal
	}
	out = append(out, a)
	for m.r.Intn(7) == 0 {
		switch m.r.Intn(5) {
		case 0, 1:
			if strings.HasPrefix(a.Text, "INTERVAL") || a.Text == "NULL" || strings.HasPrefix(a.Text, "DATE") {
				return out
			}
			n := m.name()
			t := "[ " + n + " ]"
			c := "[" + n + "]"
			if m.depth > 0 && m.r.Intn(2) == 0 {
				x, d := m.sub()
				t, c = "[ "+x+" ]", "["+d+"]"
			}
			out = append(out, ref.Part{Kind: 's', Text: t, Canon: c})
		case 2, 3:
			t := []string{"Int8", "String", "Array(Int8)", "DateTime64(3)"}[m.r.Intn(4)]
			out = append(out, ref.Part{Kind: 'c', Text: ":: " + t, Canon: "::" + t})
		case 4:
			// behind a bare name a member makes a path, behind a number a number
			if last := out[len(out)-1]; last.Kind != 'a' || strings.HasSuffix(last.Text, ")") || strings.HasSuffix(last.Text, "]") {
				n := m.name()
				if m.r.Intn(3) == 0 {
					n = "1"
				}
				out = append(out, ref.Part{Kind: 'm', Text: "." + n, Canon: "." + n})
			}
		}
	}
	return out
}

// flat makes an expression of about n operators.
func (m *exprMaker) flat(n int, lambda bool) []ref.Part {
	var out []ref.Part
	if lambda && m.r.Intn(12) == 0 {
		for i := 0; i <= m.r.Intn(2); i++ {
			a := m.name()
			x := ref.Part{Kind: 'a', Text: a, Canon: a}
			if m.r.Intn(2) == 0 {
				b := m.name()
				x = ref.Part{Kind: 'a', Text: "( " + a + " , " + b + " )", Canon: "tuple(" + a + ", " + b + ")"}
			}
			out = append(out, x, ref.Part{Kind: 'b', Text: "->"})
		}
	}
	out = append(out, m.operand(false)...)
	for i := 0; i < n; i++ {
		switch m.r.Intn(14) {
		case 0:
			out = append(out, ref.Part{Kind: 'i', Text: []string{"IS NULL", "IS NOT NULL"}[m.r.Intn(2)]})
		case 1:
			out = append(out, ref.Part{Kind: 'B', Text: []string{"BETWEEN", "NOT BETWEEN"}[m.r.Intn(2)]})
			out = append(out, m.operand(true)...)
			for m.r.Intn(3) == 0 {
				out = append(out, ref.Part{Kind: 'b', Text: tightOps[m.r.Intn(len(tightOps))]})
				out = append(out, m.operand(true)...)
			}
			out = append(out, ref.Part{Kind: '&', Text: "AND"})
			out = append(out, m.operand(false)...)
		case 2:
			if m.r.Intn(2) == 0 {
				out = append(out, ref.Part{Kind: '?', Text: "?"})
				out = append(out, m.flat(m.r.Intn(2), false)...)
				out = append(out, ref.Part{Kind: ':', Text: ":"})
				out = append(out, m.operand(false)...)
			}
		default:
			out = append(out, ref.Part{Kind: 'b', Text: infixOps[m.r.Intn(len(infixOps))]})
			out = append(out, m.operand(false)...)
		}
	}
	return out
}

func runC07(r *rep.Run) {
	f := newFeed(r)
	rng := f.rng
	var open []*opening
	for _, t := range places {
		begin(r, t)
		o, err := findPlace(t)
		if isPanic(err) {
			continue
		}
		if err != nil {
			r.ViolateAt("an expression place is lost", t, t, err.Error())
			continue
		}
		open = append(open, o)
	}
	r.Extra["expression_places"] = len(open)
	if len(open) == 0 {
		return
	}
	pairs := map[string]bool{}
	// one text at one place
	try := func(o *opening, text, want string, brackets int, kind string) bool {
		if strings.HasSuffix(o.before, "CASE ") && !mayFollowCase(text) {
			text = "( " + text + " )"
			brackets++
		}
		sql := o.before + text + o.after
		begin(r, sql)
		stmts, err := parse(sql)
		r.Event(kind, 1)
		if isPanic(err) {
			return false
		}
		if err != nil || len(stmts) != 1 {
			r.ViolateAt("an expression is rejected: "+kind, o.before+"…"+o.after, sql, errStr(err))
			r.Eval(sql, true)
			return false
		}
		e, ok := at(reflect.ValueOf(stmts[0]), o.path)
		n := 0
		got := ""
		if ok {
			got = canon(e, &n)
		}
		r.Eval(sql, true)
		if got != want {
			r.ViolateAt("wrong grouping: "+kind, o.before+"…"+o.after, sql, "want "+want+"\ngot  "+got)
			return false
		}
		if n != brackets {
			r.ViolateAt("brackets lost or added: "+kind, o.before+"…"+o.after, sql, fmt.Sprintf("%d written, %d in the tree", brackets, n))
			return false
		}
		f.seen(stmts[0])
		return true
	}
	note := func(ps []ref.Part) {
		last := ""
		for _, p := range ps {
			if p.Kind == 'a' {
				continue
			}
			t := p.Text
			if strings.IndexByte("smc", p.Kind) >= 0 {
				t = string(p.Kind)
			}
			pairs[last+" "+t] = true
			last = t
		}
	}
	run := func(o *opening, ps []ref.Part, brackets int, kind string) {
		g := ref.Group(ps)
		want := g.Canon
		text := ref.Words(ps)
		note(ps)
		if !try(o, text, want, brackets, kind) {
			return
		}
		if rng.Intn(3) == 0 {
			toks, err := ref.Lex(text)
			if err == nil {
				try(o, relayout(rng, toks, rng.Intn(2) == 0), want, brackets, kind+", other layout")
			}
		}
		if rng.Intn(2) == 0 {
			rate := []int{1, 2, 3, 6}[rng.Intn(4)]
			t, k := g.Bracketed(func() bool { return rng.Intn(rate) == 0 })
			try(o, t, want, brackets+k, kind+", redundant brackets")
		}
	}
	atom := func(n string) ref.Part { return ref.Part{Kind: 'a', Text: n, Canon: n} }
	// every operator, as a link of a chain: what stands between two operands
	type link struct {
		name string
		ps   func(n string) []ref.Part // ends with an operand
	}
	var links []link
	for _, o := range append([]string{"->"}, infixOps...) {
		o := o
		links = append(links, link{o, func(n string) []ref.Part { return []ref.Part{{Kind: 'b', Text: o}, atom(n)} }})
		for _, p := range []string{"NOT", "-"} {
			p := p
			links = append(links, link{o + " " + p, func(n string) []ref.Part {
				return []ref.Part{{Kind: 'b', Text: o}, {Kind: 'p', Text: p}, atom(n)}
			}})
		}
	}
	for _, b := range []string{"BETWEEN", "NOT BETWEEN"} {
		b := b
		links = append(links, link{b, func(n string) []ref.Part {
			return []ref.Part{{Kind: 'B', Text: b}, atom(n + "l"), {Kind: '&', Text: "AND"}, atom(n)}
		}})
	}
	for _, s := range []string{"IS NULL", "IS NOT NULL"} {
		s := s
		for _, o := range []string{"AND", "=", "+"} {
			o := o
			links = append(links, link{s + " " + o, func(n string) []ref.Part {
				return []ref.Part{{Kind: 'i', Text: s}, {Kind: 'b', Text: o}, atom(n)}
			}})
		}
	}
	links = append(links, link{"?:", func(n string) []ref.Part {
		return []ref.Part{{Kind: '?', Text: "?"}, atom(n + "t"), {Kind: ':', Text: ":"}, atom(n)}
	}})
	for _, s := range []ref.Part{{Kind: 's', Text: "[ i ]", Canon: "[i]"}, {Kind: 'c', Text: ":: Int8", Canon: "::Int8"}} {
		s := s
		for _, o := range []string{"OR", "*"} {
			o := o
			links = append(links, link{s.Text + o, func(n string) []ref.Part {
				return []ref.Part{s, {Kind: 'b', Text: o}, atom(n)}
			}})
		}
	}
	heads := [][]ref.Part{{atom("a")}, {{Kind: 'p', Text: "NOT"}, atom("a")}, {{Kind: 'p', Text: "-"}, atom("a")}}
	r.Extra["operator_links"] = len(links)
	for _, s := range []ref.Part{{Kind: 's', Text: "[ i ]", Canon: "[i]"}, {Kind: 'm', Text: ".x", Canon: ".x"}, {Kind: 'm', Text: ".1", Canon: ".1"}} {
		s := s
		links = append(links, link{":: " + s.Text, func(n string) []ref.Part {
			return []ref.Part{{Kind: 'c', Text: ":: Int8", Canon: "::Int8"}, s, {Kind: 'b', Text: "+"}, atom(n)}
		}})
	}
	ends := []ref.Part{{}, {Kind: 's', Text: "[ j ]", Canon: "[j]"}, {Kind: 'c', Text: ":: String", Canon: "::String"}, {Kind: 'i', Text: "IS NULL"}}
	chain := func(h []ref.Part, ls ...link) []ref.Part {
		ps := append([]ref.Part(nil), h...)
		for i, l := range ls {
			ps = append(ps, l.ps(string(rune('b'+i)))...)
		}
		if e := ends[rng.Intn(8)%len(ends)]; e.Kind != 0 && rng.Intn(2) == 0 {
			ps = append(ps, e)
		}
		return ps
	}
	// a lone link at every place with every head
	for _, o := range open {
		for _, l := range links {
			for _, h := range heads {
				if r.Full() {
					break
				}
				run(o, chain(h, l), 0, "one operator")
			}
		}
	}
	// all pairs, each at one or all places
	for _, a := range links {
		for _, b := range links {
			if r.Thorough() {
				for _, o := range open {
					if !r.Full() {
						run(o, chain(heads[rng.Intn(3)], a, b), 0, "two operators")
					}
				}
				continue
			}
			for k := 0; k < 3 && !r.Full(); k++ {
				run(open[rng.Intn(len(open))], chain(heads[k], a, b), 0, "two operators")
			}
		}
	}
	// triples
	for i := 0; i < r.N(60000, len(links)*len(links)*len(links)) && !r.Full(); i++ {
		var a, b, c link
		if r.Thorough() {
			a, b, c = links[i%len(links)], links[i/len(links)%len(links)], links[i/len(links)/len(links)]
		} else {
			a, b, c = links[rng.Intn(len(links))], links[rng.Intn(len(links))], links[rng.Intn(len(links))]
		}
		run(open[rng.Intn(len(open))], chain(heads[rng.Intn(3)], a, b, c), 0, "three operators")
	}
	// random nests
	m := &exprMaker{r: rng}
	for i := 0; i < r.N(60000, 1500000) && !r.Full(); i++ {
		m.n = 0
		m.depth = rng.Intn(4)
		m.pairs = 0
		n := []int{1, 2, 3, 4, 6, 10}[rng.Intn(6)]
		if rng.Intn(40) == 0 { // a long chain of plain operands
			m.depth, n = 0, []int{17, 33, 66}[rng.Intn(3)]
		}
		ps := m.flat(n, true)
		run(open[rng.Intn(len(open))], ps, m.pairs, "nested expression")
	}
	r.Extra["distinct_operator_neighbours"] = len(pairs)
	f.finish()
}
