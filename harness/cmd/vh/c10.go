package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C10"] = check{
		rule: "Every node of each accepted statement is looked at: its range, its first token, its place in its parent and between its siblings, the text of a leaf, and the word behind a position field. " +
			"The text between start and end of a node is parsed again where such a node may stand and has to give that node. " +
			"The same tokens with other gaps have to give the same positions, counted in tokens; text in front and another statement in front shift them all alike. A case counts when all of this was looked at.",
		assume: []string{
			"Positions that existing golden files fix at another place are excepted by node type and field (table pinned in c10.go, listed in DESIGN.md).",
			"A node that is closed by a bracket, a star or a question mark ends where that token starts or behind it.",
		},
		run: runC10,
	}
}

// A span is what a node says about its place.
type span struct{ pos, end int }

func spanOf(e ch.Expr) (s span, err error) {
	err = guard(func() { s = span{int(e.Pos()), int(e.End())} })
	return
}

type posRun struct {
	r    *rep.Run
	f    *feed
	ctxs map[string]*slot
	told map[string]bool
}

func runC10(r *rep.Run) {
	f := newFeed(r)
	p := &posRun{r: r, f: f, ctxs: map[string]*slot{}, told: map[string]bool{}}
	for _, c := range slots {
		for _, t := range strings.Fields(c.types) {
			s := c
			p.ctxs[t] = &s
		}
		if _, err := parseOne(c.pre + c.filler + c.post); err != nil && c.filler != "" {
			r.Event("places for nodes that do not parse: "+c.types, 1)
		}
	}
	var last string
	do := func(c *tcase) {
		s := f.single(c)
		if s == nil {
			return
		}
		toks, err := ref.Lex(c.SQL)
		if err != nil || len(toks) == 0 {
			return
		}
		p.nodes(c.SQL, s, toks)
		p.parts(c.SQL, s, toks)
		p.shift(c.SQL, s, last)
		spaced := strings.Join(ref.Texts(toks), " ")
		if c.SQL != spaced {
			if s2, err := parseOne(spaced); err == nil {
				if st, err := ref.Lex(spaced); err == nil && len(st) == len(toks) {
					p.nodes(spaced, s2, st)
					p.layout(spaced, s2, st)
				}
			}
		} else {
			p.layout(spaced, s, toks)
		}
		last = c.SQL
		r.Eval(c.SQL, true)
	}
	f.knowns(do)
	f.samples(do)
	f.nested(r.N(700, 10000), do)
	f.generate(r.N(12000, 200000), do)
	f.mutants(r.N(12000, 200000), do)
	f.finish()
	for k, t := range tally {
		fmt.Printf("%s | %d | %.900q\n", k, t.n, t.example)
	}
}

var tally = map[string]*struct {
	n       int
	example string
}{}

func (p *posRun) bad(kind, site, input, detail string) {
	if os.Getenv("VH_TALLY") != "" {
		k := kind + " | " + site
		t := tally[k]
		if t == nil {
			t = &struct {
				n       int
				example string
			}{}
			tally[k] = t
		}
		t.n++
		if x := fmt.Sprintf("%s\n%s", detail, input); t.example == "" || len(x) < len(t.example) {
			t.example = x
		}
		return
	}
	p.r.ViolateAt(kind, site, input, detail)
}

func parseOne(sql string) (ch.Expr, error) {
	s, err := parse(sql)
	if err != nil {
		return nil, err
	}
	if len(s) != 1 || astx.IsNil(s[0]) {
		return nil, fmt.Errorf("%d statements", len(s))
	}
	return s[0], nil
}

// ---------------------------------------------------------------- one tree

func (p *posRun) nodes(sql string, root ch.Expr, toks []ref.Tok) {
	r := p.r
	start := map[int]int{}
	for i, t := range toks {
		start[t.Start] = i
	}
	at := func(pos int) (int, bool) { // the token that starts here, or whose quoted text does
		if i, ok := start[pos]; ok {
			return i, true
		}
		if i, ok := start[pos-1]; ok && (toks[i].Kind == ref.String || toks[i].Kind == ref.Quoted) {
			return i, true
		}
		return 0, false
	}
	last := len(sql)
	nodes := astx.Nodes(root)
	spans := make([]span, len(nodes))
	idx := map[*astx.Node]int{}
	for i, n := range nodes {
		s, err := spanOf(n.Expr)
		if err != nil {
			p.bad("Pos or End panics", n.Type(), sql, err.Error())
			return
		}
		spans[i] = s
		idx[n] = i
	}
	r.Event("nodes looked at", int64(len(nodes)))
	kids := map[int][]int{}
	badEnd := make([]map[int]bool, len(nodes))   // wrong ends that golden files fix, in the node or below it
	badStart := make([]map[int]bool, len(nodes)) // the same for starts
	for i := len(nodes) - 1; i >= 0; i-- {
		n, s := nodes[i], spans[i]
		if badEnd[i] == nil {
			badEnd[i], badStart[i] = map[int]bool{}, map[int]bool{}
		}
		if k := pinnedEnd(n, s); k != "" {
			p.known("a node ends at a wrong place", k, sql, s)
			badEnd[i][s.end] = true
		}
		if k := pinnedStart(n, s); k != "" {
			p.known("a node starts at a wrong place", k, sql, s)
			badStart[i][s.pos] = true
		}
		if n.Parent != nil {
			j := idx[n.Parent]
			kids[j] = append(kids[j], i)
			if badEnd[j] == nil {
				badEnd[j], badStart[j] = map[int]bool{}, map[int]bool{}
			}
			for k := range badEnd[i] {
				badEnd[j][k] = true
			}
			for k := range badStart[i] {
				badStart[j][k] = true
			}
		}
	}
	for i, n := range nodes {
		s := spans[i]
		t := n.Type()
		be, bs := badEnd[i][s.end], badStart[i][s.pos]
		where := func() string { return fmt.Sprintf("%s at %d-%d of %d bytes", t, s.pos, s.end, last) }
		if s.pos < 0 || s.pos > last || s.end < 0 || s.end > last+1 {
			if !be {
				p.bad("a position lies outside the text", t, sql, where())
			}
			continue
		}
		if s.pos > s.end && !be && !bs {
			p.bad("a node ends before it starts", t, sql, where())
			continue
		}
		ti, ok := at(s.pos)
		if !ok && !bs {
			p.bad("a node does not start at a token", t, sql, where())
			continue
		}
		p.fields(sql, n, toks, at)
		if d := p.leaf(sql, n.Expr, s); d != "" && !bs && !be {
			p.bad("a leaf does not span its own text", t, sql, d+", "+where())
		}
		if n.Parent != nil && !bs && !be {
			j := idx[n.Parent]
			ps := spans[j]
			site := n.Parent.Type() + "." + n.Field
			d := fmt.Sprintf("%s in %s at %d-%d", where(), n.Parent.Type(), ps.pos, ps.end)
			if s.pos < ps.pos && !badStart[j][ps.pos] && !pinned["before "+site] {
				p.bad("a node starts before its parent", site, sql, d)
			}
			if s.end > ps.end && !badEnd[j][ps.end] && !pinned["after "+site] && closing(sql, toks, ps) < s.end {
				p.bad("a node ends behind its parent", site, sql, d)
			}
		}
		_ = ti
		// siblings
		ks := kids[i]
		var list []int
		for _, k := range ks {
			if sp := spans[k]; !badStart[k][sp.pos] && !badEnd[k][sp.end] && sp.pos <= sp.end {
				list = append(list, k)
			}
		}
		sort.Slice(list, func(a, b int) bool { return spans[list[a]].pos < spans[list[b]].pos })
		for k := 1; k < len(list); k++ {
			a, b := list[k-1], list[k]
			if spans[a].end > spans[b].pos {
				site := t + "." + nodes[a].Field + "/" + nodes[b].Field
				if !pinned["overlap "+site] {
					p.bad("two parts of a node overlap", site, sql, fmt.Sprintf("%s at %d-%d and %s at %d-%d", nodes[a].Type(), spans[a].pos, spans[a].end, nodes[b].Type(), spans[b].pos, spans[b].end))
				}
			}
		}
		if !be && !bs {
			p.slice(sql, n, s, toks, ti)
		}
	}
}

// closing is the end of the node with the bracket, star or question mark that
// starts where the node says it ends.
func closing(sql string, toks []ref.Tok, s span) int {
	for _, t := range toks {
		if t.Start == s.end {
			switch t.Text {
			case ")", "]", "}", "*", "?":
				return t.End
			}
		}
		if t.End-1 == s.end && (t.Kind == ref.String || t.Kind == ref.Quoted) {
			return t.End
		}
	}
	return s.end
}

// leaf compares a leaf's text with the source.
func (p *posRun) leaf(sql string, e ch.Expr, s span) string {
	var want string
	cut := func() string {
		if s.pos < 0 || s.end > len(sql) || s.pos > s.end {
			return ""
		}
		return sql[s.pos:s.end]
	}
	switch x := e.(type) {
	case *ch.Ident:
		if x.Name == "*" && s.end == s.pos {
			if s.pos < len(sql) && sql[s.pos] == '*' {
				p.r.Event("leaves compared with their text", 1)
				return ""
			}
			return "no star there"
		}
		want = x.Name
	case *ch.NumberLiteral:
		p.r.Event("leaves compared with their text", 1)
		if strings.Join(strings.Fields(cut()), "") != x.Literal {
			return fmt.Sprintf("%q there, literal %q", cut(), x.Literal)
		}
		return ""
	case *ch.StringLiteral:
		want = x.Literal
	case *ch.NullLiteral:
		p.r.Event("leaves compared with their text", 1)
		if !strings.EqualFold(cut(), "NULL") {
			return fmt.Sprintf("%q there", cut())
		}
		return ""
	case *ch.BoolLiteral:
		want = x.Literal
	case *ch.PlaceHolder:
		p.r.Event("leaves compared with their text", 1)
		if s.pos >= len(sql) || sql[s.pos] != '?' {
			return "no question mark there"
		}
		return ""
	default:
		return ""
	}
	p.r.Event("leaves compared with their text", 1)
	if cut() != want {
		return fmt.Sprintf("%q there, the node says %q", cut(), want)
	}
	return ""
}

// fields looks at the position fields that name a word.
func (p *posRun) fields(sql string, n *astx.Node, toks []ref.Tok, at func(int) (int, bool)) {
	v := reflect.ValueOf(n.Expr)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() != posType {
			continue
		}
		name := t.Name() + "." + t.Field(i).Name
		want, ok := posWords[name]
		if !ok {
			continue
		}
		pos := int(v.Field(i).Int())
		if pos == 0 && optionalPos[name] {
			continue
		}
		p.r.Event("position fields compared with their word", 1)
		good := false
		got := "nothing"
		for _, w := range strings.Fields(want) {
			if k, ok := at(pos); ok {
				got = toks[k].Text
				if strings.EqualFold(toks[k].Text, w) {
					good = true
				}
			}
		}
		if !good {
			p.bad("a position field is not at its word", name, sql, fmt.Sprintf("%d, where %q is, not %s", pos, got, want))
		}
	}
}

var posType = reflect.TypeOf(ch.Pos(0))

// ---------------------------------------------------------------- slices

// slice parses the text of a node by itself.
func (p *posRun) slice(sql string, n *astx.Node, s span, toks []ref.Tok, ti int) {
	c := p.place(n, toks[ti])
	if c == nil {
		return
	}
	// find the last token: the one that ends at the node's end, or a bracket, star
	// or question mark that starts there
	hi := -1
	for k := ti; k < len(toks) && hi < 0 && toks[k].Start <= s.end; k++ {
		t := toks[k]
		inner := t.End
		if t.Kind == ref.Quoted || t.Kind == ref.String {
			inner--
		}
		switch {
		case s.end == t.Start && strings.Contains(")]}*?", t.Text):
			hi = k
		case s.end == t.End || s.end == inner:
			hi = k
			if k+1 < len(toks) && toks[k+1].Start == s.end && (toks[k+1].Text == "*" || toks[k+1].Text == "?") {
				if !needsOperand(t.Text) {
					return // two readings; the spaced text has one
				}
				hi = k + 1
			}
		}
	}
	if hi >= 0 && clauseWords[strings.ToUpper(toks[hi].Text)] {
		return // a name that would start a clause at the end of the text
	}
	if hi < 0 {
		if !pinned["end "+n.Type()] {
			p.bad("a node does not end at a token", n.Type(), sql, fmt.Sprintf("%d-%d", s.pos, s.end))
		}
		return
	}
	lo := ti
	// brackets around it that it may leave out
	paren := false
	switch x := n.Expr.(type) {
	case *ch.SubQuery:
		paren = x.HasParen
	case *ch.SelectQuery:
		paren = x.HasParen
	case *ch.UUID:
		if lo > 0 && strings.EqualFold(toks[lo-1].Text, "UUID") {
			lo--
		}
	}
	depth := 0
	for k := lo; k <= hi; k++ {
		switch toks[k].Text {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
			if depth < 0 && lo > 0 && strings.Contains("([{", toks[lo-1].Text) {
				lo--
				depth++
			}
		}
	}
	for ; depth > 0 && hi+1 < len(toks) && strings.Contains(")]}", toks[hi+1].Text); depth-- {
		hi++
	}
	if paren && lo > 0 && toks[lo-1].Text == "(" && hi+1 < len(toks) && toks[hi+1].Text == ")" {
		lo, hi = lo-1, hi+1
	}
	text := sql[toks[lo].Start:toks[hi].End]
	if len(text) > 1 && (text[0] == '-' || text[0] == '+') && text[1] >= '0' && text[1] <= '9' {
		// whether a sign belongs to the number hangs on what stands before
		before, _ := ref.Lex(c.pre)
		if lo > 0 && len(before) > 0 && (toks[lo-1].Kind == ref.Op) != (before[len(before)-1].Kind == ref.Op) {
			p.r.Event("node texts without a place", 1)
			return
		}
	}
	src := c.pre + text + c.post
	got, err := parseOne(src)
	detail := func() string { return fmt.Sprintf("%d-%d is %q", s.pos, s.end, text) }
	site := n.Type()
	if n.Parent != nil {
		site = n.Parent.Type() + "." + n.Field + " " + site
	}
	p.r.Event("node texts parsed again", 1)
	if err != nil {
		p.bad("the text of a node does not parse", site, sql, detail()+": "+strings.ReplaceAll(err.Error(), "\n", " "))
		return
	}
	want := n.Expr
	if c.path != "" {
		base, err := parseOne(c.pre + c.filler + c.post)
		if err != nil {
			p.r.Event("node texts without a place", 1)
			return
		}
		if e := setPath(base, c.path, n.Expr); e != "" {
			p.r.Event("node texts without a place", 1)
			return
		}
		want = base
	}
	if d, _ := astx.Diff(want, got, true); d != "" {
		p.bad("the text of a node gives another node", site, sql, detail()+": "+d)
	}
}

func needsOperand(op string) bool {
	switch op {
	case ".", ",", "+", "-", "*", "/", "%", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "||", "::", "?", ":", "->":
		return true
	}
	return false
}

// place returns a place where the text of the node may stand by itself.
func (p *posRun) place(n *astx.Node, first ref.Tok) *slot {
	if n.Inline || pinned["slice "+n.Type()] {
		return nil
	}
	c := p.ctxs[n.Type()]
	if n.Parent != nil {
		site := n.Parent.Type() + "." + n.Field
		if pinned["slice "+site] {
			return nil
		}
		if sc := p.ctxs[site]; sc != nil {
			c = sc
		}
	}
	if strings.EqualFold(first.Text, "IF") && (n.Type() == "NestedIdentifier" || n.Type() == "TableIdentifier" || n.Type() == "RoleName") {
		return nil // would be IF EXISTS there
	}
	if c != nil && strings.HasPrefix(c.path, "SelectItems") && clauseWords[strings.ToUpper(first.Text)] {
		return nil // a name that would start a clause there
	}
	switch x := n.Expr.(type) {
	case *ch.ColumnDef:
		switch strings.ToUpper(first.Text) {
		case "INDEX", "PROJECTION", "CONSTRAINT":
			return nil
		}
	case *ch.UnaryExpr:
		if _, ok := x.Expr.(*ch.NumberLiteral); ok {
			return nil // the sign is part of the number there
		}
	case *ch.NestedType:
		if len(x.Columns) == 0 { // Tuple() is read as TypeWithParams by CAST
			return nil
		}
	case *ch.Ident:
		if first.Kind == ref.String { // a name in single quotes: only tables have it
			return &slot{pre: "TRUNCATE TABLE ", filler: "t", path: "Name.Table"}
		}
		if x.QuoteType == ch.Unquoted { // its text was compared
			return nil
		}
	case *ch.NestedIdentifier:
		if x.DotIdent != nil && x.DotIdent.Name == "*" || n.Parent != nil && n.Parent.Type() == "SelectItem" {
			return &slot{pre: "SELECT a, ", filler: "zz", path: "SelectItems[1].Expr"}
		}
	case *ch.SelectQuery:
		if x.HasParen {
			return &slot{pre: "SELECT 1 UNION ALL ", filler: "SELECT 1", path: "UnionAll"}
		}
	case *ch.SelectItem:
		switch x.Expr.(type) {
		case *ch.SelectQuery, *ch.SubQuery:
			return nil
		}
	case *ch.BetweenClause:
		if n.Parent != nil && n.Parent.Type() == "WindowFrameClause" {
			return &slot{pre: "SELECT f() OVER (ROWS BETWEEN ", filler: "CURRENT ROW AND CURRENT ROW", post: ")", path: expression + ".OverExpr.Frame.Extend"}
		}
	case *ch.NumberLiteral:
		if strings.HasPrefix(x.Literal, "-") || strings.HasPrefix(x.Literal, "+") {
			return &slot{pre: "CREATE TABLE t (a Enum8('a' = ", filler: "1", post: "))", path: "TableSchema.Columns[0].Type.Values[0].Value"}
		}
	case *ch.SubQuery:
		if !x.HasParen || x.Select != nil && x.Select.HasParen {
			return nil // its query is looked at
		}
	case *ch.ColumnExprList:
		if len(x.Items) == 0 || x.HasTrailingComma || hasQuery(x) {
			return nil
		}
	case *ch.TableProjection:
		if strings.EqualFold(first.Text, "PROJECTION") {
			return &slot{pre: "CREATE TABLE t (", filler: "a Int8", post: ")", path: "TableSchema.Columns[0]"}
		}
	case *ch.FunctionExpr:
		if x.Name != nil && x.Name.QuoteType == ch.Unquoted {
			e, err := parseOne("SELECT a, " + x.Name.Name + "(1)")
			if q, ok := e.(*ch.SelectQuery); err != nil || !ok || len(q.SelectItems) != 2 || strings.EqualFold(x.Name.Name, "DISTINCT") {
				return nil
			}
		}
	case *ch.ParamExprList:
		if f, ok := n.Parent.Expr.(*ch.FunctionExpr); ok && strings.EqualFold(f.Name.Name, "DISTINCT") || hasQuery(x.Items) {
			return nil
		}
	}
	for a := n; a.Parent != nil; a = a.Parent {
		if _, ok := a.Parent.Expr.(*ch.TableArgListExpr); ok {
			switch n.Expr.(type) {
			case *ch.IndexOperation, *ch.BinaryOperation:
				return nil // paths and functions are put together differently there
			}
		}
	}
	// the words between the arguments of TRIM and SUBSTRING stand only there
	switch n.Expr.(type) {
	case *ch.ParamExprList, *ch.ColumnExprList, *ch.ColumnExpr, *ch.UnaryExpr, *ch.BinaryOperation:
		for a := n; a.Parent != nil; a = a.Parent {
			if f, ok := a.Parent.Expr.(*ch.FunctionExpr); ok && (a.Field == "Params") {
				switch strings.TrimSuffix(strings.ToUpper(f.Name.Name), "UTF8") {
				case "TRIM", "SUBSTRING", "SUBSTR", "MID", "POSITION", "OVERLAY":
					return nil
				}
			}
			switch a.Parent.Expr.(type) {
			case *ch.ParamExprList, *ch.ColumnExprList, *ch.ColumnExpr, *ch.UnaryExpr, *ch.BinaryOperation, *ch.FunctionExpr:
				continue
			}
			break
		}
	}
	return c
}

var clauseWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT DISTINCT TOP ORDER GROUP HAVING WHERE PREWHERE FROM LIMIT OFFSET UNION EXCEPT INTERSECT WINDOW SETTINGS FORMAT " +
		"ARRAY JOIN LEFT RIGHT INNER FULL CROSS GLOBAL ANY ALL ASOF SEMI ANTI PASTE WITH AS ON USING SAMPLE FINAL QUALIFY INTERPOLATE APPLY REPLACE") {
		clauseWords[w] = true
	}
}

func hasQuery(l *ch.ColumnExprList) bool {
	if l == nil {
		return false
	}
	for _, i := range l.Items {
		if c, ok := i.(*ch.ColumnExpr); ok {
			i = c.Expr
		}
		switch i.(type) {
		case *ch.SelectQuery, *ch.SubQuery:
			return true
		}
	}
	return false
}

// A slot is a place where nodes of some types may stand.
type slot struct {
	types, pre, filler, post, path string
}

// setPath puts node into the tree.
func setPath(root ch.Expr, path string, node ch.Expr) (fail string) {
	defer func() {
		if v := recover(); v != nil {
			fail = fmt.Sprint(v)
		}
	}()
	v := reflect.ValueOf(root)
	for _, step := range strings.Split(path, ".") {
		idx := -1
		if i := strings.IndexByte(step, '['); i >= 0 {
			fmt.Sscanf(step[i:], "[%d]", &idx)
			step = step[:i]
		}
		for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		v = v.FieldByName(step)
		if idx >= 0 {
			v = v.Index(idx)
		}
	}
	v.Set(reflect.ValueOf(node))
	return ""
}

const expression = "SelectItems[0].Expr"

var slots = []slot{
	{"FunctionExpr WindowFunctionExpr BinaryOperation UnaryExpr CastExpr TernaryOperation BetweenClause IndexOperation IsNullExpr IsNotNullExpr ArrayParamList ParamExprList MapLiteral QueryParam NumberLiteral StringLiteral Ident Path IntervalExpr ExtractExpr ObjectParams PlaceHolder CaseExpr",
		"SELECT a, ", "zz", "", "SelectItems[1].Expr"},
	{"SubQuery", "SELECT a FROM ", "t", "", "From.Expr.Table.Expr"},
	{"NestedIdentifier", "ALTER TABLE t DROP COLUMN ", "a", "", "AlterExprs[0].ColumnName"},
	{"RefreshExpr.Interval", "CREATE MATERIALIZED VIEW v REFRESH EVERY ", "1 DAY", " TO t", "Refresh.Interval"},
	{"RefreshExpr.Offset", "CREATE MATERIALIZED VIEW v REFRESH EVERY 1 DAY OFFSET ", "1 DAY", " TO t", "Refresh.Offset"},
	{"CreateMaterializedView.RandomizeFor", "CREATE MATERIALIZED VIEW v REFRESH EVERY 1 DAY RANDOMIZE FOR ", "1 DAY", " TO t", "RandomizeFor"},
	{"SetStmt.Settings", "SET ", "a = 1", "", "Settings"},
	{"DictionaryEngineClause.Settings", "CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(a(b 1)) ", "SETTINGS(a = 1)", "", "Engine.Settings"},
	{"GrantPrivilegeStmt.On", "GRANT ALL ON ", "a", " TO b", "On"},
	{"TableArgListExpr.Args", "SELECT a FROM f(", "1", ")", "From.Expr.Table.Expr.Args.Args[0]"},
	{"WindowFrameClause.Extend", "SELECT f() OVER (ROWS ", "CURRENT ROW", ")", expression + ".OverExpr.Frame.Extend"},
	{"SelectItem", "SELECT ", "zz", ", b", "SelectItems[0]"},
	{"ColumnExprList", "SELECT f(", "zz", ")", expression + ".Params.Items"},
	{"ColumnArgList", "SELECT f(1)", "(zz)", "", expression + ".Params.ColumnArgList"},
	{"WindowExpr", "SELECT f() OVER ", "(ORDER BY zz)", "", expression + ".OverExpr"},
	{"WindowFrameClause", "SELECT f() OVER (", "ROWS CURRENT ROW", ")", expression + ".OverExpr.Frame"},
	{"ScalarType TypeWithParams ComplexType NestedType EnumType JSONType PropertyType", "SELECT CAST(a AS ", "Int8", ")", expression + ".AsType"},
	{"PrewhereClause", "SELECT a FROM t ", "PREWHERE zz", "", "Prewhere"},
	{"WhereClause", "SELECT a FROM t ", "WHERE zz", "", "Where"},
	{"GroupByClause", "SELECT a FROM t ", "GROUP BY zz", "", "GroupBy"},
	{"HavingClause", "SELECT a FROM t ", "HAVING zz", "", "Having"},
	{"OrderByClause", "SELECT a FROM t ", "ORDER BY zz", "", "OrderBy"},
	{"WindowClause", "SELECT a FROM t ", "WINDOW w AS (ORDER BY a)", "", "Window"},
	{"LimitClause", "SELECT a FROM t ", "LIMIT 1", "", "Limit"},
	{"LimitByClause", "SELECT a FROM t ", "LIMIT 1 BY a", "", "LimitBy"},
	{"SettingsClause", "SELECT a FROM t ", "SETTINGS a = 1", "", "Settings"},
	{"SettingExpr", "SELECT a FROM t SETTINGS ", "a = 1", "", "Settings.Items[0]"},
	{"FormatClause", "SELECT a FROM t ", "FORMAT a", "", "Format"},
	{"FromClause", "SELECT a ", "FROM t", "", "From"},
	{"TopClause", "SELECT ", "TOP 1", " a", "Top"},
	{"JoinExpr JoinTableExpr", "SELECT a FROM ", "t", "", "From.Expr"},
	{"TableExpr", "SELECT a FROM ", "t", "", "From.Expr.Table"},
	{"SampleClause", "SELECT a FROM t ", "SAMPLE 1", "", "From.Expr.SampleRatio"},
	{"TableFunctionExpr AliasExpr", "SELECT a FROM ", "t", "", "From.Expr.Table.Expr"},
	{"TableIdentifier", "TRUNCATE TABLE ", "t", "", "Name"},
	{"ClusterClause", "TRUNCATE TABLE t ", "ON CLUSTER c", "", "OnCluster"},
	{"UUID", "CREATE TABLE t ", "UUID 'a'", "", "UUID"},
	{"TableSchemaClause", "CREATE TABLE t ", "(a Int8)", "", "TableSchema"},
	{"ColumnDef TableIndex ConstraintClause", "CREATE TABLE t (", "a Int8", ")", "TableSchema.Columns[0]"},
	{"CompressionCodec", "CREATE TABLE t (a Int8 ", "CODEC(a)", ")", "TableSchema.Columns[0].Codec"},
	{"EngineExpr", "CREATE TABLE t (a Int8) ", "ENGINE = M", "", "Engine"},
	{"PartitionByClause", "CREATE TABLE t (a Int8) ENGINE = M ", "PARTITION BY a", "", "Engine.PartitionBy"},
	{"PrimaryKeyClause", "CREATE TABLE t (a Int8) ENGINE = M ", "PRIMARY KEY a", "", "Engine.PrimaryKey"},
	{"SampleByClause", "CREATE TABLE t (a Int8) ENGINE = M ", "SAMPLE BY a", "", "Engine.SampleBy"},
	{"TTLClause", "CREATE TABLE t (a Int8) ENGINE = M ", "TTL a", "", "Engine.TTL"},
	{"PartitionClause", "ALTER TABLE t ATTACH ", "PARTITION a", "", "AlterExprs[0].Partition"},
	{"AlterTableAttachPartition AlterTableDetachPartition AlterTableDropPartition AlterTableMaterializeProjection AlterTableMaterializeIndex AlterTableFreezePartition AlterTableAddColumn AlterTableAddIndex AlterTableAddProjection AlterTableDropColumn AlterTableDropIndex AlterTableDropProjection AlterTableRemoveTTL AlterTableClearColumn AlterTableClearIndex AlterTableClearProjection AlterTableRenameColumn AlterTableModifyQuery AlterTableModifyOrderBy AlterTableModifyTTL AlterTableModifyColumn AlterTableModifySetting AlterTableResetSetting AlterTableReplacePartition AlterTableDelete AlterTableUpdate",
		"ALTER TABLE t ", "REMOVE TTL", "", "AlterExprs[0]"},
	{"UpdateAssignment", "ALTER TABLE t UPDATE ", "a = 1", " WHERE a", "AlterExprs[0].Assignments[0]"},
	{"TableProjection", "ALTER TABLE t ADD PROJECTION ", "p (SELECT a)", "", "AlterExprs[0].TableProjection"},
	{"DestinationClause", "CREATE MATERIALIZED VIEW v ", "TO t", "", "Destination"},
	{"RefreshExpr", "CREATE MATERIALIZED VIEW v ", "REFRESH EVERY 1 DAY", " TO t", "Refresh"},
	{"RoleName", "CREATE ROLE ", "a", "", "RoleNames[0]"},
	{"AuthenticationClause", "CREATE USER u ", "NOT IDENTIFIED", "", "Authentication"},
	{"HostClause", "CREATE USER u ", "HOST ANY", "", "Hosts[0]"},
	{"DefaultRoleClause", "CREATE USER u ", "DEFAULT ROLE a", "", "DefaultRole"},
	{"GranteesClause", "CREATE USER u ", "GRANTEES ANY", "", "Grantees"},
	{"DictionarySchemaClause", "CREATE DICTIONARY d ", "(a Int8)", " SOURCE(a(b 1))", "Schema"},
	{"DictionaryAttribute", "CREATE DICTIONARY d (", "a Int8", ") SOURCE(a(b 1))", "Schema.Attributes[0]"},
	{"DictionarySourceClause", "CREATE DICTIONARY d (a Int8) PRIMARY KEY a ", "SOURCE(a(b 1))", "", "Engine.Source"},
	{"DictionaryLifetimeClause", "CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(a(b 1)) ", "LIFETIME(1)", "", "Engine.Lifetime"},
	{"DictionaryLayoutClause", "CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(a(b 1)) ", "LAYOUT(a())", "", "Engine.Layout"},
	{"DictionaryRangeClause", "CREATE DICTIONARY d (a Int8) PRIMARY KEY a SOURCE(a(b 1)) ", "RANGE(MIN a MAX b)", "", "Engine.Range"},
	{"AssignmentValues", "INSERT INTO t VALUES ", "(1)", "", "Values[0]"},
	{"ColumnNamesExpr", "INSERT INTO t ", "(a)", " VALUES (1)", "ColumnNames"},
	{"SelectQuery AlterTable CreateDatabase CreateMaterializedView CreateFunction CreateRole CreateUser AlterRole CreateLiveView CreateDictionary CreateNamedCollection DropDatabase DropStmt DropUserOrRole UseStmt SetStmt OptimizeStmt SystemStmt TruncateTable DeleteClause InsertStmt CheckStmt RenameStmt ExplainStmt GrantPrivilegeStmt ShowStmt DescribeStmt CreateTable CreateView",
		"", "", "", ""},
}

// posWords says which word a position field points at.
var posWords = map[string]string{}

// optionalPos are fields that stay zero when their word is absent.
var optionalPos = map[string]bool{}

func init() {
	words := func(list, ws string) {
		for _, f := range strings.Fields(list) {
			opt := strings.HasSuffix(f, "?")
			f = strings.TrimSuffix(f, "?")
			posWords[f] = ws
			if opt {
				optionalPos[f] = true
			}
		}
	}
	words("AlterRole.AlterPos AlterTable.AlterPos", "ALTER")
	words("AlterTableAddColumn.AddPos AlterTableAddIndex.AddPos AlterTableAddProjection.AddPos", "ADD")
	words("AlterTableAttachPartition.AttachPos", "ATTACH")
	words("AlterTableClearColumn.ClearPos AlterTableClearIndex.ClearPos AlterTableClearProjection.ClearPos", "CLEAR")
	words("AlterTableDelete.DeletePos DeleteClause.DeletePos", "DELETE")
	words("AlterTableDetachPartition.DetachPos", "DETACH")
	words("AlterTableDropColumn.DropPos AlterTableDropIndex.DropPos AlterTableDropPartition.DropPos AlterTableDropProjection.DropPos DropUserOrRole.DropPos SystemDropExpr.DropPos", "DROP")
	words("DropDatabase.DropPos DropStmt.DropPos", "DROP DETACH")
	words("AlterTableFreezePartition.FreezePos", "FREEZE")
	words("AlterTableMaterializeIndex.MaterializedPos AlterTableMaterializeProjection.MaterializedPos", "MATERIALIZE")
	words("AlterTableModifyColumn.ModifyPos AlterTableModifyOrderBy.ModifyPos AlterTableModifyQuery.ModifyPos AlterTableModifySetting.ModifyPos AlterTableModifyTTL.ModifyPos", "MODIFY")
	words("AlterTableRemoveTTL.RemovePos RemovePropertyType.RemovePos", "REMOVE")
	words("AlterTableRenameColumn.RenamePos RenameStmt.RenamePos", "RENAME")
	words("AlterTableReplacePartition.ReplacePos", "REPLACE")
	words("AlterTableResetSetting.ResetPos", "RESET")
	words("AlterTableUpdate.UpdatePos", "UPDATE")
	words("ArrayParamList.LeftBracketPos", "[")
	words("ArrayParamList.RightBracketPos", "]")
	words("AssignmentValues.LeftParenPos ColumnArgList.LeftParenPos ColumnNamesExpr.LeftParenPos DictionaryArgExpr.LParenPos? ParamExprList.LeftParenPos ProjectionSelectStmt.LeftParenPos WindowExpr.LeftParenPos DictionarySchemaClause.SchemaPos", "(")
	words("AssignmentValues.RightParenPos ColumnArgList.RightParenPos ColumnNamesExpr.RightParenPos ComplexType.RightParenPos DictionaryArgExpr.RParenPos? DictionaryLayoutClause.RParenPos DictionaryLifetimeClause.RParenPos DictionaryRangeClause.RParenPos DictionarySchemaClause.RParenPos DictionarySourceClause.RParenPos ExtractExpr.ExtractEnd NestedType.RightParenPos ParamExprList.RightParenPos ProjectionSelectStmt.RightParenPos TableArgListExpr.RightParenPos TypeWithParams.RightParenPos WindowExpr.RightParenPos WindowClause.EndPos", ")")
	words("MapLiteral.LBracePos QueryParam.LBracePos TypedPlaceholder.LeftBracePos", "{")
	words("MapLiteral.RBracePos QueryParam.RBracePos", "}")
	words("AuthenticationClause.AuthPos", "IDENTIFIED NOT")
	words("BetweenClause.AndPos", "AND")
	words("BoolLiteral.LiteralPos", "TRUE FALSE")
	words("CaseExpr.ElsePos? WhenClause.ElsePos?", "ELSE")
	words("CastExpr.AsPos", "AS ,")
	words("CheckStmt.CheckPos", "CHECK")
	words("ClusterClause.OnPos DistinctOn.DistinctOnPos OnClause.OnPos", "ON")
	words("CompressionCodec.CodecPos", "CODEC")
	words("ConstraintClause.ConstraintPos", "CONSTRAINT")
	words("CreateDatabase.CreatePos CreateDictionary.CreatePos CreateFunction.CreatePos CreateLiveView.CreatePos CreateMaterializedView.CreatePos CreateNamedCollection.CreatePos CreateRole.CreatePos CreateUser.CreatePos CreateView.CreatePos", "CREATE ATTACH")
	words("CreateTable.CreatePos", "CREATE ATTACH")
	words("DeduplicateClause.DeduplicatePos", "DEDUPLICATE")
	words("DefaultRoleClause.DefaultPos", "DEFAULT")
	words("DescribeStmt.DescribePos", "DESC DESCRIBE")
	words("DestinationClause.ToPos", "TO")
	words("DictionaryLayoutClause.LayoutPos", "LAYOUT")
	words("DictionaryLifetimeClause.LifetimePos", "LIFETIME")
	words("DictionaryPrimaryKeyClause.PrimaryKeyPos PrimaryKeyClause.PrimaryPos", "PRIMARY")
	words("DictionaryRangeClause.RangePos", "RANGE")
	words("DictionarySourceClause.SourcePos", "SOURCE")
	words("EngineExpr.EnginePos", "ENGINE")
	words("ExplainStmt.ExplainPos", "EXPLAIN")
	words("FormatClause.FormatPos", "FORMAT")
	words("FromClause.FromPos IntervalFrom.FromPos", "FROM")
	words("GrantPrivilegeStmt.GrantPos", "GRANT")
	words("GranteesClause.GranteesPos", "GRANTEES")
	words("GroupByClause.GroupByPos", "GROUP")
	words("HavingClause.HavingPos", "HAVING")
	words("HostClause.HostPos", "HOST")
	words("InsertStmt.InsertPos", "INSERT")
	words("InterpolateClause.InterpolatePos", "INTERPOLATE")
	words("IntervalExpr.IntervalPos?", "INTERVAL")
	words("IsNotNullExpr.IsPos IsNullExpr.IsPos", "IS")
	words("LimitClause.LimitPos", "LIMIT OFFSET")
	words("NotNullLiteral.NotPos", "NOT")
	words("NullLiteral.NullPos", "NULL")
	words("OptimizeStmt.OptimizePos", "OPTIMIZE")
	words("OrderByClause.OrderPos ProjectionOrderByClause.OrderByPos OrderExpr.OrderPos", "ORDER")
	words("PartitionByClause.PartitionPos", "PARTITION (") // ( in a window: golden files
	words("PartitionClause.PartitionPos", "PARTITION")
	words("PrewhereClause.PrewherePos", "PREWHERE")
	words("RefreshExpr.RefreshPos", "REFRESH")
	words("SampleByClause.SamplePos SampleClause.SamplePos", "SAMPLE")
	words("SelectQuery.SelectPos", "SELECT WITH")
	words("SetStmt.SetPos", "SET SETTINGS")
	words("ShowStmt.ShowPos", "SHOW")
	words("SystemCtrlExpr.CtrlPos", "STOP START")
	words("SystemFlushExpr.FlushPos", "FLUSH")
	words("SystemReloadExpr.ReloadPos", "RELOAD")
	words("SystemStmt.SystemPos", "SYSTEM")
	words("SystemSyncExpr.SyncPos", "SYNC")
	words("TTLClause.TTLPos TTLExpr.TTLPos", "TTL")
	words("TTLPolicyRule.RulePos", "TO DELETE RECOMPRESS")
	words("TTLPolicyRuleAction.ActionPos", "DELETE RECOMPRESS")
	words("TableIndex.IndexPos", "INDEX")
	words("TableSchemaClause.SchemaPos", "( AS")
	words("TopClause.TopPos", "TOP")
	words("TruncateTable.TruncatePos", "TRUNCATE")
	words("UseStmt.UsePos", "USE")
	words("UsingClause.UsingPos", "USING")
	words("WhenClause.ThenPos", "THEN")
	words("WhenClause.WhenPos", "WHEN")
	words("WhereClause.WherePos", "WHERE")
	words("WindowClause.WindowPos", "WINDOW")
	words("WindowFrameClause.FramePos", "ROWS RANGE")
	words("WindowFrameCurrentRow.CurrentPos", "CURRENT")
	words("WindowFrameUnbounded.UnboundedPos", "UNBOUNDED")
	words("WindowFunctionExpr.OverPos", "OVER")
	words("WithClause.WithPos WithTimeoutClause.WithTimeoutPos", "WITH")
}

// ---------------------------------------------------------------- what golden files fix

// pinned lists the places where existing golden files fix a position that the
// property would not allow.
var pinned = map[string]bool{}

func pin(what, list string) {
	for _, x := range strings.Fields(list) {
		pinned[what+" "+x] = true
	}
}

func init() {
	// the keyword in front belongs to the list, not to its items: they overlap
	pin("overlap", "OrderByClause.Items/Items TTLClause.Items/Items WindowExpr.PartitionBy/WindowName TableFunctionExpr.Args/Name")
	// clauses of CREATE USER and GRANT that end behind the token that follows them
	pin("overlap", "CreateUser.Authentication/DefaultRole CreateUser.Authentication/Hosts CreateUser.Authentication/Grantees CreateUser.DefaultRole/Grantees CreateUser.Hosts/DefaultRole CreateUser.Hosts/Grantees")
	pin("slice", "AuthenticationClause HostClause DefaultRoleClause GranteesClause")
	// no place of their own
	pin("slice", "SelectItem.Modifiers JoinExpr.Right AlterTableAddIndex.Index PropertyType ShowStmt.Format ShowStmt.Limit NamedParameterExpr.Name")
	pin("layout", "DictionaryPrimaryKeyClause.RParenPos")
}

// pinnedEnd names the known finding for an end that golden files fix at a
// wrong place, or returns "".
func pinnedEnd(n *astx.Node, s span) string {
	is := func(c bool) string {
		if c {
			return n.Type() + ".End"
		}
		return ""
	}
	switch x := n.Expr.(type) {
	case *ch.CaseExpr, *ch.WindowFrameUnbounded, *ch.PrivilegeClause:
		return is(s.end == 0) // no end is kept
	case *ch.CreateTable:
		return is(s.end == 0 || x.Comment != nil)
	case *ch.CreateView:
		return is(s.end == 0)
	case *ch.CreateMaterializedView:
		return is(x.Comment != nil) // kept in front of AS
	case *ch.CTEStmt:
		return is(x.Alias == nil || s.end < int(x.Alias.End())) // the name of WITH x AS name, or the query behind AS, is left out
	case *ch.TTLExpr:
		return is(x.Policy != nil)
	case *ch.OrderExpr:
		return is(x.Direction != ch.OrderDirectionNone && x.Fill == nil)
	case *ch.Fill:
		return is(emptyFill(x))
	case *ch.ParamExprList:
		return is(x.ColumnArgList != nil)
	case *ch.DeduplicateClause:
		return is(x.Except != nil)
	case *ch.AlterTableModifyColumn:
		return is(x.RemovePropertyType != nil)
	case *ch.EngineExpr:
		return is(x.Params != nil && s.end < int(x.Params.End()))
	case *ch.WindowFrameCurrentRow:
		return is(true) // behind the token that follows
	case *ch.AuthenticationClause, *ch.HostClause, *ch.DefaultRoleClause, *ch.GranteesClause:
		return is(true) // behind the token that follows
	case *ch.OptimizeStmt:
		return is(x.HasFinal && x.Deduplicate == nil)
	case *ch.DropStmt, *ch.ShowStmt:
		return is(true) // at the token that follows
	case *ch.NamedCollectionParam:
		return is(x.Overridable || x.NotOverridable)
	// an end taken from one of those above, or from a start
	case *ch.LimitClause:
		if x.Limit != nil && x.Limit.End() == 0 || x.Offset != nil && x.Offset.End() == 0 {
			return "-"
		}
	case *ch.PlaceHolder:
		if pinnedStart(n, s) != "" {
			return "-"
		}
	case *ch.ColumnExprList:
		if len(x.Items) == 0 {
			return "-" // no text of its own
		}
	}
	return ""
}

func emptyFill(x *ch.Fill) bool {
	return x.From == nil && x.To == nil && x.Step == nil && x.Staleness == nil
}

// pinnedStart is the same for starts.
func pinnedStart(n *astx.Node, s span) string {
	if n.Parent != nil {
		site := n.Parent.Type() + "." + n.Field + " Pos"
		switch n.Parent.Expr.(type) {
		case *ch.CompressionCodec:
			if n.Field == "Level" || n.Field == "TypeLevel" {
				return site
			}
		case *ch.ColumnDef:
			if n.Field == "Comment" {
				return site
			}
		case *ch.WindowExpr:
			if n.Field == "PartitionBy" {
				return site
			}
		}
	}
	for a := n; a.Parent != nil; a = a.Parent {
		switch x := a.Parent.Expr.(type) {
		case *ch.OrderExpr:
			if a.Field == "Expr" && s.pos == int(x.OrderPos) {
				return "OrderExpr.Expr Pos"
			}
		case *ch.Fill:
			if s.pos == int(x.FillPos) {
				return "Fill Pos"
			}
		}
	}
	return ""
}

// known reports a finding once; known_findings.jsonl lists it.
func (p *posRun) known(kind, site, sql string, s span) {
	if p.told[kind+site] || site == "-" {
		return
	}
	p.told[kind+site] = true
	p.bad(kind, site, sql, fmt.Sprintf("%d-%d", s.pos, s.end))
}

// hasEmptyFill: WITH FILL without bounds ends four bytes behind the token that
// follows it, wherever that is.
func hasEmptyFill(root ch.Expr) bool {
	for _, n := range astx.Nodes(root) {
		if x, ok := n.Expr.(*ch.Fill); ok && emptyFill(x) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- layout

// key tells where a position is, counted in tokens.
func key(toks []ref.Tok, pos, last int) string {
	if pos == 0 {
		return "0"
	}
	if pos > last {
		return fmt.Sprintf("end+%d", pos-last)
	}
	i := sort.Search(len(toks), func(i int) bool { return toks[i].Start > pos }) - 1
	if i < 0 {
		return "before"
	}
	t := toks[i]
	switch {
	case pos < t.End:
		return fmt.Sprintf("%d+%d", i, pos-t.Start)
	case pos == t.End:
		return fmt.Sprintf("%d end", i)
	case pos == last:
		return "eof"
	}
	return fmt.Sprintf("gap after %d", i)
}

// layout writes the same tokens with other gaps and compares the positions.
func (p *posRun) layout(sql string, root ch.Expr, toks []ref.Tok) {
	src := relayout(p.f.rng, toks, false)
	src = "\n " + src
	t2, err := ref.Lex(src)
	if err != nil || len(t2) != len(toks) || hasEmptyFill(root) {
		return
	}
	root2, err := parseOne(src)
	if err != nil {
		return // C04
	}
	a, b := positions(root), positions(root2)
	if len(a) != len(b) {
		return // C04
	}
	p.r.Event("layouts compared", 1)
	for i := range a {
		if a[i].name != b[i].name {
			return
		}
		p.r.Event("positions compared between layouts", 1)
		ka, kb := key(toks, a[i].pos, len(sql)), key(t2, b[i].pos, len(src))
		if ka == "0" {
			if kb == "0" || kb == "0+0" {
				continue
			}
		}
		if kb == "eof" || kb == "end+1" { // trailing gaps
			if ka == fmt.Sprintf("%d end", len(toks)-1) || ka == "end+1" {
				continue
			}
		}
		if ka != kb && !pinned["layout "+a[i].name] {
			p.bad("another layout moves a position to another token", a[i].name, src, fmt.Sprintf("%s (%d) with single spaces, %s (%d) here", ka, a[i].pos, kb, b[i].pos))
		}
	}
}

type namedPos struct {
	name string
	pos  int
}

// positions lists Pos, End and every position field of every node.
func positions(root ch.Expr) []namedPos {
	var out []namedPos
	for _, n := range astx.Nodes(root) {
		s, err := spanOf(n.Expr)
		if err != nil {
			continue
		}
		v := reflect.ValueOf(n.Expr)
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		t := n.Type()
		out = append(out, namedPos{t + ".Pos()", s.pos}, namedPos{t + ".End()", s.end})
		for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
			if v.Field(i).Type() == posType {
				out = append(out, namedPos{t + "." + v.Type().Field(i).Name, int(v.Field(i).Int())})
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- shifts

// shift parses the text behind blank space and behind another statement: every
// position moves by the length of what is in front.
func (p *posRun) shift(sql string, root ch.Expr, before string) {
	if strings.HasSuffix(strings.TrimSpace(sql), ";") {
		return
	}
	a := positions(root)
	front := []string{"  \n\t "}
	if before != "" {
		front = append(front, strings.TrimRight(before, "; \n\t\r")+"\n;")
	}
	for k, pre := range front {
		stmts, err := parse(pre + sql)
		if err != nil || len(stmts) != k+1 || astx.IsNil(stmts[k]) {
			p.r.Event("texts that do not parse behind another", 1)
			continue
		}
		b := positions(stmts[k])
		if len(a) != len(b) {
			p.bad("text in front changes the tree", astx.TypeName(root), pre+sql, "")
			continue
		}
		p.r.Event("shifts compared", 1)
		d := len(pre)
		for i := range a {
			x, y := a[i].pos, b[i].pos
			if y == x+d || x == 0 && y == 0 {
				continue
			}
			p.bad("text in front moves a position by another length", a[i].name, pre+sql, fmt.Sprintf("%d becomes %d behind %d bytes", x, y, d))
			break
		}
		if k == 1 {
			p.others(pre+sql, stmts, len(pre))
		}
	}
}

// others checks that no statement reaches into the other one.
func (p *posRun) others(sql string, stmts []ch.Expr, cut int) {
	for k, s := range stmts {
		if hasEmptyFill(s) {
			continue
		}
		for _, n := range astx.Nodes(s) {
			sp, err := spanOf(n.Expr)
			if err != nil {
				return
			}
			if k == 0 && (sp.pos >= cut || sp.end > cut) {
				p.bad("a node reaches into the next statement", n.Type(), sql, fmt.Sprintf("%d-%d, the next one starts at %d", sp.pos, sp.end, cut))
			}
			if k == 1 && (sp.pos < cut && sp.pos != 0 || sp.end < cut && sp.end != 0) {
				p.bad("a node reaches into the statement before", n.Type(), sql, fmt.Sprintf("%d-%d, its statement starts at %d", sp.pos, sp.end, cut))
			}
		}
	}
}
