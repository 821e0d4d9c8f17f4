package main

import (
	"fmt"
	"strings"

	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C19"] = check{
		rule:   "Generated statements with one fault each (cut off at a token before which the grammar knows no complete statement, a clause repeated, two clauses of a fixed order swapped, text of the wrong kind where only a string or only a number fits, left-over tokens at the end), and a monitor on every accepted text of the workload for what no statement contains (unbalanced brackets, open quotes, malformed numbers, stray characters, doubled commas or operators, an operator at the end, an unknown first word) and for statements that a recogniser of the grammar (harness/gram/grammar.txt, widened by accept.txt) finds no rule for, with parts of statements put where other statements do not have them among the workload. A case counts when the fault was in place and the verdict of the parser was compared.",
		assume: []string{"The grammar (harness/gram/grammar.txt) is the dialect; trailing commas before a closing bracket or FROM are left alone."},
		run:    runC19,
	}
}

// starts are the words that may begin a statement.
var starts = map[string]bool{}

// infix are the operators that need an operand on both sides.
var infix = map[string]bool{}

func init() {
	for _, w := range strings.Fields("SELECT WITH CREATE ATTACH ALTER DROP DETACH TRUNCATE RENAME INSERT DELETE USE SET SETTINGS SYSTEM OPTIMIZE CHECK EXPLAIN GRANT SHOW DESC DESCRIBE") {
		starts[w] = true
	}
	for _, w := range strings.Fields("= == != <> < > <= >= / % || . :: ->") {
		infix[w] = true
	}
}

// impossible names what makes a text no script of the dialect; "" if nothing does.
func impossible(sql string) string {
	toks, err := ref.Lex(sql)
	if err != nil {
		return "lexical error: " + strings.TrimRight(err.Error(), "0123456789 ")
	}
	if !ref.Balanced(toks) {
		return "unbalanced brackets"
	}
	for i, t := range toks {
		if t.Kind != ref.Op {
			continue
		}
		nxt := ref.Tok{Kind: ref.Op, Text: ";"}
		if i+1 < len(toks) {
			nxt = toks[i+1]
		}
		switch t.Text {
		case "#", "\\", "~", "^", "&", "!", "|", "'":
			return "stray character"
		case ",":
			if nxt.Kind == ref.Op && nxt.Text == "," {
				return "doubled comma"
			}
			if nxt.Kind == ref.Op && nxt.Text == ";" {
				return "comma at the end"
			}
		case "(", "[", "{":
			if nxt.Kind == ref.Op && nxt.Text == "," {
				return "comma behind an opening bracket"
			}
		}
		if t.Text == "." && nxt.Kind == ref.Number {
			continue // .5
		}
		if infix[t.Text] {
			if nxt.Kind == ref.Op && nxt.Text == "." && i+2 < len(toks) && toks[i+2].Kind == ref.Number {
				// = .5
			} else if nxt.Kind == ref.Op && (infix[nxt.Text] || nxt.Text == "," || nxt.Text == ")" || nxt.Text == "]" || nxt.Text == "}" || nxt.Text == ";") {
				return "operator without a right operand"
			}
			if i == 0 || toks[i-1].Kind == ref.Op && strings.Contains(";,([", toks[i-1].Text) {
				return "operator without a left operand"
			}
		}
		if (t.Text == "+" || t.Text == "-") && nxt.Kind == ref.Op && strings.Contains(";,)]}", nxt.Text) {
			return "operator without a right operand"
		}
	}
	for _, seg := range ref.Segments(toks) {
		if t := seg[0]; !(t.Kind == ref.Word && starts[t.Upper()]) && !t.Is("(") {
			return "unknown first word"
		}
	}
	return ""
}

func runC19(r *rep.Run) {
	f := newFeed(r)
	faults := map[string]int64{}
	rc := gram.NewRecogniser()
	follow := map[string]int64{}
	reject := func(kind, site, sql, from string) {
		faults[kind]++
		r.Event("faulty texts parsed", 1)
		begin(r, sql)
		r.Eval(sql, true)
		stmts, err := parse(sql)
		if err == nil {
			if kind == "clauses swapped" {
				// SAMPLE 1 | ORDER BY a | OFFSET 2: the offset moves to the SAMPLE
				if rule, _, _ := unknownStatement(rc, sql, follow); rule != "" {
					r.Event("swapped clauses that have another reading", 1)
					return
				}
			}
			out := ""
			if len(stmts) > 0 {
				out, _ = format(stmts[0])
			}
			r.ViolateAt("accepted: "+kind, site, sql, "made from: "+from+"\nread as: "+out)
		}
	}
	// any text
	watch := func(c *tcase) {
		why := impossible(c.SQL)
		_, err := parse(c.SQL)
		if err == nil && why == "" {
			rule, far, seg := unknownStatement(rc, c.SQL, follow)
			r.Event("accepted texts looked up in the grammar", 1)
			if rule == "" && seg != nil {
				a, b := max(0, far-2), min(len(seg), far+2)
				r.ViolateAt("accepted: no statement of the dialect", strings.Join(heads(seg[a:b]), " "), c.SQL,
					"no rule gets behind: "+strings.Join(ref.Texts(seg[max(0, far-8):far]), " ")+" <here> "+strings.Join(ref.Texts(seg[far:min(len(seg), far+8)]), " "))
			}
		}
		if why != "" {
			faults["any: "+why]++
			r.Eval(c.SQL, true)
		}
		if err == nil && why != "" {
			r.ViolateAt("accepted: "+why, "", c.SQL, "")
		}
	}
	f.samples(watch)
	f.mutants(r.N(120000, 2000000), watch)
	n := r.N(30000, 600000)
	for i := 0; i < n && !r.Full(); i++ {
		var s string
		if i%3 == 0 {
			s = f.soup()
		} else {
			s = edit(f, f.one())
		}
		watch(f.run(&tcase{Kind: "bracket and operator edits", SQL: s}))
	}
	tr := f.tr
	n = r.N(150000, 2500000)
	for i := 0; i < n && !r.Full(); i++ {
		watch(f.run(&tcase{Kind: "transplants", SQL: tr.next()}))
	}
	// generated statements
	f.generate(r.N(36000, 400000), func(c *tcase) {
		if _, err := parse(c.SQL); err != nil {
			return // C18's
		}
		faultsOf(f, c.St, reject)
	})
	r.Extra["faults"] = faults
	r.Extra["accepted_by_rule"] = follow
	f.finish()
}

// unknownStatement finds a statement of the text that no rule of the grammar
// describes, and how far the rules got in it.
func unknownStatement(rc *gram.Recogniser, sql string, follow map[string]int64) (string, int, []ref.Tok) {
	toks, err := ref.Lex(sql)
	if err != nil || len(toks) > 3000 {
		return "", 0, nil
	}
	for _, seg := range ref.Segments(toks) {
		name := rc.Statement(seg)
		if name == "" {
			return "", rc.Far, seg
		}
		follow[name]++
	}
	return "ok", 0, nil
}

// heads are the keywords of a run of tokens, with an x for everything else.
func heads(toks []ref.Tok) []string {
	var out []string
	for _, t := range toks {
		if t.Kind == ref.Op || t.Kind == ref.Word && gram.IsKeyword(t.Text) {
			out = append(out, t.Upper())
		} else {
			out = append(out, "x")
		}
	}
	return out
}

// edit changes brackets, commas, quotes and operators of a statement.
func edit(f *feed, st *gram.Stmt) string {
	ts := st.SrcTexts()
	r := f.rng
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(ts))
		switch r.Intn(7) {
		case 0: // look for a bracket to drop or change
			for j := range ts {
				x := (i + j) % len(ts)
				if strings.Contains("()[]{}", ts[x]) {
					ts[x] = []string{"", "(", ")", "[", "]", "{", "}"}[r.Intn(7)]
					break
				}
			}
		case 1:
			ts[i] += " " + []string{")", "]", "}", "(", "[", "{"}[r.Intn(6)]
		case 2:
			for j := range ts {
				x := (i + j) % len(ts)
				if ts[x] == "," || infix[ts[x]] {
					ts[x] = ts[x] + " " + []string{ts[x], ",", "=", "."}[r.Intn(4)]
					break
				}
			}
		case 3:
			ts[i] += " " + []string{",", "=", "<", "||", "::", "->", "%", "/", "."}[r.Intn(9)]
		case 4:
			for j := range ts {
				x := (i + j) % len(ts)
				if c := ts[x]; len(c) > 1 && strings.Contains("'`\"", c[:1]) {
					if r.Intn(2) == 0 {
						ts[x] = c[1:]
					} else {
						ts[x] = c[:len(c)-1]
					}
					break
				}
			}
		case 5:
			ts[i] += " " + []string{"#", "\\", "~", "^", "&", "!", "|", "'", "\"", "`", "/*", "é", "\xff", "\x00", "\x01", "1a", "0x", "1e", "1.2.3", "0xg", "1e+"}[r.Intn(21)]
		case 6:
			ts = append(ts[:i], ts[i+1:]...)
			if len(ts) == 0 {
				return ""
			}
		}
	}
	return strings.Join(ts, " ")
}

func faultsOf(f *feed, st *gram.Stmt, reject func(kind, site, sql, from string)) {
	src := st.Src()
	r := f.rng
	idx := st.SrcIdx()
	ts := st.SrcTexts()
	// cut off
	for k := 0; k < 4; k++ {
		i := 1 + r.Intn(len(ts))
		last := st.Toks[idx[i-1]]
		if i >= len(ts) || st.Toks[idx[i]].Complete || last.Kind != gram.Kw || last.Keep || mayEnd[last.Src] || last.Src != ts[i-1] || i > 1 && ts[i-2] == "AS" {
			continue
		}
		reject("cut off", st.Toks[idx[max(i-2, 0)]].Src+"~"+last.Src, strings.Join(ts[:i], " "), src)
		if r.Intn(3) == 0 {
			reject("cut off before a semicolon", st.Toks[idx[max(i-2, 0)]].Src+"~"+last.Src, strings.Join(ts[:i], " ")+" ; SELECT 1", src)
		}
	}
	// clauses
	text := func(a, b int) string {
		var out []string
		for _, t := range st.Toks[a:b] {
			if t.Src != "" {
				out = append(out, t.Src)
			}
		}
		return strings.Join(out, " ")
	}
	for n, k := range r.Perm(len(st.Spans)) {
		if n == 3 {
			break
		}
		s := st.Spans[k]
		if s.Name == "format" && !strings.HasPrefix(st.Rule, "stmt_select") || s.Name == "in" {
			// a second FORMAT belongs to the statement around a query; x IN PARTITION is an expression
			continue
		}
		reject("clause repeated", s.Name+" in "+st.Rule, text(0, s.End)+" "+text(s.Start, s.End)+" "+text(s.End, len(st.Toks)), src)
		for j, o := range st.Spans {
			if j != k && o.Seq == s.Seq && o.Start == s.End && !s.Free {
				reject("clauses swapped", s.Name+" and "+o.Name+" in "+st.Rule, text(0, s.Start)+" "+text(o.Start, o.End)+" "+text(s.Start, s.End)+" "+text(o.End, len(st.Toks)), src)
			}
			if j != k && o.Seq == s.Seq && o.Start >= s.End {
				reject("clause repeated later", s.Name+" in "+st.Rule, text(0, o.End)+" "+text(s.Start, s.End)+" "+text(o.End, len(st.Toks)), src)
			}
		}
	}
	// left-over tokens
	for _, x := range []string{")", "1", "'x'", "]", "}", ".", ", ,", "1.5", "::", "?", "@", st.Toks[0].Src} {
		if r.Intn(4) == 0 {
			reject("left-over tokens at the end", x+" after "+st.Rule, src+" "+x, src)
		}
	}
	// wrong kinds
	for _, k := range idx {
		t := st.Toks[k]
		if len(t.Path) == 0 {
			continue
		}
		field := t.Path[len(t.Path)-1]
		if t.Kind == gram.Str && onlyString[field] {
			reject("something else in place of a string", field, replaceTok(st, k, []string{"5", "x1", "( 'x' )", "*"}[r.Intn(4)]), src)
		}
		if t.Kind == gram.Num && onlyInt[field] {
			reject("something else in place of a number", field, replaceTok(st, k, []string{"'5'", "x1", "( 5 )", "*"}[r.Intn(4)]), src)
		}
		if t.Kind == gram.Id && onlyName[field] {
			reject("something else in place of a name", field, replaceTok(st, k, []string{"5", "( x )", "*", "= x", "1.5", ", x"}[r.Intn(6)]), src)
		}
	}
}

func replaceTok(st *gram.Stmt, k int, by string) string {
	var out []string
	for _, j := range st.SrcIdx() {
		if j == k {
			out = append(out, by)
		} else {
			out = append(out, st.Toks[j].Src)
		}
	}
	return strings.Join(out, " ")
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// mayEnd are keywords that may end a statement, or stand there for a name.
var mayEnd = set(`VALUES FINAL ASC DESC INTERPOLATE DELETE IDENTIFIED EMPTY NULL CASE CAST COLUMNS EXTRACT INTERVAL DATE TIMESTAMP ALL GROUPING POPULATE COMMENT TTL DATABASES
 ASCENDING DESCENDING END FREEZE CUBE FILL ROLLUP TIMEOUT TOTALS`)

var (
	onlyString = set(`CreateTable.Comment ColumnDef.Comment UUID.Value EnumValue.Name TTLPolicyRule.ToDisk TTLPolicyRule.ToVolume JSONOption.SkipRegex CreateView.Comment
 CreateMaterializedView.Comment CreateDatabase.Comment CreateDictionary.Comment CreateUser.ValidUntil AuthenticationClause.LdapServer AuthenticationClause.KerberosRealm
 AuthenticationClause.AuthValue HostClause.HostValue ShowStmt.OutFile RoleName.Scope`)
	onlyInt = set(`CompressionCodec.Level CompressionCodec.TypeLevel EnumValue.Value JSONOption.MaxDynamicTypes JSONOption.MaxDynamicPaths DictionaryLifetimeClause.Min
 DictionaryLifetimeClause.Max`)
	onlyName = set(`WindowDefinition.Name CreateFunction.FunctionName UseStmt.Database DropDatabase.Name CreateDatabase.Name CreateNamedCollection.Name NamedCollectionParam.Name
 DictionaryAttribute.Name ConstraintClause.Constraint TableProjection.Identifier InterpolateItem.Column SettingExpr.Name CreateUser.DefaultDatabase
 DictionarySourceClause.Source DictionaryLayoutClause.Layout DictionaryRangeClause.Min DictionaryRangeClause.Max AlterTableRenameColumn.NewColumnName
 RoleRenamePair.NewName QueryParam.Name DictionaryArgExpr.Name`)
)

var _ = fmt.Sprint
