package main

import (
	ch "github.com/AfterShip/clickhouse-sql-parser/parser"

	"fmt"
	"strings"

	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C18"] = check{
		rule:   "Statements generated from the harness's grammar of the dialect, with every clause combination drawn at random; a case counts when the statement was accepted, its tree was searched for every name and literal at the field where it belongs, and the formatted tokens were compared with those the grammar gives.",
		assume: []string{"The grammar (harness/gram/grammar.txt) is the dialect that the README, the sample queries and the documentation comments show; it is written by hand and does not look at the parser."},
		run:    runC18,
	}
}

// rootType is the statement type that a rule of the grammar stands for.
var rootType = map[string]string{
	"stmt_alter_role":        "AlterRole",
	"stmt_alter_table":       "AlterTable",
	"stmt_attach_table":      "CreateTable",
	"stmt_create_table":      "CreateTable",
	"stmt_check":             "CheckStmt",
	"stmt_create_collection": "CreateNamedCollection",
	"stmt_create_database":   "CreateDatabase",
	"stmt_create_dictionary": "CreateDictionary",
	"stmt_create_function":   "CreateFunction",
	"stmt_create_live":       "CreateLiveView",
	"stmt_create_mv":         "CreateMaterializedView",
	"stmt_create_mv2":        "CreateMaterializedView",
	"stmt_create_role":       "CreateRole",
	"stmt_create_user":       "CreateUser",
	"stmt_create_view":       "CreateView",
	"stmt_delete":            "DeleteClause",
	"stmt_describe":          "DescribeStmt",
	"stmt_drop":              "DropStmt",
	"stmt_drop_database":     "DropDatabase",
	"stmt_drop_role":         "DropUserOrRole",
	"stmt_explain":           "ExplainStmt",
	"stmt_grant":             "GrantPrivilegeStmt",
	"stmt_grant2":            "GrantPrivilegeStmt",
	"stmt_insert":            "InsertStmt",
	"stmt_insert_func":       "InsertStmt",
	"stmt_optimize":          "OptimizeStmt",
	"stmt_rename":            "RenameStmt",
	"stmt_select":            "SelectQuery",
	"stmt_select_clauses":    "SelectQuery",
	"stmt_union":             "SelectQuery",
	"stmt_union_paren":       "SelectQuery",
	"stmt_set":               "SetStmt",
	"stmt_show":              "ShowStmt",
	"stmt_system":            "SystemStmt",
	"stmt_truncate":          "TruncateTable",
	"stmt_use":               "UseStmt",
}

func runC18(r *rep.Run) {
	f := newFeed(r)
	seen := map[string]map[string]int{}
	check := func(c *tcase) {
		if seen[c.St.Rule] == nil {
			seen[c.St.Rule] = map[string]int{}
		}
		if t := checkGenerated(r, f, c.St); t != "" {
			seen[c.St.Rule][t]++
		}
		r.Eval(c.SQL, true)
	}
	f.generate(r.N(150000, 2500000), check)
	f.finish()
	r.Extra["statement_rules"] = seen
}

func checkGenerated(r *rep.Run, f *feed, st *gram.Stmt) string {
	src := st.Src()
	stmts, err := parse(src)
	if err != nil {
		r.ViolateAt("statement of the dialect is rejected", st.Rule, src, err.Error())
		return ""
	}
	if len(stmts) != 1 || astx.IsNil(stmts[0]) {
		r.ViolateAt("statement is not read as one", st.Rule, src, fmt.Sprint(len(stmts)))
		return ""
	}
	f.seen(stmts[0])
	typ := astx.TypeName(stmts[0])
	if want := rootType[st.Rule]; want != "" && !strings.Contains(" "+want+" ", " "+typ+" ") {
		r.ViolateAt("statement of the wrong type", st.Rule, src, typ+" instead of "+want)
	}
	out, err := format(stmts[0])
	if err != nil {
		r.ViolateAt("Format panics", panicSite(err), src, err.Error())
		return typ
	}
	toks, err := ref.Lex(out)
	want := strings.Join(st.OutTexts(), " ")
	got := strings.Join(ref.Texts(toks), " ")
	r.Event("printed tokens compared", int64(len(toks)))
	if got != want || err != nil {
		r.ViolateAt("formatted text is not the statement", st.Rule, src, "expected "+want+"\nprinted  "+got)
		return typ
	}
	for _, x := range astx.Nodes(stmts[0]) {
		if m := named(x.Expr); m != "" {
			r.ViolateAt("type name does not say what was written", x.Type(), src, m)
			return typ
		}
	}
	leaves := astx.Leaves(stmts[0])
	for _, t := range st.Toks {
		if t.Val == "" {
			continue
		}
		r.Event("names and literals found at their field", 1)
		if m := leafAt(leaves, t); m != "" {
			r.ViolateAt("name or literal is not where it belongs", st.Rule, src, m)
			return typ
		}
	}
	if st.Shuffle(f.rng) {
		// clauses of free order: the same tree in any order
		src2 := st.Src()
		s2, err := parse(src2)
		r.Event("clauses of free order shuffled", 1)
		if err != nil || len(s2) != 1 {
			r.ViolateAt("statement is rejected with its clauses in another order", st.Rule, src2, errStr(err))
			return typ
		}
		if out2, _ := format(s2[0]); out2 != out {
			r.ViolateAt("clauses in another order print differently", st.Rule, src2, out+"\n"+out2)
			return typ
		}
		if d, site := astx.Diff(astx.Canon(stmts[0]), astx.Canon(s2[0]), true); d != "" {
			r.ViolateAt("clauses in another order give another tree", site, src2, d)
		}
	}
	return typ
}

// named compares the type name that a statement, an alteration or a column type
// reports with its words.
func named(e ch.Expr) string {
	var name string
	alter, is := e.(interface{ AlterType() string })
	if is {
		name = alter.AlterType()
	} else if d, ok := e.(interface{ Type() string }); ok {
		name = d.Type()
	} else {
		return ""
	}
	text, err := format(e)
	toks, err2 := ref.Lex(text)
	if err != nil || err2 != nil || len(toks) == 0 {
		return ""
	}
	if t := astx.TypeName(e); strings.HasSuffix(t, "Type") || t == "TypeWithParams" {
		first := toks[0].Text
		if len(first) > 1 && strings.Contains("`\"'", first[:1]) {
			first = first[1 : len(first)-1]
		}
		if first != name {
			return fmt.Sprintf("%q for %s", name, text)
		}
		return ""
	}
	if is && name == "FREEZE_PARTITION" && len(toks) == 1 {
		return "" // of the whole table
	}
	if strings.HasPrefix(name, "DROP ") && toks[0].Upper() == "DETACH" {
		name = "DETACH" + name[4:] // one node for both
	}
	i := 0
	for _, w := range strings.FieldsFunc(name, func(c rune) bool { return c == ' ' || c == '_' }) {
		if w == "PRIVILEGE" {
			continue
		}
		for i < len(toks) && i < 6 && !(toks[i].Kind == ref.Word && toks[i].Upper() == strings.ToUpper(w)) {
			i++
		}
		if i >= len(toks) || i >= 6 || is && i > 2 {
			return fmt.Sprintf("%q for %s", name, text)
		}
		i++
	}
	if i == 0 && name != "" || name == "" {
		return fmt.Sprintf("%q for %s", name, text)
	}
	return ""
}
