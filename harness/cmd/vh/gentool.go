package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
)

func init() {
	tools["gen"] = toolGen
}

// toolGen prints generated statements that the library treats otherwise than
// the grammar says: vh gen N [rule] [weird].
func toolGen(dir, repo string, args []string) {
	n, _ := strconv.Atoi(args[0])
	g := gram.Load()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	r := rand.New(rand.NewSource(seed))
	gen := gram.NewGen(g, r)
	if len(args) > 2 {
		gen.Weird, _ = strconv.ParseFloat(args[2], 64)
	}
	rules := g.Statements()
	if len(args) > 1 && args[1] != "" {
		rules = []string{args[1]}
	}
	bad := map[string]int{}
	tot := 0
	for i := 0; i < n; i++ {
		rule := rules[i%len(rules)]
		st := gen.Make(rule)
		if os.Getenv("SHOW") != "" {
			fmt.Println(st.Src())
		}
		if msg := genCheck(st); msg != "" {
			tot++
			bad[rule]++
			if bad[rule] <= 2 && len(st.Src()) < 400 {
				fmt.Printf("[%s] %s\n   %s\n", rule, st.Src(), msg)
			} else if bad[rule] <= 2 {
				bad[rule]--
			}
		}
	}
	fmt.Println(n, "statements", tot, "bad", gen.Covered(), "of", g.Choices(), "branches")
}

func genCheck(st *gram.Stmt) string {
	src := st.Src()
	stmts, err := parse(src)
	if err != nil {
		return "REJECTED " + strings.ReplaceAll(err.Error(), "\n", " | ")
	}
	if len(stmts) != 1 {
		return fmt.Sprint("STATEMENTS ", len(stmts))
	}
	out, err := format(stmts[0])
	if err != nil {
		return err.Error()
	}
	toks, err := ref.Lex(out)
	want := strings.Join(st.OutTexts(), " ")
	got := strings.Join(ref.Texts(toks), " ")
	if got != want || err != nil {
		return fmt.Sprintf("FORMAT\n  want %s\n  got  %s", want, got)
	}
	leaves := astx.Leaves(stmts[0])
	for _, t := range st.Toks {
		if t.Val == "" {
			continue
		}
		if m := leafAt(leaves, t); m != "" {
			return m
		}
	}
	s2, err := parse(out)
	if err != nil || len(s2) != 1 {
		return "REPARSE " + errStr(err)
	}
	if d := astx.Equal(stmts[0], s2[0], true); d != "" {
		return "AST DIFF " + d
	}
	return ""
}

// leafAt looks for the token's text at the place in the tree where it belongs.
func leafAt(leaves map[string][][]string, t gram.Tok) string {
	chains := leaves[t.Val]
	if len(chains) == 0 {
		return fmt.Sprintf("LEAF %q is nowhere in the tree", t.Val)
	}
	for _, c := range chains {
		if subseq(t.Path, c) {
			return ""
		}
	}
	return fmt.Sprintf("LEAF %q should be under %v, is at %v", t.Val, t.Path, chains)
}

func subseq(want, have []string) bool {
	i := 0
	for _, h := range have {
		if i < len(want) && h == want[i] {
			i++
		}
	}
	return i == len(want)
}
