package main

import (
	"bufio"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	tools["recog"] = toolRecog
}

// toolRecog: vh recog N: mutants that the library accepts and the grammar does not.
// With N 0, the statements of the standard input.
func toolRecog(dir, repo string, args []string) {
	n, _ := strconv.Atoi(args[0])
	rc := gram.NewRecogniser()
	try := func(s string) (string, bool) {
		toks, err := ref.Lex(s)
		if err != nil {
			return "", true
		}
		for _, seg := range ref.Segments(toks) {
			if rc.Statement(seg) == "" {
				a, b := max(0, rc.Far-6), min(len(seg), rc.Far+5)
				return strings.Join(ref.Texts(seg[a:rc.Far]), " ") + " <!> " + strings.Join(ref.Texts(seg[rc.Far:b]), " ") + "\n      " + strings.Join(ref.Texts(seg[:min(len(seg), 60)]), " "), false
			}
		}
		return "", true
	}
	if n == 0 {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			why, ok := try(sc.Text())
			fmt.Println(ok, why)
		}
		return
	}
	r := rep.New("C00", dir, repo)
	f := newFeed(r)
	count := map[string]int{}
	eg := map[string]string{}
	tot, bad := 0, 0
	watch := func(c *tcase) {
		if _, err := parse(c.SQL); err != nil {
			return
		}
		tot++
		why, ok := try(c.SQL)
		if ok {
			return
		}
		bad++
		key := strings.Split(why, "\n")[0]
		ws := strings.Fields(key)
		for i, w := range ws {
			if !gram.IsKeyword(w) && w != "<!>" && len(w) > 1 {
				ws[i] = "x"
			}
		}
		for i, w := range ws {
			if w == "<!>" {
				ws = ws[max(0, i-2):min(len(ws), i+2)]
				break
			}
		}
		key = strings.Join(ws, " ")
		count[key]++
		if o, ok := eg[key]; !ok || len(why) < len(o) {
			eg[key] = why
		}
	}
	f.samples(watch)
	f.generate(n, watch)
	f.mutants(n*10, watch)
	tr := f.tr
	for i := 0; i < n*10; i++ {
		watch(f.run(&tcase{Kind: "transplants", SQL: tr.next()}))
	}
	var ks []string
	for k := range count {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return count[ks[i]] > count[ks[j]] })
	fmt.Println("accepted", tot, "not recognised", bad)
	for i, k := range ks {
		if i < 60 {
			fmt.Printf("%5d %s\n      %s\n", count[k], k, eg[k])
		}
	}
}
