package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"verif/harness/astx"
)

var tools = map[string]func(dir, repo string, args []string){
	"sql": toolSQL,
}

// toolSQL prints what the library does with each line of stdin.
func toolSQL(dir, repo string, args []string) {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		q := strings.ReplaceAll(sc.Text(), `\n`, "\n")
		if strings.TrimSpace(q) == "" {
			continue
		}
		fmt.Printf("> %s\n", q)
		stmts, err := parse(q)
		if err != nil {
			fmt.Printf("  ERR %s\n", strings.ReplaceAll(err.Error(), "\n", " | "))
			continue
		}
		for _, s := range stmts {
			c, err := format(s)
			fmt.Printf("  %T %s %v\n", s, c, errStr(err))
			if len(args) > 0 {
				fmt.Println("   ", astx.Dump(s, args[0] == "pos"))
			}
			s2, err := parse(c)
			if err != nil || len(s2) != 1 {
				fmt.Printf("  REPARSE %d %v\n", len(s2), strings.ReplaceAll(errStr(err), "\n", " | "))
			} else if d := astx.Equal(s, s2[0], true); d != "" {
				fmt.Printf("  AST DIFF %s\n", d)
			}
		}
		if len(stmts) != 1 {
			fmt.Printf("  %d statements\n", len(stmts))
		}
	}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
