package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/rep"
)

// panicErr is a recovered panic of the code under test.
type panicErr struct {
	val   string
	stack string
}

func (p *panicErr) Error() string { return "panic: " + p.val + " at " + p.stack }

// guard runs f and turns a panic into an error.
func guard(f func()) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &panicErr{val: fmt.Sprint(v), stack: topFrames(string(debug.Stack()))}
		}
	}()
	f()
	return nil
}

func isPanic(err error) bool {
	var p *panicErr
	return errors.As(err, &p)
}

// topFrames picks the first frames of the library out of a stack trace.
func topFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "clickhouse-sql-parser/parser.") && !strings.HasPrefix(l, "\t") {
			l = l[strings.LastIndex(l, "parser."):]
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// parse runs the parser; a panic comes back as *panicErr.
func parse(sql string) (stmts []ch.Expr, err error) {
	if perr := guard(func() { stmts, err = ch.NewParser(sql).ParseStmts() }); perr != nil {
		return nil, perr
	}
	return stmts, err
}

func format(e ch.Expr) (s string, err error) {
	err = guard(func() { s = ch.Format(e) })
	return
}

func beautify(e ch.Expr, indent string) (s string, err error) {
	err = guard(func() {
		f := ch.NewFormatter().WithBeautify().WithIndent(indent)
		f.WriteExpr(e)
		s = f.String()
	})
	return
}

type check struct {
	rule   string
	assume []string
	run    func(*rep.Run)
	shards int // processes that share the work; 0: the usual number
}

var checks = map[string]check{}
