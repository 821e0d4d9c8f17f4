package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/rep"
)

func init() {
	checks["C17"] = check{
		rule:   "The command-line tool is built from the working tree and run on scripts (samples, generated, edited, broken and odd ones: several statements, comments first, CRLF, a byte order mark, NUL, no statement, a file of megabytes) with every combination of -format, -beautify, -f and an argument, and with files that cannot be read. A case counts when exit code, standard output and standard error were compared with the library in this process.",
		assume: []string{"The library in this process and the one in the tool are built from the same tree."},
		run:    runC17,
	}
}

// A job is one run of the tool.
type job struct {
	sql       string
	args      []string
	format    bool
	beautify  bool
	unread    bool // the file can't be read
	usage     string
	out, errs bytes.Buffer
	code      int
	fail      error
}

func runC17(r *rep.Run) {
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "cli")
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = r.Repo
	if out, err := build.CombinedOutput(); err != nil {
		panic(fmt.Sprint("the tool does not build: ", err, string(out)))
	}
	f := newFeed(r)
	var jobs []*job
	n := 0
	add := func(sql string) {
		for len(sql) > 100000 && n%8 != 0 {
			n++
		}
		j := &job{sql: sql}
		k := n % 8
		n++
		j.format, j.beautify = k&1 != 0, k&2 != 0
		file := k&4 != 0 || strings.Contains(sql, "\x00") || len(sql) > 100000
		on := func(s string) string {
			return []string{"-" + s, "--" + s, "-" + s + "=true"}[f.rng.Intn(3)]
		}
		var flags [][]string
		if j.format {
			flags = append(flags, []string{on("format")})
		} else if f.rng.Intn(8) == 0 {
			flags = append(flags, []string{"-format=false"})
		}
		if j.beautify {
			flags = append(flags, []string{on("beautify")})
		}
		if file {
			p := filepath.Join(dir, fmt.Sprintf("q%d.sql", len(jobs)))
			if err := os.WriteFile(p, []byte(sql), 0o600); err != nil {
				panic(err)
			}
			if f.rng.Intn(2) == 0 {
				flags = append(flags, []string{"-f", p})
			} else {
				flags = append(flags, []string{"-f=" + p})
			}
		}
		f.rng.Shuffle(len(flags), func(a, b int) { flags[a], flags[b] = flags[b], flags[a] })
		for _, x := range flags {
			j.args = append(j.args, x...)
		}
		if !file {
			if strings.HasPrefix(sql, "-") || f.rng.Intn(8) == 0 {
				j.args = append(j.args, "--")
			}
			j.args = append(j.args, sql)
		}
		jobs = append(jobs, j)
	}
	// fixed cases
	for _, s := range []string{"", " ", ";", ";;\n;", "-- only a comment", "-- c\nSELECT 1", "/* c */ SELECT 1;", "SELECT 1;\r\nSELECT 2;\r\n", "\ufeffSELECT 1",
		"SELECT 1;SELECT 2;SELECT 3", "SELECT 1;;SELECT 2", "SELECT 1; SELEC 2", "SELECT 'a\nb', `c d`", "SELECT '<&>\u2028\xff'", "SELECT 1\x00", "SELECT", "SELECT 1 SELECT 2", "'",
		"SELECT '%d %s %', 100 % 3", "  SELECT\t1  \n\n", "SELECT 1 -- end", "SELECT 1 FORMAT JSON; SELECT 2 FORMAT CSV",
		"CREATE TABLE a (x Int8) ENGINE = Memory; INSERT INTO a VALUES (1); SELECT * FROM a"} {
		for i := 0; i < 8; i++ {
			add(s)
		}
	}
	for i, q := range []string{"SELECT 1", "SELECT x FROM t WHERE (a = 1) AND b IN (1, 2, 3)"} {
		big := strings.Repeat(q+";\n", 5000+i*1000)
		add(big)
		n += 1
		add(big)
		n += 3
		add(big + "SELECT (")
	}
	mut := ""
	some := func(c *tcase) {
		switch f.rng.Intn(4) {
		case 0:
			mut = c.SQL
			add(c.SQL)
		case 1: // a script
			add(mut + ";\n" + c.SQL + []string{"", ";", ";\n"}[f.rng.Intn(3)])
		default:
			add(c.SQL)
		}
	}
	f.samples(some)
	f.nested(r.N(60, 600), some)
	f.generate(r.N(1500, 15000), some)
	f.mutants(r.N(1000, 12000), some)
	// a file and an argument: the file is what counts
	for i := 0; i < 8; i++ {
		n = i | 4
		add("SELECT 'from the file'")
		j := jobs[len(jobs)-1]
		j.args = append(j.args, "SELECT 'from the argument'")
	}
	// files that can't be read
	for i := 0; i < 4; i++ {
		for _, p := range []string{filepath.Join(dir, "missing.sql"), dir, filepath.Join(dir, "cli", "x"), strings.Repeat("n", 300)} {
			j := &job{unread: true, format: i&1 != 0, beautify: i&2 != 0}
			if j.format {
				j.args = append(j.args, "-format")
			}
			if j.beautify {
				j.args = append(j.args, "-beautify")
			}
			j.args = append(j.args, "-f", p)
			if i == 3 {
				j.args = append(j.args, "SELECT 1")
			}
			jobs = append(jobs, j)
		}
	}
	for _, a := range [][]string{{}, {"-h"}, {"-format", "-h"}, {"-h", "SELECT 1"}, {"-v"}, {"-v", "SELECT 1"}, {"-format"}, {"-format", "-beautify"}, {"-nosuchflag", "SELECT 1"}} {
		jobs = append(jobs, &job{args: a, usage: strings.Join(a, " ") + " "})
	}

	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(j *job) {
			defer func() { <-sem; wg.Done() }()
			cmd := exec.Command(bin, j.args...)
			cmd.Dir = dir
			cmd.Stdout, cmd.Stderr = &j.out, &j.errs
			err := cmd.Run()
			if ee, ok := err.(*exec.ExitError); ok {
				j.code = ee.ExitCode()
			} else {
				j.fail = err
			}
		}(j)
	}
	wg.Wait()
	for _, j := range jobs {
		if r.Full() {
			break
		}
		judge(r, f, j)
	}
	f.finish()
}

// judge compares one run with what the library says.
func judge(r *rep.Run, f *feed, j *job) {
	shown := fmt.Sprintf("%q", j.args)
	if len(shown) > 600 {
		shown = shown[:600] + "..."
	}
	bad := func(kind, detail string) {
		r.ViolateAt(kind, "main", j.sql, clip(fmt.Sprintf("args %s\nexit %d\nstdout %q\nstderr %q\n%s", shown, j.code, clip(j.out.String(), 600), clip(j.errs.String(), 600), clip(detail, 800)), 4000))
	}
	if j.fail != nil {
		if strings.Contains(j.fail.Error(), "argument list too long") {
			return
		}
		panic(j.fail)
	}
	out, errs := j.out.String(), j.errs.String()
	switch {
	case j.usage != "":
		r.Event("runs without a statement", 1)
		unknown := strings.Contains(j.usage, "nosuchflag")
		if unknown && (j.code == 0 || out != "" || errs == "") {
			bad("an unknown flag is accepted", "")
		}
		if !unknown && (j.code != 0 || strings.TrimSpace(out) == "" || errs != "") {
			bad("no help or version", "")
		}
		if !unknown && !strings.Contains(j.usage, "-v") && !strings.Contains(out, "Usage") {
			bad("no help", "")
		}
		r.Eval(shown, true)
		return
	case j.unread:
		r.Event("files that cannot be read", 1)
		if j.code != 1 || out != "" || strings.TrimSpace(errs) == "" {
			bad("a file that cannot be read is not reported", "")
		}
		r.Eval(shown, true)
		return
	}
	begin(r, j.sql)
	stmts, err := parse(j.sql)
	if isPanic(err) {
		r.Eval(shown, false) // C01
		return
	}
	r.Eval(shown+j.sql, true)
	if err != nil {
		r.Event("rejected scripts", 1)
		if j.code != 1 {
			bad("wrong exit code for rejected input", err.Error())
		} else if out != "" {
			bad("output on standard output for rejected input", err.Error())
		} else if !strings.Contains(errs, err.Error()) {
			bad("the error is not reported", err.Error())
		}
		return
	}
	r.Event(fmt.Sprintf("accepted scripts, format=%v beautify=%v", j.format, j.beautify), 1)
	for _, s := range stmts {
		f.seen(s)
	}
	r.Event("statements printed", int64(len(stmts)))
	if j.code != 0 {
		bad("wrong exit code for accepted input", "")
		return
	}
	if errs != "" {
		bad("output on standard error for accepted input", "")
		return
	}
	if j.format || j.beautify {
		var want strings.Builder
		for _, s := range stmts {
			var text string
			var err error
			if j.beautify {
				text, err = beautifyDefault(s)
			} else {
				text, err = format(s)
			}
			if err != nil {
				return // C01
			}
			want.WriteString(text)
			want.WriteByte('\n')
		}
		if out != want.String() {
			bad("the printed text differs from the library's", "want "+want.String())
		}
		return
	}
	want, err := json.Marshal(stmts)
	if err != nil {
		return // C22
	}
	if d := sameJSON(want, []byte(out)); d != "" {
		bad("the printed tree differs from the library's", d)
	} else if !strings.HasSuffix(out, "\n") {
		bad("the output does not end its line", "")
	}
}

func beautifyDefault(e ch.Expr) (s string, err error) {
	err = guard(func() {
		f := ch.NewFormatter().WithBeautify()
		f.WriteExpr(e)
		s = f.String()
	})
	return
}

// sameJSON compares two texts token by token.
func sameJSON(a, b []byte) string {
	da, db := json.NewDecoder(bytes.NewReader(a)), json.NewDecoder(bytes.NewReader(b))
	da.UseNumber()
	db.UseNumber()
	for n := 0; ; n++ {
		ta, ea := da.Token()
		tb, eb := db.Token()
		if ea == io.EOF && eb == io.EOF {
			return ""
		}
		if ea != nil || eb != nil {
			return fmt.Sprintf("token %d: %v / %v", n, ea, eb)
		}
		if ta != tb {
			return fmt.Sprintf("token %d: want %v, got %v", n, ta, tb)
		}
	}
}
