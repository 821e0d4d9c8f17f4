// vh runs the runtime monitors. Usage: vh CHECK [flags]; the outer process
// supervises a worker process, so that a fatal crash of the code under test is
// observed and reported rather than lost.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/rep"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh CHECK")
		os.Exit(2)
	}
	prop := os.Args[1]
	dir := env("VH_DIR", "/verif")
	repo := env("VH_REPO", "/repo")
	if f, ok := tools[prop]; ok {
		f(dir, repo, os.Args[2:])
		return
	}
	c, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", prop)
		os.Exit(2)
	}
	if os.Getenv("VH_WORKER") == "" {
		os.Exit(supervise(prop, dir, c))
	}
	r := rep.New(prop, dir, repo)
	r.Rule = c.rule
	r.Assume = c.assume
	startWatchdog(r)
	c.run(r)
	r.Finish()
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// usualShards is how many processes a check runs, each with its own seed.
const usualShards = 6

type worker struct {
	cur, part string
	out       bytes.Buffer
	tail      tailBuf
	cmd       *exec.Cmd
	err       error
}

// supervise runs the workers and reads their fate.
func supervise(prop, dir string, c check) int {
	t0 := time.Now()
	n := c.shards
	if n == 0 {
		n = usualShards
	}
	ws := make([]*worker, n)
	var wg sync.WaitGroup
	for i := range ws {
		w := &worker{}
		ws[i] = w
		for _, p := range []*string{&w.cur, &w.part} {
			f, err := os.CreateTemp("", "vhw")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			*p = f.Name()
			f.Truncate(rep.CurSize)
			f.Close()
			defer os.Remove(f.Name())
		}
		os.Truncate(w.part, 0)
		w.cmd = exec.Command(os.Args[0], os.Args[1:]...)
		w.cmd.Env = append(os.Environ(), "VH_WORKER=1", "VH_CURFILE="+w.cur, "VH_PART="+w.part, fmt.Sprint("VH_SHARD=", i), fmt.Sprint("VH_SHARDS=", n))
		w.cmd.Stdout = &w.out
		w.cmd.Stderr = &w.tail
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.err = w.cmd.Run()
		}()
	}
	wg.Wait()
	verdict := 0
	said := map[string]bool{}
	var parts []*rep.Part
	for i, w := range ws {
		for _, line := range strings.SplitAfter(w.out.String(), "\n") {
			if strings.HasPrefix(line, "KNOWN-FINDING:") && said[line] {
				continue
			}
			said[line] = true
			fmt.Print(line)
		}
		code := 0
		if w.err != nil {
			code = -1
			if ee, ok := w.err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		if code == 0 || code == 1 {
			if code == 1 {
				verdict = 1
			}
			p := &rep.Part{}
			b, err := os.ReadFile(w.part)
			if err == nil {
				err = json.Unmarshal(b, p)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "worker left no record:", err)
				if verdict == 0 {
					verdict = 2
				}
				continue
			}
			parts = append(parts, p)
			continue
		}
		text := w.tail.String()
		in := rep.ReadCur(w.cur)
		fatal := ""
		for _, m := range []string{"stack overflow", "goroutine stack exceeds", "concurrent map", "all goroutines are asleep", "VH-HANG", "DATA RACE"} {
			if strings.Contains(text, m) {
				fatal = m
				break
			}
		}
		if fatal != "" {
			p := rep.WriteReplay(dir, prop, i*100+99, "fatal: "+fatal, in, clip(text, 4000), 0, env("VERIF_TIER", "quick"))
			fmt.Printf("  the process died (%s) on input %q\n", fatal, clip(in, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			verdict = 1
			parts = append(parts, &rep.Part{Evals: 1, Rule: c.rule, Assume: c.assume, Viol: 1})
			continue
		}
		fmt.Fprintf(os.Stderr, "worker failed (exit %d) on input %q\n%s\n", code, clip(in, 300), clip(text, 6000))
		if verdict == 0 {
			verdict = 2
		}
	}
	if len(parts) > 0 {
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" {
			tier = "thorough"
		}
		wall := time.Since(t0).Seconds()
		evals, distinct := rep.WriteEvidence(prop, tier, dir, seed, wall, parts)
		if verdict == 0 {
			fmt.Printf("OK property=%s tier=%s processes=%d evaluations=%d distinct=%d wall=%.1fs\n", prop, tier, n, evals, distinct, wall)
		}
	}
	return verdict
}

// tailBuf keeps the first 64 KB written to it.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
