// instr writes block-counting copies of the parser's source files and an
// overlay file for `go build -overlay`. /repo itself is not touched.
//
//	instr REPO OUTDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(repo, "parser", "*.go"))
	must(err)
	replace := map[string]string{}
	var reg bytes.Buffer
	reg.WriteString("package parser\n\n// VerifCounters lists the block counters of every instrumented file.\nfunc VerifCounters() map[string][]uint32 {\n\treturn map[string][]uint32{\n")
	n := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		v := fmt.Sprintf("verifCov%d", n)
		n++
		dst := filepath.Join(out, filepath.Base(f))
		cmd := exec.Command("go", "tool", "cover", "-mode=count", "-var="+v, "-o", dst, f)
		cmd.Stderr = os.Stderr
		must(cmd.Run())
		b, err := os.ReadFile(dst)
		must(err)
		if !bytes.Contains(b, []byte("var "+v+" = struct")) {
			continue // a file without statements
		}
		replace[f] = dst
		if bytes.Contains(b, []byte(v+".Count[")) {
			fmt.Fprintf(&reg, "\t\t%q: %s.Count[:],\n", filepath.Base(f), v)
		}
	}
	reg.WriteString("\t}\n}\n")
	extra := filepath.Join(out, "zz_verif_counters.go")
	must(os.WriteFile(extra, reg.Bytes(), 0o644))
	replace[filepath.Join(repo, "parser", "zz_verif_counters.go")] = extra
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}
