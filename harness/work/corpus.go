// Package work makes the workloads that drive the parser.
package work

import (
	"embed"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ref"
)

//go:embed sql/*.sql
var own embed.FS

// Corpus holds the seed statements.
type Corpus struct {
	Files  []string // whole scripts
	Names  []string
	Stmts  []string // single statements, comments kept
	Titles []string
}

// LoadCorpus reads the repository's own sample queries and the statements that
// come with this harness. Scripts are split with the reference tokenizer.
func LoadCorpus(repo string) *Corpus {
	c := &Corpus{}
	var paths []string
	filepath.Walk(filepath.Join(repo, "parser", "testdata"), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".sql") &&
			!strings.Contains(p, "/format/") && !strings.Contains(p, "/benchdata/") {
			paths = append(paths, p)
		}
		return nil
	})
	sort.Strings(paths)
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err == nil {
			c.add(filepath.Base(p), string(b))
		}
	}
	ents, _ := own.ReadDir("sql")
	for _, e := range ents {
		b, _ := own.ReadFile("sql/" + e.Name())
		c.add(e.Name(), string(b))
	}
	return c
}

func (c *Corpus) add(name, src string) {
	toks, err := ref.Lex(src)
	if err != nil {
		return
	}
	c.Files = append(c.Files, src)
	c.Names = append(c.Names, name)
	for _, seg := range ref.Segments(toks) {
		c.Stmts = append(c.Stmts, src[seg[0].Start:seg[len(seg)-1].End])
		c.Titles = append(c.Titles, name)
	}
}
