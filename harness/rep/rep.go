// Package rep records what a check observed and turns it into evidence,
// violations and known findings.
package rep

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Finding is one line of known_findings.jsonl.
type Finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Kind     string `json:"kind,omitempty"`
	Input    string `json:"input,omitempty"` // the exact failing input
	Site     string `json:"site,omitempty"`  // or the call site: the node type or field it is about
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

// Run is one execution of one check.
type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	Rng      *rand.Rand
	Dir      string // /verif
	Repo     string
	start    time.Time
	Evals    int64
	distinct map[uint64]struct{}
	Events   map[string]int64
	Extra    map[string]interface{}
	samples  []interface{}
	sampleN  int64
	Rule     string
	Assume   []string
	viol     []violation
	seenViol map[string]int
	known    []Finding
	knownHit map[int]int
	cur      []byte // shared memory page holding the current input
	curAt    time.Time
	MaxViol  int
	Shard    int              // which of the check's processes this is
	Shards   int              // and of how many
	Sets     map[string][]int // sets of things reached, merged over the processes
}

type violation struct {
	kind, input, detail, path string
}

// Mine reports whether item i of a fixed list falls to this process.
func (r *Run) Mine(i int) bool { return i%r.Shards == r.Shard }

// New prepares a run from the environment.
func New(prop, dir, repo string) *Run {
	r := &Run{Prop: prop, Dir: dir, Repo: repo, start: time.Now(),
		distinct: map[uint64]struct{}{}, Events: map[string]int64{}, Extra: map[string]interface{}{},
		seenViol: map[string]int{}, knownHit: map[int]int{}, MaxViol: 12, Sets: map[string][]int{}}
	r.Tier = os.Getenv("VERIF_TIER")
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	}
	h := fnv.New64a()
	h.Write([]byte(prop))
	r.Shard, _ = strconv.Atoi(os.Getenv("VH_SHARD"))
	if r.Shards, _ = strconv.Atoi(os.Getenv("VH_SHARDS")); r.Shards < 1 {
		r.Shards = 1
	}
	r.Rng = rand.New(rand.NewSource(r.Seed*1000003 + int64(h.Sum64()&0xffffff) + int64(r.Shard)*15485863))
	if f, err := os.Open(filepath.Join(dir, "known_findings.jsonl")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<22)
		for sc.Scan() {
			line := strings.TrimSpace(sc.Text())
			if line == "" || strings.HasPrefix(line, "#") {
				continue
			}
			var k Finding
			if json.Unmarshal([]byte(line), &k) == nil && k.Status == "known" && k.Property == prop {
				r.known = append(r.known, k)
			}
		}
		f.Close()
	}
	if p := os.Getenv("VH_CURFILE"); p != "" {
		if f, err := os.OpenFile(p, os.O_RDWR, 0o600); err == nil {
			if m, err := syscall.Mmap(int(f.Fd()), 0, CurSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				r.cur = m
			}
			f.Close()
		}
	}
	return r
}

// CurSize is the size of the page that holds the current input.
const CurSize = 1 << 20

// Thorough reports the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return max(1, quick/fraction)
}

// fraction makes the quick tier smaller, for trying many versions of the library.
var fraction = 1

func init() {
	if n, err := strconv.Atoi(os.Getenv("VH_FRACTION")); err == nil && n > 0 {
		fraction = n
	}
}

// Mark records the input about to run, for the supervisor to read after a crash.
func (r *Run) Mark(input string) {
	if r.cur == nil {
		return
	}
	n := len(input)
	if n > CurSize-16 {
		n = CurSize - 16
	}
	copy(r.cur[:16], fmt.Sprintf("%15d ", n))
	copy(r.cur[16:], input[:n])
}

// ReadCur reads back the recorded input.
func ReadCur(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return ""
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b[:16])))
	if err != nil || n < 0 || n > len(b)-16 {
		return ""
	}
	return string(b[16 : 16+n])
}

// Eval counts one evaluated case; nontrivial ones are counted by distinct key.
func (r *Run) Eval(key string, nontrivial bool) {
	r.Evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		k := h.Sum64()
		if _, ok := r.distinct[k]; !ok {
			r.distinct[k] = struct{}{}
			// keep a spread of samples
			r.sampleN++
			if len(r.samples) < 6 && (r.sampleN&(r.sampleN-1)) == 0 || len(r.samples) < 10 && r.sampleN%5003 == 0 {
				r.Sample(key)
			}
		}
	}
}

// Sample stores an example case.
func (r *Run) Sample(s string) {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	r.samples = append(r.samples, strings.ToValidUTF8(s, "\uFFFD"))
}

// Event counts something a monitor saw.
func (r *Run) Event(name string, n int64) { r.Events[name] += n }

// Violate records a violation; kind groups violations of the same sort.
func (r *Run) Violate(kind, input, detail string) { r.ViolateAt(kind, "", input, detail) }

// ViolateAt is Violate for a failure with a known call site.
func (r *Run) ViolateAt(kind, site, input, detail string) {
	if site != "" {
		detail = "at " + site + ": " + detail
	}
	for i, k := range r.known {
		if k.Kind == kind && (k.Input != "" && k.Input == input || k.Site != "" && k.Site == site) {
			r.knownHit[i]++
			return
		}
	}
	r.seenViol[kind]++
	if site != "" {
		r.seenViol[kind+" at "+site]++
		if r.seenViol[kind+" at "+site] > 2 {
			return
		}
	} else if r.seenViol[kind] > 3 && os.Getenv("VH_ALL") == "" {
		return
	}
	if len(r.viol) >= r.MaxViol {
		return
	}
	r.viol = append(r.viol, violation{kind: kind, input: input, detail: detail})
}

// KnownInputs lists the inputs of the known findings of this property.
func (r *Run) KnownInputs() []string {
	var out []string
	for _, k := range r.known {
		if k.Input != "" {
			out = append(out, k.Input)
		}
	}
	return out
}

// Full reports whether enough violations were gathered to stop.
func (r *Run) Full() bool {
	t := 0
	for _, n := range r.seenViol {
		t += n
	}
	return (t >= 200 || t > 0 && fraction > 1) && os.Getenv("VH_ALL") == ""
}

// Violations is the number of distinct violations kept.
func (r *Run) Violations() int { return len(r.viol) }

// Part is what one process of a check observed.
type Part struct {
	Evals    int64
	Distinct []uint64
	Events   map[string]int64
	Extra    map[string]interface{}
	Sets     map[string][]int
	Samples  []interface{}
	Rule     string
	Assume   []string
	Viol     int
}

// WriteEvidence merges what the processes of a check observed.
func WriteEvidence(prop, tier, dir string, seed int64, wall float64, parts []*Part) (evals int64, distinct int) {
	events, extra, sets, keys := map[string]int64{}, map[string]interface{}{}, map[string]map[int]bool{}, map[uint64]struct{}{}
	var samples []interface{}
	total := 0
	var assume []string
	rule := ""
	for _, p := range parts {
		evals += p.Evals
		total += p.Viol
		rule, assume = p.Rule, p.Assume
		for _, k := range p.Distinct {
			keys[k] = struct{}{}
		}
		for k, n := range p.Events {
			events[k] += n
		}
		for k, v := range p.Extra {
			extra[k] = merge(extra[k], v)
		}
		for k, l := range p.Sets {
			if sets[k] == nil {
				sets[k] = map[int]bool{}
			}
			for _, i := range l {
				sets[k][i] = true
			}
		}
		for i, s := range p.Samples {
			if i < 2+10/len(parts) {
				samples = append(samples, s)
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	distinct = len(keys)
	cov := map[string]interface{}{"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "events_observed": events, "samples": samples, "processes": len(parts)}
	for k, v := range extra {
		cov[k] = v
	}
	if m, ok := extra["node_counts"].(map[string]interface{}); ok {
		cov["node_types_seen"] = len(m)
	}
	for k, m := range sets {
		cov[k] = map[string]interface{}{"reached": len(m), "of": extra[k+" of"]}
		delete(cov, k+" of")
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s": float64(int(wall*100)) / 100, "coverage": cov, "assumptions": assume, "violations": total}, "", " ")
	edir := filepath.Join(dir, "evidence")
	os.MkdirAll(edir, 0o755)
	os.WriteFile(filepath.Join(edir, prop+".json"), append(j, '\n'), 0o644)
	return
}

// merge adds the numbers of maps and keeps the greater of two single numbers.
func merge(a, b interface{}) interface{} {
	if a == nil {
		return b
	}
	switch x := b.(type) {
	case map[string]interface{}:
		m, ok := a.(map[string]interface{})
		if !ok {
			return b
		}
		for k, v := range x {
			if n, ok := v.(float64); ok {
				o, _ := m[k].(float64)
				m[k] = o + n
			} else {
				m[k] = merge(m[k], v)
			}
		}
		return m
	case float64:
		if o, ok := a.(float64); ok && o > x {
			return a
		}
	}
	return b
}

// Finish leaves what was observed to the supervisor, prints the verdict and exits.
func (r *Run) Finish() {
	total := 0
	for _, n := range r.seenViol {
		total += n
	}
	p := &Part{Evals: r.Evals, Events: r.Events, Extra: r.Extra, Sets: r.Sets, Samples: r.samples, Rule: r.Rule, Assume: r.Assume, Viol: total}
	for k := range r.distinct {
		p.Distinct = append(p.Distinct, k)
	}
	if f, err := os.Create(os.Getenv("VH_PART")); err == nil {
		json.NewEncoder(f).Encode(p)
		f.Close()
	} else {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}

	for i, k := range r.known {
		if r.knownHit[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
		}
	}
	if len(r.viol) > 0 {
		kinds := make([]string, 0, len(r.seenViol))
		for k, n := range r.seenViol {
			kinds = append(kinds, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(kinds)
		fmt.Printf("violations by kind: %s\n", strings.Join(kinds, " "))
		for i, v := range r.viol {
			p := WriteReplay(r.Dir, r.Prop, r.Shard*100+i, v.kind, v.input, v.detail, r.Seed, r.Tier)
			fmt.Printf("  [%s] %s\n    input: %s\n", v.kind, clip(v.detail, 900), clip(strconv.Quote(v.input), 900))
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
		}
		os.Exit(1)
	}
	os.Exit(0)
}

// WriteReplay stores a failing case.
func WriteReplay(dir, prop string, i int, kind, input, detail string, seed int64, tier string) string {
	d := filepath.Join(dir, "evidence", "replay")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%d.json", prop, i))
	j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "kind": kind, "input": input,
		"input_go": strconv.Quote(input), "detail": detail, "seed": seed, "tier": tier}, "", " ")
	os.WriteFile(p, append(j, '\n'), 0o644)
	return p
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
