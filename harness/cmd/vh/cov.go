package main

import "fmt"

// covMap accumulates which blocks of the parser were executed.
type covMap struct {
	hit   [][]bool
	total int
	n     int
}

func newCovMap() *covMap {
	c := &covMap{}
	for _, s := range covSlices {
		c.hit = append(c.hit, make([]bool, len(s)))
		c.total += len(s)
	}
	return c
}

func covReset() {
	for _, s := range covSlices {
		for i := range s {
			s[i] = 0
		}
	}
}

// covSum is the number of block executions since the last reset.
func covSum() uint64 {
	var t uint64
	for _, s := range covSlices {
		for _, v := range s {
			t += uint64(v)
		}
	}
	return t
}

// merge folds the live counters in and returns the number of new blocks.
func (c *covMap) merge() int {
	fresh := 0
	for i, s := range covSlices {
		h := c.hit[i]
		for j, v := range s {
			if v != 0 && !h[j] {
				h[j] = true
				fresh++
			}
		}
	}
	c.n += fresh
	return fresh
}

func (c *covMap) String() string {
	if c.total == 0 {
		return "not instrumented"
	}
	return fmt.Sprintf("%d of %d parser blocks (%.1f%%)", c.n, c.total, 100*float64(c.n)/float64(c.total))
}

func (c *covMap) byFile() map[string]string {
	out := map[string]string{}
	for i, f := range covFiles {
		n := 0
		for _, h := range c.hit[i] {
			if h {
				n++
			}
		}
		out[f] = fmt.Sprintf("%d/%d", n, len(c.hit[i]))
	}
	return out
}

// list numbers the executed blocks.
func (c *covMap) list() []int {
	var out []int
	n := 0
	for _, h := range c.hit {
		for _, b := range h {
			if b {
				out = append(out, n)
			}
			n++
		}
	}
	return out
}
