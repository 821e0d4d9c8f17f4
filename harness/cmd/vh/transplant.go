package main

import (
	"strings"

	"verif/harness/gram"
)

// transplants puts parts of statements where the grammar may not have them.
type transplants struct {
	f     *feed
	parts []string
}

var phrases = strings.Split("OR REPLACE,IF EXISTS,IF NOT EXISTS,ON CLUSTER c1,TEMPORARY,FINAL,NOT,GLOBAL,ALL,ANY,DISTINCT,TABLE,LIVE,MATERIALIZED,VIEW,LEFT,OUTER,AS,SYNC,NO DELAY,PERMANENTLY,IN PARTITION p,COLUMN,FIRST,AFTER c,FORMAT JSON,SETTINGS a = 1,COMMENT 'c',WITH TOTALS,TO t,AS SELECT 1,WHERE a,BY a,ENGINE = Log,UUID 'u',DEFAULT,NULL,NOT NULL,WITH,POPULATE,GRANT,OPTION", ",")

func (t *transplants) next() string {
	f := t.f
	r := f.rng
	st := f.one()
	ts := st.SrcTexts()
	text := func(a, b int) string {
		var out []string
		for _, t := range st.Toks[a:b] {
			if t.Src != "" {
				out = append(out, t.Src)
			}
		}
		return strings.Join(out, " ")
	}
	for _, s := range st.Spans {
		if s.End-s.Start > 14 || s.End == s.Start {
			continue
		}
		if x := text(s.Start, s.End); len(t.parts) < 3000 {
			t.parts = append(t.parts, x)
		} else {
			t.parts[r.Intn(len(t.parts))] = x
		}
	}
	if len(t.parts) == 0 {
		t.parts = append(t.parts, "FINAL")
	}
	at := r.Intn(len(ts) + 1)
	if r.Intn(3) == 0 {
		at = min(at, 1+r.Intn(6))
	}
	put := func(s string) string {
		return strings.Join(ts[:at], " ") + " " + s + " " + strings.Join(ts[at:], " ")
	}
	word := func() string {
		ws := gram.Keywords
		return ws[r.Intn(len(ws))]
	}
	switch r.Intn(11) {
	case 0, 1:
		return put(phrases[r.Intn(len(phrases))])
	case 2, 3:
		return put(t.parts[r.Intn(len(t.parts))])
	case 4:
		if len(st.Spans) > 0 {
			s := st.Spans[r.Intn(len(st.Spans))]
			return text(0, s.Start) + " " + t.parts[r.Intn(len(t.parts))] + " " + text(s.End, len(st.Toks))
		}
		return put(word())
	case 5:
		o := f.one().SrcTexts()
		return strings.Join(ts[:at], " ") + " " + strings.Join(o[r.Intn(len(o)):], " ")
	case 6:
		return put(word())
	case 7: // another keyword in place of one
		for j := range ts {
			x := (at + j) % len(ts)
			if gram.IsKeyword(ts[x]) {
				ts[x] = word()
				break
			}
		}
		return strings.Join(ts, " ")
	case 8, 9: // a keyword in quotes
		for j := range ts {
			x := (at + j) % len(ts)
			if gram.IsKeyword(ts[x]) {
				q := []string{"`", "\"", "'"}[r.Intn(3)]
				ts[x] = q + ts[x] + q
				break
			}
		}
		return strings.Join(ts, " ")
	default: // a keyword left out
		for j := range ts {
			x := (at + j) % len(ts)
			if gram.IsKeyword(ts[x]) {
				ts[x] = ""
				break
			}
		}
		return strings.Join(ts, " ")
	}
}
