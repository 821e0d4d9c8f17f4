package gram

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/ref"
)

// weird is a pool of content pieces for quoted names and strings.
var weird = []string{"--", "/*", "*/", ";", "(", ")", "[", "]", "{", "}", ",", " ", "  ", "\t", "\n", "\r\n", "FROM", "select", "'", "`", "\"", "\\\\", "\\n",
	"\\'", "\\`", "\\\"", "\\x41", "\\0", "é", "日本", "😀", "\u00a0", "#", "?", "@", "$$", "%", ".", ":", "0x", "1e", "AS", "\\t", "=", "<>", "!", "|", "~", "^", "&"}

// Content makes text for the inside of a quoted token.
func (g *Gen) Content(q byte) string {
	var b strings.Builder
	n := 1 + g.R.Intn(4)
	for i := 0; i < n; i++ {
		p := weird[g.R.Intn(len(weird))]
		if p == string(q) {
			p += p // a doubled quote
		}
		b.WriteString(p)
	}
	return b.String()
}

func (g *Gen) next() int { g.uniq++; return g.uniq }

// ident makes an identifier: source text and the name the tree must hold.
func (g *Gen) ident(plain bool) (src, val string) {
	n := g.next()
	stem := []string{"c", "tbl", "Abc_", "_x", "colName", "z9_", "UPPER_", "d$"}[g.R.Intn(8)]
	if g.R.Float64() >= g.Weird*3 {
		stem = []string{"c", "t", "n"}[g.R.Intn(3)]
	}
	name := fmt.Sprintf("%s%d", stem, n) + g.long("xY_z")
	if plain || g.R.Float64() >= g.Weird*2 {
		return name, name
	}
	q := byte('`')
	if g.R.Intn(2) == 0 {
		q = '"'
	}
	if g.R.Intn(2) == 0 {
		name = name + g.Content(q)
		if g.R.Intn(3) == 0 {
			name = g.Content(q) + name
		}
	}
	return string(q) + name + string(q), name
}

// long is, now and then, something that makes a word long.
func (g *Gen) long(of string) string {
	if g.Weird == 0 || g.R.Intn(120) != 0 {
		return ""
	}
	n := []int{8, 15, 29, 30, 60, 61, 62, 63, 64, 65, 125, 126, 127, 128, 250, 254, 255, 256, 300, 600}[g.R.Intn(20)]
	return strings.Repeat(of, n/len(of)+1)[:n]
}

func (g *Gen) leaf(k TokKind, src, val string, before bool) {
	g.emit(Tok{Kind: k, Src: src, Out: src, Val: val}, before)
}

var natives map[string]func(g *Gen, after, before bool)

func init() {
	natives = map[string]func(g *Gen, after, before bool){
		"id": func(g *Gen, after, before bool) {
			s, v := g.ident(false)
			g.leaf(Id, s, v, before)
		},
		"pid": func(g *Gen, after, before bool) {
			s, v := g.ident(true)
			g.leaf(Id, s, v, before)
		},
		"anyid": func(g *Gen, after, before bool) {
			if g.R.Float64() < g.Weird {
				w := Keywords[g.R.Intn(len(Keywords))]
				if w == "SELECT" || w == "WITH" { // after AS a query may begin
					w = "WHERE"
				}
				switch g.R.Intn(3) {
				case 0:
					w = strings.ToLower(w)
				case 1:
					w = w[:1] + strings.ToLower(w[1:])
				}
				g.leaf(Id, w, w, before)
				return
			}
			s, v := g.ident(false)
			g.leaf(Id, s, v, before)
		},
		"str": func(g *Gen, after, before bool) {
			c := fmt.Sprintf("s%d", g.next()) + g.long("aB -")
			if g.R.Float64() < g.Weird*2 {
				c += g.Content('\'')
				if g.R.Intn(3) == 0 {
					c = g.Content('\'') + c
				}
			}
			g.leaf(Str, "'"+c+"'", c, before)
		},
		"int": func(g *Gen, after, before bool) {
			s := fmt.Sprint(100+g.next()) + g.long("1029")
			g.leaf(Num, s, s, before)
		},
		"negint": func(g *Gen, after, before bool) {
			s := fmt.Sprint(-100 - g.next())
			g.leaf(Num, s, s, before)
		},
		"num": func(g *Gen, after, before bool) {
			n := g.next()
			s := fmt.Sprint(100+n) + g.long("9071")
			if g.R.Float64() < g.Weird*2 {
				s = []string{fmt.Sprintf("%d.25", n), fmt.Sprintf("%de3", n), fmt.Sprintf("0x%xF", n+256), fmt.Sprintf("0x%Xf", n+0xab00), fmt.Sprintf("0x0%x", n+0xa0), fmt.Sprintf("%d.5E-2", n),
					fmt.Sprintf("1%dE+10", n), fmt.Sprintf("00%d", n), fmt.Sprintf("%d.0", n), fmt.Sprintf("%d.", n), fmt.Sprintf("0.%d00", n), fmt.Sprintf("%d999999999999999999999", n)}[g.R.Intn(12)]
			}
			g.leaf(Num, s, s, before)
		},
		"lit": func(g *Gen, after, before bool) {
			if g.R.Intn(2) == 0 {
				natives["num"](g, after, before)
				// a sign glued to a number belongs to it where an operand begins
				if k := len(g.toks) - 1; g.R.Float64() < g.Weird && k > 0 && signMayFollow[g.toks[k-1].Src] {
					sign := []string{"-", "-", "+"}[g.R.Intn(3)]
					t := &g.toks[k]
					t.Src, t.Out, t.Val = sign+t.Src, sign+t.Out, sign+t.Val
				}
			} else {
				natives["str"](g, after, before)
			}
		},
		"placeholder": func(g *Gen, after, before bool) {
			g.emit(Tok{Kind: Op, Src: "?", Out: "?"}, before)
		},
		"codec1": func(g *Gen, after, before bool) {
			w := []string{"LZ4", "NONE", "T64", "ZSTD", "LZ4HC"}[g.R.Intn(5)]
			g.emit(Tok{Kind: Kw, Src: w, Out: w, Keep: true}, before)
		},
	}
}

var signMayFollow = map[string]bool{"(": true, ",": true, "[": true, "=": true, "+": true, "*": true, ">": true, "<=": true, "!=": true}

// Keywords of the dialect, written down here and not taken from the parser.
var Keywords = strings.Fields(`ADD ADMIN AFTER ALIAS ALL ALTER AND ANTI ANY APPEND APPLY ARRAY AS ASC ASCENDING ASOF AST ASYNC ATTACH BETWEEN BOTH BY
CACHE CASE CAST CHECK CLEAR CLUSTER CODEC COLLATE COLLECTION COLUMN COLUMNS COMMENT COMPILED CONFIG CONSTRAINT CREATE CROSS CUBE CURRENT DATABASE DATABASES
DATE DAY DEDUPLICATE DEFAULT DELAY DELETE DEPENDS DESC DESCENDING DESCRIBE DETACH DETACHED DICTIONARIES DICTIONARY DISK DISTINCT DISTRIBUTED DROP DNS
ELSE END ENGINE ESTIMATE EMBEDDED EMPTY EVENTS EVERY EXCEPT EXISTS EXPLAIN EXPRESSION EXTRACT FALSE FETCHES FILESYSTEM FILL FINAL FIRST FLUSH FOLLOWING
FOR FORMAT FREEZE FROM FULL FUNCTION FUNCTIONS GLOBAL GRANT GRANTEES GRANULARITY GROUP GROUPING HAVING HIERARCHICAL HOST HOUR ID IDENTIFIED IF ILIKE IN
INDEX INF INJECTIVE INNER INSERT INTERSECT INTERVAL INTERPOLATE INTO IP IS IS_OBJECT_ID JOIN JSON KEY KILL KERBEROS LAST LAYOUT LDAP LEADING LEFT LIFETIME
LIKE LIMIT LIVE LOCAL LOGS MARK MATERIALIZE MATERIALIZED MAX MERGES MIN MINUTE MODIFY MONTH MOVE MOVES MUTATION NAME NAMED NAN_SQL NO NONE NOT NULL NULLS
OFFSET ON OPTIMIZE OPTION OR ORDER OUTER OVERRIDABLE OUTFILE OVER OVERLAY OVERLAYUTF8 PARTITION PIPELINE PLACING POLICY POPULATE PRECEDING PREWHERE PRIMARY
PROJECTION QUARTER QUERY QUEUES QUOTA RANDOMIZE RANGE REALM RECOMPRESS REFRESH REGEXP RELOAD REMOVE RENAME REPLACE RESET REPLICA REPLICATED REPLICATION
RESTART RIGHT ROLE ROLLUP ROW ROWS SAMPLE SECOND SELECT SEMI SENDS SERVER SET SETS SETTING SETTINGS SHOW SHUTDOWN SKIP SOURCE START STALENESS STEP STOP
SUBSTRING SYNC SYNTAX SYSTEM TABLE TABLES TEMPORARY TEST THEN TIES TIMEOUT TIMESTAMP TO TOP TOTALS TRAILING TRIM TRUE TRUNCATE TTL TYPE UNBOUNDED
UNCOMPRESSED UNION UPDATE USE USER USING UNTIL UUID VALID VALUES VIEW VOLUME WATCH WEEK WHEN WHERE WINDOW WITH YEAR DEFINER SQL SECURITY`)

// Reserved are the keywords that cannot be a bare name.
var Reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`ALTER AND AS BETWEEN BY CASE CREATE CROSS DESCRIBE DISTINCT DROP ELSE EXCEPT EXPLAIN FORMAT FROM GRANT GROUP HAVING ILIKE IN
INNER INSERT INTERVAL INTO IS KILL LIKE LIMIT NOT OFFSET ON OPTIMIZE OR ORDER PREWHERE RENAME SELECT SETTINGS SHOW THEN TRUNCATE UNION USE USING WHEN WHERE WINDOW WITH`) {
		Reserved[w] = true
	}
}

// ---- rendering

// Src is the source with single spaces.
func (s *Stmt) Src() string { return strings.Join(s.SrcTexts(), " ") }

// SrcTexts lists the source tokens.
func (s *Stmt) SrcTexts() []string {
	var out []string
	for _, k := range s.Order {
		if s.Toks[k].Src != "" {
			out = append(out, s.Toks[k].Src)
		}
	}
	return out
}

// SrcIdx lists the indexes into Toks of the source tokens, in source order.
func (s *Stmt) SrcIdx() []int {
	var out []int
	for _, k := range s.Order {
		if s.Toks[k].Src != "" {
			out = append(out, k)
		}
	}
	return out
}

// OutTexts lists the tokens that the formatted text must consist of.
func (s *Stmt) OutTexts() []string {
	var out []string
	for _, t := range s.Toks {
		if t.Out != "" {
			out = append(out, t.Out)
		}
	}
	toks, err := ref.Lex(strings.Join(out, " "))
	if err != nil {
		return out
	}
	return ref.Texts(toks)
}

// Recase is the source with the letter case of the keywords changed that the
// tree does not store.
func (s *Stmt) Recase(r *rand.Rand) string {
	var out []string
	for _, k := range s.Order {
		t := s.Toks[k]
		if t.Src == "" {
			continue
		}
		x := t.Src
		if t.Kind == Kw && !t.Keep {
			b := []byte(strings.ToLower(x))
			for i := range b {
				if r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			x = string(b)
		}
		out = append(out, x)
	}
	return strings.Join(out, " ")
}

// IsKeyword reports whether a word is one of the keywords, in any letter case.
func IsKeyword(w string) bool {
	if kwSet == nil {
		kwSet = map[string]bool{}
		for _, k := range Keywords {
			kwSet[k] = true
		}
	}
	return kwSet[strings.ToUpper(w)]
}

var kwSet map[string]bool
