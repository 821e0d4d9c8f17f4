package work

import (
	"math/rand"
	"strings"

	"verif/harness/ref"
)

// Dict is the pool of tokens that mutation inserts.
var Dict []string

func init() {
	Dict = strings.Fields(`SELECT FROM WHERE PREWHERE GROUP BY HAVING ORDER LIMIT OFFSET SETTINGS FORMAT UNION ALL DISTINCT EXCEPT INTERSECT
 WITH AS ON USING JOIN LEFT RIGHT FULL INNER CROSS OUTER ANY ASOF SEMI ANTI GLOBAL LOCAL ARRAY FINAL SAMPLE TOTALS CUBE ROLLUP GROUPING SETS
 WINDOW OVER PARTITION ROWS RANGE BETWEEN UNBOUNDED PRECEDING FOLLOWING CURRENT ROW FILL INTERPOLATE STEP STALENESS TO ASC DESC NULLS FIRST LAST TIES TOP
 AND OR NOT IN LIKE ILIKE IS NULL CASE WHEN THEN ELSE END CAST EXTRACT INTERVAL DATE TIMESTAMP TRUE FALSE INF NAN_SQL TRIM BOTH LEADING TRAILING SUBSTRING FOR OVERLAY PLACING
 CREATE TABLE VIEW MATERIALIZED LIVE DATABASE DICTIONARY FUNCTION ROLE USER NAMED COLLECTION OR REPLACE IF EXISTS TEMPORARY ATTACH DETACH DROP TRUNCATE RENAME
 ALTER ADD COLUMN INDEX PROJECTION CLEAR MODIFY REMOVE FREEZE MATERIALIZE RESET SETTING QUERY TTL COMMENT CODEC DEFAULT ALIAS ENGINE PRIMARY KEY
 CLUSTER UUID CONSTRAINT CHECK TYPE GRANULARITY AFTER DELETE UPDATE SET VOLUME DISK RECOMPRESS POPULATE REFRESH EVERY DEPENDS APPEND EMPTY DEFINER SQL SECURITY RANDOMIZE
 SYSTEM FLUSH LOGS DISTRIBUTED RELOAD DICTIONARIES SYNC REPLICA START STOP MERGES MOVES FETCHES REPLICATED SENDS CACHE MARK UNCOMPRESSED
 OPTIMIZE DEDUPLICATE EXPLAIN AST PLAN PIPELINE ESTIMATE SHOW TABLES DATABASES DESCRIBE DESC USE GRANT OPTION ADMIN TO NONE EXCEPT HOST IP LOCAL REGEXP NAME IDENTIFIED
 INSERT INTO VALUES OUTFILE ID DAY MONTH YEAR HOUR MINUTE SECOND WEEK QUARTER JSON ENUM HIERARCHICAL INJECTIVE LIFETIME LAYOUT SOURCE MIN MAX EXPRESSION
 ( ) [ ] { } , . ; : :: + - * / % = == != <> < > <= >= || -> ? @ 0 1 42 1.5 .5 1e3 0x1F 'a' '' 'it''s' 'a\'b' a b c t db ` + "`q`" + ` "dq" $1 {p:Int32} {p} UInt8 String`)
}

// Phrases are whole modifiers and clauses that mutation inserts.
var Phrases = strings.Split(`OR REPLACE|IF EXISTS|IF NOT EXISTS|ON CLUSTER c|ON CLUSTER 'c'|TEMPORARY|FINAL|DISTINCT|ALL|WITH TIES|WITH FILL|WITH TOTALS|WITH CUBE|NULLS FIRST
NOT NULL|DEFAULT 1|COMMENT 'c'|TTL a|CODEC(LZ4)|SETTINGS a = 1|FORMAT JSON|SYNC|NO DELAY|PARTITION 'p'|PARTITION ID 'p'|PARTITION ALL|IN PARTITION 'p'|GLOBAL|LOCAL|LEFT|ANY|CROSS
SAMPLE 0.1|SAMPLE 0.1 OFFSET 0.5|LIMIT 1|LIMIT 1, 2|LIMIT 1 OFFSET 2|LIMIT 1 BY a|OFFSET 1|ORDER BY a|ORDER BY a DESC|GROUP BY a|HAVING a|PREWHERE a|WHERE a|WINDOW w AS (a)|OVER w|OVER (ORDER BY a)
AS a|AS b|INTERPOLATE|TO DISK 'd'|TO VOLUME 'v'|UUID 'u'|ENGINE = Memory|ENGINE Memory|PRIMARY KEY a|PARTITION BY a|SAMPLE BY a|POPULATE|EMPTY|APPEND|REFRESH EVERY 1 DAY|RANDOMIZE FOR 1 DAY
DEPENDS ON a|DEFINER = u|SQL SECURITY NONE|AFTER a|FIRST|FROM u|TO u|EXCEPT (a)|EXCEPT a|APPLY(f)|REPLACE (a AS b)|INTO OUTFILE 'f'|WITH GRANT OPTION|WITH ADMIN OPTION|BY a|DEDUPLICATE BY a
HIERARCHICAL|INJECTIVE|IS NULL|IS NOT NULL|NOT|NOT IN (1)|NOT LIKE 'a'|BETWEEN 1 AND 2|BETWEEN -1 AND +1|::Int8|[1]|.1|.a|.*|(1)|-1|- 1|-a|+1|0xFF|-0xFF|0x0f|1E5|-1.5|interval|INTERVAL 1 DAY|case|CASE WHEN a THEN b END
{p:Int8}|DATE '2020-01-01'|->|? a : b|UNION ALL SELECT 1|EXCEPT SELECT 1|JOIN u ON a|ARRAY JOIN a|, u|WITH a AS (SELECT 1)|WITH 1 AS a|LIVE|MATERIALIZED|NAMED|TABLE|VIEW|DATABASE|FUNCTION|DICTIONARY|USER|ROLE`, "|")

func init() {
	var out []string
	for _, p := range Phrases {
		out = append(out, strings.Split(p, "\n")...)
	}
	Phrases = out
}

// Mutator edits statements at the token and the byte level.
type Mutator struct {
	R    *rand.Rand
	Pool []string // donors
}

func (m *Mutator) pick(xs []string) string { return xs[m.R.Intn(len(xs))] }

// Mutate returns an edited copy of src.
func (m *Mutator) Mutate(src string) string {
	toks, err := ref.Lex(src)
	if err != nil || len(toks) == 0 || m.R.Intn(12) == 0 {
		return m.bytes(src)
	}
	ts := ref.Texts(toks)
	if len(ts) > 400 {
		st := m.R.Intn(len(ts) - 200)
		if m.R.Intn(2) == 0 {
			st = 0
		}
		ts = ts[st : st+200]
	}
	n := 1 + m.R.Intn(3)
	for k := 0; k < n && len(ts) > 0; k++ {
		i := m.R.Intn(len(ts))
		switch m.R.Intn(15) {
		case 0, 1: // delete a token or a run
			j := i + 1
			if m.R.Intn(3) == 0 {
				j = i + 1 + m.R.Intn(4)
			}
			if j > len(ts) {
				j = len(ts)
			}
			ts = append(append([]string{}, ts[:i]...), ts[j:]...)
		case 2: // duplicate
			j := i + 1 + m.R.Intn(4)
			if j > len(ts) {
				j = len(ts)
			}
			seg := append([]string{}, ts[i:j]...)
			ts = append(append(append([]string{}, ts[:j]...), seg...), ts[j:]...)
		case 3: // swap
			j := m.R.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 4, 5, 6: // insert from the dictionary
			x := m.pick(Dict)
			if m.R.Intn(2) == 0 {
				x = m.pick(Phrases)
			}
			if m.R.Intn(3) == 0 { // near the head
				i = m.R.Intn(min(len(ts), 6))
			}
			ts = append(append(append([]string{}, ts[:i]...), x), ts[i:]...)
		case 7, 8: // replace
			ts[i] = m.pick(Dict)
		case 9: // truncate
			ts = ts[:i]
		case 10, 11: // splice a run of another statement
			o, err := ref.Lex(m.pick(m.Pool))
			if err == nil && len(o) > 0 {
				a := m.R.Intn(len(o))
				b := a + 1 + m.R.Intn(12)
				if b > len(o) {
					b = len(o)
				}
				j := i
				if m.R.Intn(2) == 0 {
					j = i + m.R.Intn(5)
					if j > len(ts) {
						j = len(ts)
					}
				}
				ts = append(append(append([]string{}, ts[:i]...), ref.Texts(o[a:b])...), ts[j:]...)
			}
		case 12: // wrap in brackets
			j := i + 1 + m.R.Intn(5)
			if j > len(ts) {
				j = len(ts)
			}
			br := m.pick([]string{"()", "[]", "()"})
			ts = append(append(append(append(append([]string{}, ts[:i]...), br[:1]), ts[i:j]...), br[1:]), ts[j:]...)
		case 14: // another form of the same kind
			for k := range ts {
				x := (i + k) % len(ts)
				c := ts[x][0]
				switch {
				case c >= '0' && c <= '9':
					ts[x] = m.pick(numberForms)
				case c == '\'' && len(ts[x]) > 1:
					ts[x] = m.pick(stringForms)
				case (c == '`' || c == '"') && len(ts[x]) > 1:
					ts[x] = m.pick(nameForms)
				default:
					continue
				}
				break
			}
		case 13: // change the case or quote it
			switch m.R.Intn(3) {
			case 0:
				ts[i] = strings.ToLower(ts[i])
			case 1:
				ts[i] = "`" + strings.Trim(ts[i], "`\"'") + "`"
			case 2:
				ts[i] = "\"" + strings.Trim(ts[i], "`\"'") + "\""
			}
		}
	}
	return strings.Join(ts, " ")
}

var (
	numberForms = strings.Fields("0 00 007 0x0 0x0F 0x0f00 0xAb 0xFFFFFFFFFFFFFFFFFF 1. 1.0 1.50 0.10 .5 1e3 1E3 1e+3 1.5E-07 1.e2 18446744073709551616 99999999999999999999999999")
	stringForms = strings.Split(`''|'it''s'|'a\'b'|'\\'|'--'|'/*'|'*/'|';'|'a
b'|'日本'|'"'|'{}'|'	'|' '|'%s'|'<&>'|'\n'|'0x1'|'`+"`"+`'`, "|")
	nameForms = strings.Split("`a``b`|`a\\`b`|`select`|`a.b`|`a b`|\"a\"\"b\"|\"from\"|`'`|\"`\"|`\"`|`日本`|`1`|`--`|`;`|\"<&>\"", "|")
)

func (m *Mutator) bytes(src string) string {
	b := []byte(src)
	n := 1 + m.R.Intn(3)
	for k := 0; k < n; k++ {
		if len(b) == 0 {
			return m.pick([]string{"", "'", "`", "/*", "--", ";", "\x00", "(", "0x"})
		}
		i := m.R.Intn(len(b))
		switch m.R.Intn(5) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(m.R.Intn(256))
		case 2:
			c := "'`\"\\/*-;()[]{}.,:@#$\n\r\t\x00\xff\xc3+>=<|!?0x9e"
			b = append(b[:i], append([]byte{c[m.R.Intn(len(c))]}, b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + 1 + m.R.Intn(8)
			if j > len(b) {
				j = len(b)
			}
			seg := append([]byte{}, b[i:j]...)
			b = append(b[:j], append(seg, b[j:]...)...)
		}
	}
	return string(b)
}
