package main

import (
	"strings"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/harness/astx"
	"verif/harness/gram"
	"verif/harness/ref"
	"verif/harness/rep"
)

func init() {
	checks["C21"] = check{
		rule:   "In generated and sample statements every ordinary name is replaced in turn by keywords, in random letter case, bare where the keyword is not reserved and quoted for all of them; a case counts when the tree was compared with that of the original name.",
		assume: []string{"A word is left out where the dialect itself gives it another meaning at that very place; the list is in c21.go (clash)."},
		run:    runC21,
	}
}

// clash reports whether keyword k is a word of the syntax at the place of token
// i (whose leaf is at site), so that it cannot be read as a name there.
func clash(toks []string, i int, site, k string) bool {
	prev, next := "", ""
	if i > 0 {
		prev = strings.ToUpper(toks[i-1])
	}
	if i+1 < len(toks) {
		next = strings.ToUpper(toks[i+1])
	}
	is := func(s, list string) bool { return strings.Contains(" "+list+" ", " "+s+" ") }
	switch {
	case strings.HasSuffix(site, "Alias"):
		return prev != "AS" // a bare alias is taken from a few words only
	case prev == "FROM" && i > 1 && toks[i-2] == ",": // a trailing comma makes FROM look like a name
		return true
	case k == "IF": // IF EXISTS, IF NOT EXISTS
		return is(prev, "DATABASE TABLE VIEW FUNCTION COLLECTION USER ROLE COLUMN DICTIONARY INDEX PROJECTION CONSTRAINT PARTITION TTL DELETE LIVE")
	case next == "(" && is(k, "CAST EXTRACT TRIM SUBSTRING COLUMNS GROUPING ROLLUP CUBE"): // syntax of their own
		return true
	case next == "(" && is(k, "DATE TIMESTAMP ANY ALL EXISTS ARRAY OVERLAY POSITION") && is(prev, "BY FROM"):
		return true
	case is(prev, "CASE INTERVAL") && is(k, "INTERSECT END"): // the word before is a name then
		return true
	case is(prev, "GRANTEES ROLE") && is(k, "NONE ANY ALL"):
		return true
	case prev == "TABLE" && i > 1 && strings.EqualFold(toks[i-2], "INTO") && k == "FUNCTION":
		return true
	case k == "INTERSECT" && is(prev, ", SELECT FROM"): // SELECT a, INTERSECT (SELECT ...)
		return true
	case is(k, "TOP") && (is(prev, "SELECT DISTINCT") || prev == ")" || prev == "ALL"):
		return true
	case prev == "BY" && is(k, "ALL CUBE ROLLUP GROUPING"):
		return true
	case site == "ColumnDef.Name" && is(k, "CONSTRAINT INDEX PROJECTION PRIMARY"):
		return true
	case k == "NONE" && (site == "SettingPair.Name" || site == "CreateUser.DefaultDatabase"):
		return true
	case prev == "PARTITION" && is(k, "ID ALL"):
		return true
	case is(prev, "INTO DESC DESCRIBE TRUNCATE OPTIMIZE CHECK FROM SHOW") && is(k, "TABLE FUNCTION TEMPORARY DATABASE"):
		return true
	case site == "JSONPath.Idents" && is(k, "SKIP REGEXP"):
		return true
	}
	return false
}

// reservedToo reports whether even a reserved keyword is a name at this place:
// after AS, after a dot, and as a whole item of the projection.
func reservedToo(toks []string, i int, site, k string) bool {
	prev, next := "", ""
	if i > 0 {
		prev = strings.ToUpper(toks[i-1])
	}
	if i+1 < len(toks) {
		next = strings.ToUpper(toks[i+1])
	}
	switch {
	case prev == "AS" && strings.HasSuffix(site, "Alias"):
		return k != "SELECT" && k != "WITH"
	case prev == ".":
		return site == "Path.Fields" || site == "TableIdentifier.Table"
	case site == "SelectItem.Expr" && (prev == "SELECT" || prev == ","):
		return (next == "," || next == "FROM" || next == "AS") && k != "FROM" && k != "NOT" && (k != "DISTINCT" || prev == ",")
	}
	return false
}

func runC21(r *rep.Run) {
	f := newFeed(r)
	words := map[string]int64{}
	sites := map[string]int64{}
	try := func(c *tcase) {
		toks, err := ref.Lex(c.SQL)
		if err != nil {
			return
		}
		base := f.single(c)
		if base == nil {
			return
		}
		texts := ref.Texts(toks)
		leaves := astx.Leaves(base)
		nodes := astx.Nodes(base)
		for i, t := range toks {
			if t.Kind != ref.Word || gram.IsKeyword(t.Text) || r.Full() {
				continue
			}
			chains := leaves[t.Text]
			if len(chains) != 1 || count(texts, t.Text) != 1 {
				continue
			}
			chain := chains[0]
			if chain[len(chain)-1] != "Ident.Name" {
				continue
			}
			site := siteOf(chain)
			if !isName(site, t.Text) {
				continue
			}
			sites[site]++
			var ids []*ch.Ident
			for _, n := range nodes {
				if id, ok := n.Expr.(*ch.Ident); ok && id.Name == t.Text {
					ids = append(ids, id)
				}
			}
			for n := 0; n < 3; n++ {
				k := gram.Keywords[f.rng.Intn(len(gram.Keywords))]
				if gram.Reserved[k] && reservedToo(texts, i, site, k) || !gram.Reserved[k] && !clash(texts, i, site, k) {
					words[k]++
					keywordName(r, f, c, base, ids, toks, i, anyCase(f, k), "", site)
				}
				k = gram.Keywords[f.rng.Intn(len(gram.Keywords))]
				words[k]++
				keywordName(r, f, c, base, ids, toks, i, anyCase(f, k), []string{"`", `"`}[f.rng.Intn(2)], site)
			}
		}
		r.Eval(c.SQL, true)
	}
	operands(r, f)
	f.samples(func(c *tcase) {
		for n := r.N(4, 60); n > 0; n-- {
			try(c)
		}
	})
	f.generate(r.N(9000, 300000), try)
	f.finish()
	r.Extra["keywords_tried"] = words
	r.Extra["places"] = sites
}

// operandPlaces are places where an expression stands (at @).
var operandPlaces = strings.Split(`SELECT @|SELECT @ , b|SELECT @ AS z FROM t|SELECT @ FROM t|SELECT a , @|SELECT a , @ FROM t|SELECT ( @ )|SELECT ( a , @ )|SELECT ( @ , a )|SELECT f ( @ )|SELECT f ( a , @ )|SELECT f ( @ , a )
SELECT [ @ ]|SELECT [ a , @ ]|SELECT a + @|SELECT a = @|SELECT a % @|SELECT a AND @|SELECT a OR @ FROM t|SELECT NOT @|SELECT - @|SELECT CASE WHEN @ THEN 1 END|SELECT CASE WHEN a THEN @ END|SELECT CASE a WHEN 1 THEN 2 ELSE @ END
SELECT CASE @ WHEN 1 THEN 2 END|SELECT CASE a WHEN @ THEN 2 END|SELECT CASE WHEN a THEN @ WHEN b THEN 1 ELSE 2 END|SELECT CASE WHEN a THEN @ ELSE 2 END|SELECT a ? @ : c|SELECT a ? b : @|SELECT x -> @|SELECT x [ @ ]|SELECT a IN ( @ )|SELECT a IN ( b , @ )
SELECT a BETWEEN @ AND c|SELECT a BETWEEN b AND @|SELECT CAST ( @ AS Int8 )|SELECT CAST ( @ , 'Int8' )|SELECT EXTRACT ( DAY FROM @ )|SELECT * FROM t WHERE @|SELECT * FROM t WHERE a AND ( @ )|SELECT * FROM t PREWHERE @ WHERE b|SELECT * FROM t HAVING @
SELECT * FROM t GROUP BY @|SELECT * FROM t GROUP BY a , @|SELECT * FROM t ORDER BY @|SELECT * FROM t ORDER BY a , @ DESC|SELECT * FROM t JOIN u ON @|SELECT * FROM t JOIN u ON a = @ WHERE b|SELECT * FROM t ARRAY JOIN @ AS z|SELECT * FROM t LIMIT 1 BY @|WITH @ AS z SELECT z
SELECT f ( a ) OVER ( PARTITION BY @ )|SELECT f ( a ) OVER ( ORDER BY @ )|SELECT DISTINCT @|SELECT DISTINCT a , @|SELECT a UNION ALL SELECT @|SELECT * FROM ( SELECT @ FROM t ) AS s|DELETE FROM t WHERE @|ALTER TABLE t DELETE WHERE @|CREATE TABLE t ( a Int8 DEFAULT @ ) ENGINE = Memory
CREATE TABLE t ( a Int8 ) ENGINE = E PARTITION BY @|CREATE TABLE t ( a Int8 ) ENGINE = E ORDER BY ( @ )|CREATE TABLE t ( a Int8 , CONSTRAINT c CHECK @ ) ENGINE = E|CREATE VIEW v AS SELECT @|INSERT INTO t SELECT @|CREATE FUNCTION f AS ( x ) -> @|SELECT * FROM t1 , ( SELECT @ ) AS q
SELECT trim ( @ , 'x' )|SELECT trim ( @ )|SELECT TRIM ( BOTH 'x' FROM @ )|SELECT substring ( @ , 1 )|SELECT substring ( a , @ )|SELECT substring ( @ , 1 , 2 )|SELECT overlay ( @ , 'b' , 1 )|SELECT f ( a ) ( @ )|SELECT f ( 1 , 2 ) ( a , @ )
SELECT a LIKE @|SELECT { 'k' : @ }|SELECT a [ 1 , @ ]|SELECT ( SELECT @ )|SELECT a IN ( SELECT @ FROM t )|SELECT * FROM t ORDER BY a WITH FILL FROM 1 TO @|SELECT * FROM t WINDOW w AS ( PARTITION BY a , @ )`, "|")

// behindName are what shows that the word before it is a name.
var behindName = strings.Split(`|= 1|== 1|!= 1|< 1|<= 1|> 1|>= 1|+ 1|- 1|* 2|/ 2|% 2|:: Int8|AND b|OR b|NOT IN ( 1 )|NOT LIKE 'x'|NOT BETWEEN 1 AND 2|IN ( 1 , 2 )|IN ( SELECT 1 )|LIKE 'x'|ILIKE 'x'|BETWEEN 1 AND 2|IS NULL|IS NOT NULL`, "|")

func init() {
	var out []string
	for _, p := range operandPlaces {
		out = append(out, strings.Split(p, "\n")...)
	}
	operandPlaces = out
	behindName = append(behindName, "|| 'x'")
}

// notOperand reports whether keyword k, with by behind it, is a word of the
// syntax at the place rather than a name.
func notOperand(place, by, k string) bool {
	before := place[:strings.Index(place, "@")]
	starter := gram.Reserved[k]
	switch {
	case k == "NOT": // begins a negation
		return true
	case k == "DISTINCT": // in front of a list
		if strings.HasSuffix(before, "SELECT ") || strings.HasSuffix(before, "DISTINCT ") {
			return true
		}
		next := strings.TrimSpace(by + " " + place[len(before)+1:])
		for _, b := range []string{"( ", "[ ", "GROUP BY ", "1 BY ", "PARTITION BY ", "ARRAY JOIN "} {
			if strings.HasSuffix(before, b) && (next == "" || !strings.Contains(",)]", next[:1])) {
				return true
			}
		}
	case k == "TOP" && (strings.HasSuffix(before, "SELECT ") || strings.HasSuffix(before, "DISTINCT ")),
		k == "SELECT" && strings.HasSuffix(before, "( "), // a subquery
		(k == "BOTH" || k == "LEADING" || k == "TRAILING") && strings.HasSuffix(before, "trim ( ") && by != "",
		k == "ON" && strings.HasSuffix(before, "DISTINCT "),
		(k == "CUBE" || k == "ROLLUP" || k == "ALL" || k == "GROUPING") && strings.HasSuffix(before, "GROUP BY "),
		k == "INTERSECT" && by == "" && strings.HasSuffix(place, "a , @"):
		return true
	}
	switch {
	case by == "" && starter: // nothing behind it, or a word of the syntax, shows a name
		return strings.HasSuffix(place, "@ : c") || strings.HasSuffix(place, "DESC") || strings.Contains(place, "@ WHEN") || strings.HasSuffix(place, "a , @")
	case strings.Contains(place, "CASE @"): // the word CASE is a name then
		return starter || k == "END" || k == "INTERSECT"
	}
	return false
}

// operands puts every keyword where an operand stands, with what shows that it
// is a name behind it, and compares the tree with that of an ordinary name.
func operands(r *rep.Run, f *feed) {
	i := 0
	for _, place := range operandPlaces {
		for _, by := range behindName {
			i++
			if !r.Mine(i) {
				continue
			}
			text := func(w string) string { return strings.Replace(place, "@", strings.TrimSpace(w+" "+by), 1) }
			base, err := parse(text("zqname"))
			if err != nil || len(base) != 1 {
				continue // BETWEEN without brackets
			}
			for _, k := range gram.Keywords {
				if notOperand(place, by, k) {
					continue
				}
				w := anyCase(f, k)
				sql := text(w)
				begin(r, sql)
				r.Eval(sql, true)
				r.Event("keywords put where an operand stands", 1)
				stmts, err := parse(sql)
				if err != nil || len(stmts) != 1 {
					r.ViolateAt("keyword is not accepted as an operand", by+" behind it", sql, errStr(err))
					continue
				}
				want := astx.Clone(base[0])
				for _, n := range astx.Nodes(want) {
					if id, ok := n.Expr.(*ch.Ident); ok && id.Name == "zqname" {
						id.Name = w
					}
				}
				if p, _ := astx.Diff(want, stmts[0], true); p != "" {
					r.ViolateAt("keyword as an operand changes the structure", by+" behind it", sql, p)
				}
			}
		}
	}
}

// isName leaves out the words that are no names but part of the syntax: types,
// codecs and the words of role settings.
func isName(site, text string) bool {
	typ := site[:strings.IndexByte(site, '.')]
	switch {
	case strings.HasSuffix(typ, "Type"), typ == "TypeWithParams", typ == "CompressionCodec", site == "RoleSetting.Modifier":
		return false
	case site == "SettingPair.Name" && strings.EqualFold(text, "PROFILE"):
		return false
	}
	return true
}

func count(ss []string, s string) int {
	n := 0
	for _, x := range ss {
		if x == s {
			n++
		}
	}
	return n
}

// siteOf names the field that holds a name, identifier wrappers aside.
func siteOf(chain []string) string {
	for i := len(chain) - 1; i >= 0; i-- {
		if !strings.HasPrefix(chain[i], "Ident.") && !strings.HasPrefix(chain[i], "NestedIdentifier.") {
			return chain[i]
		}
	}
	return ""
}

func anyCase(f *feed, k string) string {
	switch f.rng.Intn(3) {
	case 0:
		return strings.ToLower(k)
	case 1:
		return k[:1] + strings.ToLower(k[1:])
	}
	return k
}

// keywordName puts keyword k in the place of token i and compares the trees.
func keywordName(r *rep.Run, f *feed, c *tcase, base ch.Expr, ids []*ch.Ident, toks []ref.Tok, i int, k, quote, site string) {
	t := toks[i]
	sql := c.SQL[:t.Start] + quote + k + quote + c.SQL[t.End:]
	begin(r, sql)
	stmts, err := parse(sql)
	what := "keyword"
	if quote != "" {
		what = "quoted keyword"
	}
	r.Event(what+" tried as a name", 1)
	if err != nil || len(stmts) != 1 {
		if quote != "" {
			// a place where no quoted name may stand
			if s, err := parse(c.SQL[:t.Start] + quote + "zqname" + quote + c.SQL[t.End:]); err != nil || len(s) != 1 {
				return
			}
		}
		r.ViolateAt(what+" is not accepted as a name", site, sql, errStr(err))
		return
	}
	for _, id := range ids {
		old := *id
		id.Name = k
		switch quote {
		case "`":
			id.QuoteType = ch.BackTicks
		case `"`:
			id.QuoteType = ch.DoubleQuote
		}
		defer func(id *ch.Ident) { *id = old }(id)
	}
	if p, _ := astx.Diff(base, stmts[0], true); p != "" {
		r.ViolateAt(what+" as a name changes the structure", site, sql, p)
		return
	}
	// and it is printed so that it reads the same again
	out, err := format(stmts[0])
	if err == nil && quote != "" && !strings.Contains(out, quote+k+quote) {
		r.ViolateAt("quoted keyword loses its quotes", site, sql, out)
	}
}
