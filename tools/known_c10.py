# Writes the "known" entries of C10 into known_findings.jsonl (run before fixed.py).
import json
E="a node ends at a wrong place"; S="a node starts at a wrong place"
G="fixed there by existing golden files"
L=[
(E,"AlterTableModifyColumn.End","ALTER TABLE t MODIFY COLUMN a REMOVE COMMENT","MODIFY COLUMN … REMOVE … ends in front of REMOVE"),
(E,"AuthenticationClause.End","CREATE USER u IDENTIFIED WITH KERBEROS SETTINGS a","the authentication clause of CREATE USER ends behind the token that follows it"),
(E,"HostClause.End","CREATE USER u HOST ANY SETTINGS a","HOST of CREATE USER ends behind the token that follows it"),
(E,"DefaultRoleClause.End","CREATE USER u DEFAULT ROLE NONE SETTINGS a","DEFAULT ROLE of CREATE USER ends behind the token that follows it"),
(E,"GranteesClause.End","CREATE USER u GRANTEES ANY SETTINGS a","GRANTEES of CREATE USER ends behind the token that follows it"),
(E,"CTEStmt.End","WITH 1 AS x SELECT x","WITH value AS name ends in front of the name"),
(E,"CaseExpr.End","SELECT CASE WHEN a THEN b END","CASE has no end (0)"),
(E,"CreateMaterializedView.End","CREATE MATERIALIZED VIEW v TO t AS SELECT 1 COMMENT 'c'","CREATE MATERIALIZED VIEW ends in front of a COMMENT behind its query"),
(E,"CreateTable.End","CREATE TABLE a AS b COMMENT 'c'","CREATE TABLE ends at 0 without columns and engine, and in front of its COMMENT"),
(E,"CreateView.End","CREATE VIEW v COMMENT 'c'","CREATE VIEW without a query ends at 0"),
(E,"DeduplicateClause.End","OPTIMIZE TABLE t DEDUPLICATE BY a EXCEPT b","DEDUPLICATE BY … EXCEPT … ends in front of EXCEPT"),
(E,"DropStmt.End","DROP TABLE t FORMAT a","DROP ends at the start of the token that follows it"),
(E,"ShowStmt.End","SHOW TABLES","SHOW ends at the token that follows it or one byte behind the text"),
(E,"EngineExpr.End","CREATE DATABASE d ENGINE = Replicated('a')","ENGINE = name(parameters) without further clauses ends in front of the parameters"),
(E,"Fill.End","SELECT a FROM t ORDER BY a WITH FILL","WITH FILL without bounds ends four bytes behind the start of the next token"),
(E,"NamedCollectionParam.End","CREATE NAMED COLLECTION c AS a = 1 OVERRIDABLE","a parameter of a named collection ends in front of [NOT] OVERRIDABLE"),
(E,"OptimizeStmt.End","OPTIMIZE TABLE t FINAL","OPTIMIZE … FINAL ends at the start of FINAL"),
(E,"OrderExpr.End","SELECT a FROM t ORDER BY a DESC","an ORDER BY item ends in front of ASC or DESC"),
(E,"ParamExprList.End","SELECT f(1)(2)","the first argument list of f(…)(…) ends behind the second one"),
(E,"PrivilegeClause.End","GRANT SELECT ON t TO a","a privilege of GRANT has no end (0)"),
(E,"TTLExpr.End","CREATE TABLE t (a Int8) ENGINE = M TTL a DELETE","a TTL item ends in front of its policy"),
(E,"WindowFrameCurrentRow.End","SELECT f() OVER (ROWS CURRENT ROW)","CURRENT ROW ends behind the token that follows it"),
(E,"WindowFrameUnbounded.End","SELECT f() OVER (ROWS UNBOUNDED PRECEDING)","UNBOUNDED PRECEDING has no end (0)"),
(S,"ColumnDef.Comment Pos","CREATE TABLE t (a Int8 COMMENT 'c')","the string of a column comment starts at the word COMMENT"),
(S,"CompressionCodec.Level Pos","CREATE TABLE t (a Int8 CODEC(ZSTD(1)))","the level of a codec starts at its bracket"),
(S,"CompressionCodec.TypeLevel Pos","CREATE TABLE t (a Int8 CODEC(Delta(1), ZSTD(1)))","the level of the first codec starts at its bracket"),
(S,"Fill Pos","SELECT a FROM t ORDER BY a WITH FILL FROM 1","WITH FILL and its values start behind FILL"),
(S,"OrderExpr.Expr Pos","SELECT a FROM t ORDER BY 1","literals and CASE behind ORDER BY start at the word ORDER"),
(S,"WindowExpr.PartitionBy Pos","SELECT f() OVER (w PARTITION BY a)","PARTITION BY of a window starts at the window's bracket"),
]
p='/verif/known_findings.jsonl'
keep=[l for l in open(p) if not (json.loads(l)["status"]=="known" and json.loads(l)["property"]=="C10")]
known=[l for l in keep if json.loads(l)["status"]=="known"]; rest=[l for l in keep if json.loads(l)["status"]!="known"]
with open(p,'w') as f:
    f.writelines(known)
    for k,s,i,w in L: f.write(json.dumps({"status":"known","property":"C10","kind":k,"site":s,"input":i,"what":w+" ("+G+")"},ensure_ascii=False)+"\n")
    f.writelines(rest)
