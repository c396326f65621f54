import json,subprocess
m={
"do not drop":[("C02","a final token without a following blank (SELECT a FROM t WHERE x =) and a lexical error at the end of input were swallowed")],
"no nil dereference on":[("C01","CREATE USER u HOST, CREATE ROLE r SETTINGS, PARTITION, SYSTEM RELOAD and others cut off at the end of input panicked with a nil dereference")],
"judge end":[("C19","clauses cut off at the end of input (ORDER BY a WITH FILL FROM, USING (a …) were accepted because loops looked at the lexer position instead of the lookahead token")],
"require the partition":[("C19","ALTER … IN without PARTITION was accepted; ADD INDEX IF NOT EXISTS lost INDEX in its formatting")],
"keep the words":[("C02","SYSTEM RELOAD/DROP/FLUSH/START, GRANT privileges of several words and CHECK … PARTITION lost words")],
"keep FUNCTION":[("C02","INSERT INTO FUNCTION lost FUNCTION; NOT and VALUES without what they announce were accepted")],
"keep WITH TOTALS":[("C02","WITH TOTALS without GROUP BY, WINDOW lists, SELECT DISTINCT ON and the parentheses of set operands were dropped")],
"keep UUID":[("C02","UUID of live views, CONSTRAINT … CHECK, DETACH and the order of column clauses were dropped or changed")],
"keep the comma":[("C03","(a,) became (a); stray commas and a bare WITH were accepted")],
"+> is no":[("C14","a+>b was lexed as a->b, and 1 .5 joined to one number")],
"COMMENT after":[("C02","CREATE VIEW … AS SELECT … COMMENT 'x' read COMMENT as an alias")],
"a query after":[("C02","CREATE MATERIALIZED VIEW … ORDER BY a AS SELECT 1 read SELECT as the alias of a")],
"ends and starts of":[("C06","spans of ALTER, CREATE VIEW, DROP DATABASE, table functions and others left out clauses or ran past the text")],
"Walk skips":[("C08","Walk went on below a node for which fn returned false in some types and stopped altogether in others; WalkWithBreak did not stop")],
"Walk and Accept reach":[("C08","Walk and Accept left out the target pairs of RENAME and the keys of map literals")],
"beautifying leaves":[("C17","beautifying indented the lines of string literals and quoted names that contain newlines")],
"keywords in role":[("C11","lower case keywords in role settings, DEFAULT DATABASE, privileges and ARRAY JOIN were rejected or kept as names")],
"require an item":[("C19","SELECT, GROUP BY, PARTITION BY, LIMIT BY, ARRAY JOIN and USING without an item at the end of input were accepted")],
"a comma after the last SELECT":[("C15","SELECT a, was accepted at the end of input but not before a semicolon")],
"a sign or blank after the dot":[("C17",".+0 and . 5 were read as the numbers .+0 and .5")],
"the name of a GRANT option":[("C21","GRANT ... WITH `a b` OPTION was accepted and formatted without the quotes")],
"accept a sign before a signed":[("C18","- - a was rejected, - -1 accepted")],
"the sign before an access":[("C10","-a[1], -a.1 and -a::Int8 were read as (-a)[1], (-a).1 and (-a)::Int8")],
"accept the tuple element":[("C10","a.b.1 was rejected")],
"an access after a cast":[("C10","a::T[1] and a::T.1 were read as a::(T[1]) and a::(T.1)")],
"keep the quotes of named":[("C21","f(`a b` = 1) as a table function was formatted without the quotes")],
"keep the quotes of engine":[("C21","ENGINE = `a b`(1) was formatted without its quotes")],
"accept a number with a fraction":[("C18","SETTINGS a = 1.5 was rejected")],
"reject repeated":[("C02","a second ENGINE, ORDER BY, TTL, IDENTIFIED, DEFAULT ROLE … clause silently replaced the first, of several HOST clauses only the last was kept")],
"a second FORMAT":[("C02","SELECT a FROM t FORMAT A FORMAT B lost FORMAT B")],
"RECOMPRESS needs":[("C19","TTL d RECOMPRESS without a codec and DELETE CODEC(…) were accepted")],
"a column is either":[("C03","a UInt8 NULL NOT NULL was accepted and formatted to another column definition")],
"EXCEPT before SELECT":[("C18","SELECT 1 EXCEPT SELECT 2 was rejected: EXCEPT was taken for a column modifier")],
"no nil dereference after an unfinished enum":[("C01","CREATE TABLE t (a Enum8('x' = and other unfinished enums panicked with a nil dereference")],
"accept the access a.1.2":[("C18","the access a.1.2 to an element of a nested tuple was rejected, f(a)..1 and f(a).1e2 were accepted")],
"a quoted unit":[("C21","EXTRACT(`DAY` FROM a) was accepted")],
"a doubled quote":[("C14","a doubled quote or a backslash inside a quoted identifier ended it: SELECT `a``b` was read as `a` AS `b`")],
"spans of OPTIMIZE":[("C07","the span of OPTIMIZE ... FINAL ended before FINAL, that of WITH TIMEOUT before its keywords")],
}
import sys
m["accept map literals and bracketed operands among inserted values"]=[("C18","INSERT INTO t VALUES ({'k': 1}), ((1 + 2) * 3) was rejected")]
m["INTERVAL and CASE take a signed or negated operand"]=[("C18","a + INTERVAL -1 DAY and CASE -a WHEN … END were rejected"),("C10","SELECT INTERVAL -1 DAY was read as the column interval minus 1 named DAY")]
m["the expression of a TTL starts at its text"]=[("C07","the span of TTL CAST(d AS Date) started at TTL")]
m["the expression of an INTERPOLATE item starts at its text"]=[("C06","INTERPOLATE (b AS 1): the span of 1 started at INTERPOLATE")]
m["signs, casts, CASE, strings, subqueries and ? in ORDER BY start at their text"]=[("C07","ORDER BY a, -b: the span of -b started at ORDER"),("C06","ORDER BY a, ?: the span of ? was empty and at ORDER")]
m["the span of a typed placeholder ends at its brace"]=[("C07","VALUES ({p:Int8} , b): the span of {p:Int8} ended at the comma")]
log=subprocess.run("git -C /repo log --reverse --format='%h %s'",shell=True,capture_output=True,text=True).stdout.strip().split('\n')
extra=json.load(open('/verif/tools/fixed_extra.json')) if len(sys.argv)>1 else {}
m.update({k:[tuple(x) for x in v] for k,v in extra.items()})
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    hit=[v for k,v in m.items() if s[5:].startswith(k)]
    assert hit,(l)
    for v in hit[0]: out.append("fixed: property=%s %s %s"%(v[0],h,v[1]))
k=json.load(open('/verif/known_findings.json')); k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False); open('/verif/known_findings.json','a').write('\n')
