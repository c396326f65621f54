#!/usr/bin/env python3
# Writes the findings of known_findings.json; the "fixed" list comes from tools/fixed.py.
import json
F=[]
def f(p,h,msg,inp,what): F.append({"property":p,"harness":h,"message":msg,"input":inp,"what":what})
G="the golden files expect it"
def n(t): return r"\*parser\."+t
def in_(t,par): return n(t)+" in "+n(par)
KEPT="Kept KeptBag"
RT="RoundTrip"
LOST="(source has|formatted SQL lacks|formatted SQL adds) "
f("C02",KEPT,"(source has ATTACH where formatted SQL has CREATE|formatted SQL (lacks ATTACH|adds CREATE))","ATTACH .*","ATTACH DATABASE/TABLE is formatted as CREATE (the AST does not tell them apart; the golden file attach_table_basic expects it)")
f("C02",KEPT,"(source has ID where formatted SQL has '.*'|formatted SQL lacks ID)",".*PARTITION +ID +'.*","PARTITION ID 'x' is formatted without ID (the golden file alter_table_attach_partition expects it)")
f("C02",KEPT,"(source has FORMAT where formatted SQL has (end|;)|formatted SQL lacks (FORMAT|[A-Za-z0-9_`]+))","(.*; *)?(CHECK|DESC|DESCRIBE|SHOW|DROP|TRUNCATE|ALTER|RENAME|OPTIMIZE|SYSTEM|SET|USE|GRANT|DELETE|DETACH|ATTACH|CREATE|INSERT .*VALUES)[ (][^;]*FORMAT .*","a FORMAT clause after a statement other than SELECT, INSERT and SHOW DATABASES is accepted and dropped (the AST has no place for it)")
f("C02",KEPT,"(source has (JSON|json) where formatted SQL has '(JSON|json)'|formatted SQL (lacks|adds) '?[A-Za-z0-9_`]+'?)","SHOW +[a-z]+ .*FORMAT +[A-Za-z0-9_`]+ *;?","SHOW DATABASES ... FORMAT JSON is formatted with the name in quotes ("+G+")")
f("C02",KEPT,"formatted SQL (lacks SETTINGS|adds SET)"," *SETTINGS .*","SETTINGS a = 1 as a statement is formatted as SET a=1")
f("C03",RT,r"formatted SQL has another meaning \[.*\.(In)?Partition(Expr)?\.Expr: nil true vs nil false\]",".*PARTITION +ID +'.*","PARTITION ID 'x' is formatted without ID, which reads as PARTITION 'x' (the golden file alter_table_attach_partition expects it)")
f("C03",RT,"formatted SQL is rejected",r"SELECT .*, *(limit|from|order|format|offset|settings|union|where|having|group|window|with) *,? *;?","a comma before a trailing word that is also a clause keyword: SELECT a, limit , is read as two columns and formatted without the last comma, which reads as the clause")
f("C17","Verbatim","(compact|beautified) SQL has a literal the source lacks","SHOW +[a-z]+ .*FORMAT +JSON *","SHOW DATABASES ... FORMAT JSON is formatted with the name in quotes ("+G+")")
# C06
f("C06","Pos","span ends at 0: "+in_("PrivilegeClause","GrantPrivilegeStmt"),".*GRANT .*","the span of a privilege of one word ends at 0 ("+G+")")
f("C06","Pos","span ends past the text: "+n("GrantPrivilegeStmt"),".*GRANT .* WITH .*","GRANT ... WITH GRANT OPTION: the span of the statement ends past it ("+G+")")
f("C06","Pos","span ends past the text: "+in_("(Grantees|Host|Authentication|DefaultRole)Clause","CreateUser"),".*CREATE USER .*(HOST|GRANTEES|IDENTIFIED|ROLE|ANY|NONE).*","CREATE USER: HOST, GRANTEES, NOT IDENTIFIED and DEFAULT ROLE spans end past their text ("+G+")")
f("C06","Pos","span ends at 0: "+in_("CaseExpr",".*"),".*CASE .* END.*","the span of CASE ends at 0 ("+G+")")
f("C06","Pos","span ends past the text: "+in_("Fill","OrderExpr"),".*WITH +FILL.*","the span of WITH FILL starts after it and ends past the text ("+G+")")
f("C06","Pos","(span ends at 0|ends after its parent): "+in_("(WindowFrameClause|WindowFrameUnbounded|BetweenClause)","(WindowExpr|BetweenClause|WindowFrameClause)"),".*(ROWS|RANGE) .*(UNBOUNDED|CURRENT ROW).*","spans of UNBOUNDED and CURRENT ROW window bounds are off ("+G+")")
f("C06","Pos","span ends past the text: "+n("ShowStmt"),".*SHOW .*","the span of SHOW ends past the text ("+G+")")
f("C06","Pos","ends after its parent: "+in_("StringLiteral","Create(Table|MaterializedView)"),".*COMMENT .*","the span of CREATE TABLE and CREATE MATERIALIZED VIEW ends before COMMENT ("+G+")")
f("C06","Pos","ends after its parent: "+in_("(TableIdentifier|TableSchemaClause|ClusterClause|Ident|UUID)","CreateTable"),".*(CREATE|ATTACH) .*TABLE .*","the span of CREATE TABLE without an engine ends at 0 ("+G+")")
f("C06","Pos","ends after its parent: "+in_("SelectQuery","SelectQuery"),".*(UNION|EXCEPT|INTERSECT).*","the span of a query with a set operator ends before the operator ("+G+")")
f("C06","Pos","ends after its parent: "+in_("(Ident|SelectQuery)","CTEStmt"),".*WITH .* AS .*","the span of a WITH item ends with its first part ("+G+")")
f("C06","Pos","ends after its parent: "+in_("ColumnExprList","DeduplicateClause"),".*DEDUPLICATE BY .*EXCEPT.*","the span of DEDUPLICATE BY ... EXCEPT ends before EXCEPT ("+G+")")
f("C06","Pos","ends after its parent: "+in_("ParamExprList","(FunctionExpr|EngineExpr)"),r".*[(].*[)].*","the span of a parametric function ends with its name, that of an engine before the parenthesis ("+G+")")
f("C06","Pos","ends after its parent: "+in_("TTLPolicy","TTLExpr"),".*TTL .*","the span of a TTL expression ends before its policy ("+G+")")
f("C06","Pos","ends after its parent: "+in_("RemovePropertyType","AlterTableModifyColumn"),".*MODIFY COLUMN .*REMOVE .*","the span of MODIFY COLUMN ... REMOVE ends before the property ("+G+")")
f("C06","Pos","span ends past the text: "+n("CreateUser"),".*CREATE USER .*DEFAULT DATABASE NONE *;?","CREATE USER ... DEFAULT DATABASE NONE ends past its text ("+G+")")
# C07
f("C07","Source","span does not end at a token: "+in_("Fill","OrderExpr"),".*WITH FILL.*","the span of a bare WITH FILL starts after it and ends past the next token ("+G+")")
f("C07","Source","span is not the string: "+in_("StringLiteral","ColumnDef"),".*COMMENT .*","the span of a column comment starts at COMMENT ("+G+")")
f("C07","Source","span is not the number: "+in_("NumberLiteral","CompressionCodec"),".*CODEC *[(].*","the span of a codec level starts at its parenthesis ("+G+")")
f("C07","Source","span is not the identifier: "+in_("Ident",".*"),".*[*].*","the span of * is empty ("+G+")")
f("C07","Source","span does not end at a token: "+in_("PlaceHolder",".*"),".*[?].*","the span of ? is empty ("+G+")")
f("C07","Source","span does not end at a token: "+n("DropStmt"),".*(DROP|DETACH) .*","the span of DROP ends at the token after it ("+G+")")
f("C07","Source","span does not end at a token: "+n("CreateTable"),".*(CREATE|ATTACH) .*","the span of CREATE TABLE without an engine ends at 0 ("+G+")")
f("C07","Source","span is not the number: "+in_("NumberLiteral","(OrderExpr|Fill)"),".*ORDER BY .*","numbers in ORDER BY start at ORDER, those of WITH FILL after it ("+G+")")
f("C07","Source","span does not end at a token: "+in_("CaseExpr",".*"),".*CASE .* END.*","the span of CASE ends at 0 ("+G+")")
f("C07","Source","span does not end at a token: "+in_("DistinctOn","SelectQuery"),".*DISTINCT ON.*","the span of DISTINCT ON ends at the token after it ("+G+")")
f("C07","Reparse","span parses to another expression: "+in_("FunctionExpr",".*"),r".*[)] *[(].*","the span of a parametric function ends with its first argument list ("+G+")")
k=json.load(open('/verif/known_findings.json'))
k['findings']=F
open('/verif/known_findings.json','w').write(json.dumps(k,indent=1,ensure_ascii=False)+'\n')
