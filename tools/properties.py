import json
P=[]
def p(id,title,statement,text,why,files,mech,observe,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
Pr="parser/"
p("C01","Parsing, formatting and traversal are total",
 "For every byte string, parsing returns statements or an error: it never panics, never runs forever and never overflows the stack. For everything it accepts, compact and beautified formatting, walking, visiting and reading positions return normally too.",
 "all inputs: valid, truncated, misspelt, with any bytes at any place","The tests run some hundreds of chosen statements; a nil clause or an unchecked lookahead shows up only on the particular truncation or combination nobody wrote down.",
 [Pr+"lexer.go",Pr+"parser_common.go",Pr+"parser_table.go",Pr+"format.go",Pr+"walk.go",Pr+"ast_visitor.go",Pr+"ast.go"],
 [("lexer bounds checks","Lexer.peekN/consumeToken"),("lookahead tokens checked before use","Parser.last, matchKeyword, expectKeyword"),("nil checks of optional clauses","FormatSQL, Walk, Accept, Pos and End of every node")],
 ["Parser.ParseStmts","Format","Formatter.WriteExpr","Walk","Expr.Accept","Expr.Pos/End"])
p("C02","Formatting keeps every token of the source",
 "What the parser accepts it also keeps: the compact formatting of an accepted text has the same words, names, literals and operators in the same order as the source, apart from documented normalisations (keyword case, white space, comments, optional AS, optional trailing commas, redundant parentheses, statement separators, clauses the formatter writes in a fixed order). Nothing that carries meaning is dropped and nothing is invented.",
 "all accepted inputs","Golden files fix the output for chosen statements; whether a clause, modifier or operator is lost in some other combination of clauses is not observable from them.",
 [Pr+"parser_query.go",Pr+"parser_column.go",Pr+"parser_table.go",Pr+"parser_alter.go",Pr+"parser_view.go",Pr+"parser_drop.go",Pr+"parse_system.go",Pr+"format.go"],
 [("every parsed clause is stored in the node","parse* functions"),("every stored clause is written","FormatSQL methods")],["Parser.ParseStmts","Format"])
p("C03","Formatted SQL parses back to the same AST",
 "For every accepted statement, its compact formatting is accepted, is exactly one statement, and parses to an AST equal to the original, ignoring source positions and the letter case of keywords.",
 "all accepted statements","Golden tests compare text with text; they do not re-parse, and cannot do so for all combinations of clauses and expressions.",
 [Pr+"format.go",Pr+"parser_column.go",Pr+"parser_query.go",Pr+"parser_table.go"],[("FormatSQL is the inverse of the parse functions","format.go")],["Parser.ParseStmts","Format"])
p("C04","Beautified SQL means the same as compact SQL",
 "For every accepted statement and every blank indentation string, the beautified text is accepted and parses to the same AST as the compact text: beautifying changes white space between tokens only.",
 "all accepted statements and indentations","Beautify golden files cover part of the statements, and no test re-parses what was beautified.",
 [Pr+"format.go"],[("Break, NewLine, Indent and Dedent only emit blanks between tokens","Formatter")],["Formatter.WithBeautify","Formatter.WriteExpr","Format"])
p("C05","Formatting is idempotent",
 "Formatting formatted SQL changes nothing: for every accepted statement, formatting the parse of its compact text gives that compact text again, byte for byte, and beautifying the parse of its beautified text gives that beautified text again.",
 "all accepted statements","Needs parse and format composed twice on arbitrary statements; the golden tests do it once on chosen ones.",
 [Pr+"format.go"],[("FormatSQL depends on the AST alone","format.go")],["Format","Formatter"])
p("C06","Source positions are in bounds and nested",
 "Every node reachable from a parsed statement has 0 <= Pos() <= End() <= len(input), and a child node lies within the span of its parent.",
 "all accepted inputs, all nodes","position_test.go checks a handful of nodes; spans are computed by hand in every parse function and End method, differently per optional clause.",
 [Pr+"ast.go",Pr+"parser_query.go",Pr+"parser_column.go",Pr+"parser_table.go",Pr+"parser_alter.go"],[("Pos and End of each node","ast.go"),("StatementEnd, ListEnd and the like set by the parser","parse* functions")],["Expr.Pos","Expr.End"])
p("C07","Positions give back the source text",
 "Slicing the source at a node's span yields that node: an identifier's or literal's span is exactly its text (without quotes), an expression's span, with the brackets at its edges completed, parses alone to an equal expression, a statement's span starts at the statement's first token, and every span starts and ends at token boundaries (those of strings and quoted names inside the quotes, ends possibly before the closing bracket).",
 "all accepted inputs, all identifiers, literals, expressions and statements in them","Needs an oracle over arbitrary nodes of arbitrary inputs; the tests compare chosen offsets.",
 [Pr+"ast.go",Pr+"lexer.go",Pr+"parser_column.go",Pr+"parser_query.go"],[("token positions","Lexer"),("Pos and End of each node","ast.go")],["Expr.Pos","Expr.End"])
p("C08","Walk reaches every node exactly once",
 "Walking a statement calls the callback on every non-nil AST node reachable from it, exactly once, parents before children; when the callback returns false no node below that one is visited, and the walk goes on with the rest as documented.",
 "all accepted statements, all callbacks that stop at some node","traversal_drift_test.go compares types on the sample corpus; a child that is only reachable through a rare clause is not in it.",
 [Pr+"walk.go",Pr+"ast.go"],[("one case per node type","Walk")],["Walk"])
p("C09","The visitor enters, visits and leaves every node",
 "Accepting a visitor calls Enter and Leave exactly once and properly nested for every node reachable from the statement, and the node's Visit method between its children and its Leave; an error from a Visit method stops the traversal and is returned unchanged.",
 "all accepted statements, all visits that fail at some node","As for walking; error propagation is only sampled on single nodes.",
 [Pr+"ast.go",Pr+"ast_visitor.go"],[("Accept of each node","ast.go"),("DefaultASTVisitor","ast_visitor.go")],["Expr.Accept","DefaultASTVisitor"])
p("C10","Operators bind as in ClickHouse",
 "The AST of an expression groups operators by ClickHouse's precedence (from loosest: ?:, OR, AND, NOT, comparisons with IS/IN/LIKE/BETWEEN, ||, additive, multiplicative, unary minus, access and cast operators) and left associativity: an expression parses to the same AST as its fully parenthesised form, apart from the parentheses.",
 "all expressions over the operators, to the depth of the templates","precedence_test.go checks chosen pairs; mixing of three operators, NOT, BETWEEN … AND and unary minus is combinatorial.",
 [Pr+"parser_column.go"],[("getNextPrecedence and parseSubExpr","parser_column.go")],["Parser.ParseStmts"])
p("C11","Keywords are case-insensitive",
 "Changing the letter case of keywords and data-independent words of a statement does not change whether it is accepted, nor its AST apart from the spelling of those words.",
 "all statements, all spellings of their keywords","Tests use upper case nearly everywhere.",
 [Pr+"lexer.go",Pr+"keyword.go",Pr+"parser_common.go"],[("keywords compared with EqualFold","matchKeyword, expectKeyword")],["Parser.ParseStmts"])
p("C12","White space and comments between tokens do not matter",
 "Replacing the blanks between two tokens by any other separator (spaces, tabs, newlines, line comments, block comments) does not change whether a statement is accepted, nor its AST apart from positions.",
 "all statements, all separators at all token boundaries","The samples have a fixed layout each.",
 [Pr+"lexer.go"],[("skipSpace and skipComments","lexer.go")],["Parser.ParseStmts"])
p("C13","Errors are structured and point at their place",
 "Every rejection is a *ParseError whose Pos is an offset of the input, whose Line and Column are those of Pos, whose Got token, if any, is the text of the input at Pos, and whose message shows that line with the caret under that column. No statements come with an error.",
 "all rejected inputs","error_test.go checks three inputs; there are some hundreds of error sites.",
 [Pr+"error.go",Pr+"source.go",Pr+"parser_common.go"],[("wrapError, errorAt","parser_common.go"),("lineStarts","source.go")],["Parser.ParseStmts","ParseError"])
p("C14","Tokens end where the lexical rules end them",
 "Strings, quoted identifiers, comments, numbers, words and operators are delimited by ClickHouse's lexical rules: input with a malformed token (unclosed string, quote or comment, malformed number, foreign byte) is rejected, and the identifiers and literals of an accepted input's AST are tokens of the input with exactly its text.",
 "all byte strings in token position","lexer_test.go samples tokens; escapes, doubled quotes, exponents and token adjacency are unbounded.",
 [Pr+"lexer.go",Pr+"helper.go"],[("consumeString, consumeNumber, consumeIdent","lexer.go")],["Parser.ParseStmts"])
p("C15","Statements are split at semicolons only",
 "Parsing statements joined by semicolons gives the statements of the parts one after another, whatever each part is, and semicolons inside strings, quoted identifiers and comments do not split; two statements without a semicolon between them are rejected.",
 "all pairs of statements","Only a few multi-statement samples exist.",
 [Pr+"parser_table.go"],[("ParseStmts","parser_table.go")],["Parser.ParseStmts"])
p("C16","Parsing and formatting are deterministic and pure",
 "Parsing the same text twice gives equal results, formatting the same AST twice gives the same text, no matter in which order maps are iterated, and formatting, walking, visiting and reading positions leave the AST unchanged.",
 "all inputs, all map iteration orders","A test run sees one map order at a time and does not compare the AST before and after.",
 [Pr+"format.go",Pr+"keyword.go",Pr+"set.go",Pr+"walk.go"],[("no map iteration on output paths","format.go"),("read-only methods","ast.go")],["Parser.ParseStmts","Format","Walk"],("inputs","schedules"))
p("C17","Literals and quoted identifiers are verbatim",
 "The text of string literals, numbers and quoted identifiers, including quotes, escapes, newlines and non-ASCII bytes, is the same in the source, in the AST and in compact and beautified output.",
 "all literal contents, all places where a literal may stand","Samples have plain literals; escapes, newlines and semicolons inside them are rare.",
 [Pr+"lexer.go",Pr+"format.go"],[("StringLiteral, NumberLiteral and Ident FormatSQL","format.go")],["Parser.ParseStmts","Format","Formatter"])
p("C18","Supported SQL is accepted",
 "Every sentence of the documented ClickHouse grammar that the project supports is accepted, with every combination of its optional clauses, every keyword spelling and with identifiers that happen to be unreserved words.",
 "all sentences of the grammar given by the templates","The samples combine few optional clauses at a time.",
 [Pr+"parser_query.go",Pr+"parser_column.go",Pr+"parser_table.go",Pr+"parser_alter.go",Pr+"parser_view.go",Pr+"parse_system.go"],[("parse* functions","parser")],["Parser.ParseStmts"])
p("C19","Incomplete and malformed SQL is rejected",
 "A text that no reading of the grammar covers is rejected, never silently accepted: a sentence cut off before a required part, unbalanced brackets, a missing operand or separator, trailing garbage.",
 "all truncations and single-token corruptions of the templates","TestParser_InvalidSyntax samples some dozens.",
 [Pr+"parser_common.go",Pr+"parser_table.go",Pr+"parser_column.go"],[("expectKeyword, expectTokenKind","parser_common.go"),("end-of-statement check","ParseStmts")],["Parser.ParseStmts"])
p("C20","Work grows reasonably with nesting and length",
 "Parsing and formatting an input of nested or repeated constructs takes work polynomial of low degree in its length: no construct makes the work grow exponentially with nesting depth.",
 "all nestable constructs, to the depths given","No test nests deeper than a few levels.",
 [Pr+"parser_column.go",Pr+"parser_query.go",Pr+"lexer.go"],[("bounded backtracking","savedState and lookahead in the parse functions")],["Parser.ParseStmts","Format"])
p("C21","Quoted identifiers are never keywords",
 "An identifier in backquotes or double quotes is a name whatever it spells: replacing a quoted name by a quoted keyword changes nothing but that name, and it is never taken for a keyword.",
 "all keywords in all places where a quoted name may stand","Samples hardly quote keywords.",
 [Pr+"lexer.go",Pr+"parser_common.go"],[("token kind checked with the text in matchKeyword","parser_common.go")],["Parser.ParseStmts"])
p("C22","The search and rewrite helpers agree with Walk",
 "FindAll returns exactly the nodes Walk visits for which the predicate holds, in that order; Find returns the first of them; WalkWithBreak visits a prefix of Walk's order that ends at the node where the callback returned false; Transform returns the node the transformer gives for the root, and changes nothing if it is the identity.",
 "all accepted statements, all predicates and break points","walk_test.go samples single predicates.",
 [Pr+"walk.go"],[("Find, FindAll, WalkWithBreak, Transform","walk.go")],["Find","FindAll","WalkWithBreak","Transform"])
p("C23","The set type is a set",
 "After any sequence of additions and removals, a Set contains exactly the members added and not removed since, and lists each of them once.",
 "all sequences of operations to the bound","set_test.go runs one sequence.",
 [Pr+"set.go"],[("Set","set.go")],["Set.Add","Set.Remove","Set.Contains","Set.Members"],("histories",))
p("C24","The command line prints what the library computes",
 "The command reads SQL from its argument or file, prints the AST as JSON, the formatted or the beautified SQL of every statement, and exits non-zero with the error on standard error if parsing fails.",
 "all invocations","There is no test of the command.",
 ["main.go"],[("main","main.go")],["process exit status and output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
