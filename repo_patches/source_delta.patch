From 7e3f3e894dd8420594031e8867aef74a8b2570fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 01/44] fix: do not drop a final token or swallow a lexical
 error at end of input

---
 parser/lexer.go        | 13 +++++++++----
 parser/parser_table.go |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..0d8a667 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -192,6 +192,7 @@ func (l *Lexer) consumeNumber() error {
 func (l *Lexer) consumeIdent(_ Pos) error {
 	token := &Token{}
 	quoteType := Unquoted
+	start := l.offset
 	if l.peekOk(0) && (l.peekN(0) == '`' || l.peekN(0) == '"') {
 		if l.peekOk(0) && l.peekN(0) == '`' {
 			quoteType = BackTicks
@@ -216,7 +217,9 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			l.offset = start
+			return err
 		}
 	}
 	slice := l.slice(0, i)
@@ -252,8 +255,7 @@ func (l *Lexer) consumeSingleLineComment() {
 }
 
 func (l *Lexer) consumeMultiLineComment() error {
-	l.skipN(2)
-	i := 0
+	i := 2
 	for l.peekOk(i) {
 		if l.peekOk(i+1) && l.peekN(i) == '*' && l.peekN(i+1) == '/' {
 			l.skipN(i + 2)
@@ -261,7 +263,6 @@ func (l *Lexer) consumeMultiLineComment() error {
 		}
 		i++
 	}
-	l.skipN(i)
 	return errors.New("unclosed multi-line comment")
 }
 
@@ -336,6 +337,7 @@ func (l *Lexer) skipComments() error {
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
 	if err := l.consumeToken(); err != nil {
+		l.restoreState(savedState)
 		return nil, err
 	}
 	token := l.currentToken
@@ -356,6 +358,9 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindRBracket)
 }
 
+// consumeToken advances to the next token. On a lexical error there is no
+// current token and the offset stays at the malformed text, so the next call
+// reports the same error again: a caller may ignore it, but not skip it.
 func (l *Lexer) consumeToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..170ee2b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 00e45982b3b631755343cf2c60b8f65baa9f991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 02/44] fix: no nil dereference on truncated user, role,
 partition and reload clauses

---
 parser/ast.go          |  8 ++++++++
 parser/parse_system.go | 30 ++++++++++++++++++++----------
 parser/parser_alter.go |  4 +++-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..574c336 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.End()
+	}
 	return s.Value.End()
 }
 
@@ -2313,6 +2316,8 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+
+	allEnd Pos // end of the ALL keyword
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2323,6 +2328,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.All {
+		return p.allEnd
+	}
 	return p.Expr.End()
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..000f8d6 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,7 +83,7 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.End()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
@@ -474,6 +474,13 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, &ParseError{
+			Pos:      p.Pos(),
+			Got:      p.current(),
+			Expected: []TokenKind{TokenKindIdent},
+		}
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
@@ -570,14 +577,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.End()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.End()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +601,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +615,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +643,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.End()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +673,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.End()
 		return defaultRole, nil
 	}
 
@@ -699,10 +706,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -810,6 +817,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	if err != nil {
 		return false, err
 	}
+	if nextToken == nil {
+		return false, nil
+	}
 
 	if nextToken.String == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
@@ -824,7 +834,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.End()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..5ac6c3a 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -375,8 +375,10 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 			return nil, err
 		}
 		partition.ID = id
-	} else if p.tryConsumeKeywords(KeywordAll) {
+	} else if p.matchKeyword(KeywordAll) {
 		partition.All = true
+		partition.allEnd = p.End()
+		_ = p.lexer.consumeToken()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
-- 
2.43.0


From 10d385bb2de5999a4d909115e5a618231e79d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 03/44] fix: judge end of input by the lookahead token in
 clause loops

---
 parser/parser_alter.go  |  2 +-
 parser/parser_column.go | 34 +++++++++++++++++-----------------
 parser/parser_table.go  | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 5ac6c3a..6b92dfe 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..063a405 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -290,7 +290,7 @@ func (p *Parser) parseSubExpr(pos Pos, precedence int) (Expr, error) {
 // left the '+' for the statement parser to reject as unexpected trailing input,
 // and `SELECT a GLOBAL` silently read the operator as an implicit alias.
 func (p *Parser) parseInfixLoop(expr Expr, precedence int) (Expr, error) {
-	for !p.lexer.isEOF() || p.current() != nil {
+	for p.current() != nil {
 		nextPrecedence := p.getNextPrecedence()
 		if nextPrecedence <= precedence {
 			return expr, nil
@@ -353,7 +353,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 	}
 
 	parameters := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -425,7 +425,7 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 }
 
 func (p *Parser) peekTokenKind(kind TokenKind) bool {
-	if p.lexer.isEOF() {
+	if p.current() == nil {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -436,7 +436,7 @@ func (p *Parser) peekTokenKind(kind TokenKind) bool {
 }
 
 func (p *Parser) peekKeyword(keyword string) bool {
-	if p.lexer.isEOF() {
+	if p.current() == nil {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -735,7 +735,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	}
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for p.current() != nil {
 		if term != "" && p.matchTokenKind(term) {
 			break
 		}
@@ -760,7 +760,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 
 func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 	selectItems := make([]*SelectItem, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for p.current() != nil {
 		selectItem, err := p.parseSelectItem()
 		if err != nil {
 			return nil, err
@@ -832,7 +832,7 @@ func (p *Parser) parseColumnArgList(pos Pos) (*ColumnArgList, error) {
 	distinct := p.tryConsumeKeywords(KeywordDistinct)
 
 	var items []Expr
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -976,7 +976,7 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	// index runs across the list instead of resetting per item.
 	slot := 0
 	usedSeparator, usedComma := false, false
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, consumed, err := p.parseKeywordArgItem(form, slot, !(form.ClosedKeywordForm && usedComma))
 		if err != nil {
 			return nil, err
@@ -1077,7 +1077,7 @@ func (p *Parser) parseMapLiteral(pos Pos) (*MapLiteral, error) {
 	}
 
 	keyValues := make([]KeyValue, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRBrace) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRBrace) {
 		key, err := p.parseString(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1347,7 +1347,7 @@ func (p *Parser) parseColumnPropertyType(_ Pos) (Expr, error) {
 
 func (p *Parser) parseComplexType(name *Ident, pos Pos) (*ComplexType, error) {
 	subTypes := make([]ColumnType, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		subExpr, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1375,7 +1375,7 @@ func (p *Parser) parseEnumType(name *Ident, pos Pos) (*EnumType, error) {
 		ListPos: pos,
 		Values:  make([]EnumValue, 0),
 	}
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		enumValue, err := p.parseEnumValueExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1404,7 +1404,7 @@ func (p *Parser) parseColumnTypeWithParams(name *Ident, pos Pos) (*TypeWithParam
 		return nil, err
 	}
 	params = append(params, param)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		size, err := p.parseLiteral(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1432,7 +1432,7 @@ func (p *Parser) parseJSONPath() (*JSONPath, error) {
 	}
 	idents = append(idents, ident)
 
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindDot) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindDot) != nil {
 		ident, err := p.parseAnyKeyword()
 		if err != nil {
 			return nil, err
@@ -1548,7 +1548,7 @@ func (p *Parser) parseJSONType(name *Ident, pos Pos) (*JSONType, error) {
 	}
 
 	options := make([]*JSONOption, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		option, err := p.parseJSONOption()
 		if err != nil {
 			return nil, err
@@ -1593,7 +1593,7 @@ func (p *Parser) parseNestedType(name *Ident, pos Pos) (*NestedType, error) {
 
 func (p *Parser) parseNestedTypeFields() ([]Expr, error) {
 	switch {
-	case p.lexer.isEOF() || p.matchTokenKind(TokenKindRParen):
+	case p.current() == nil || p.matchTokenKind(TokenKindRParen):
 		// Cases like `Tuple()`
 		return []Expr{}, nil
 	case p.matchTokenKind(TokenKindIdent):
@@ -1635,7 +1635,7 @@ func (p *Parser) parseNestedTypeFieldsWithNames(columnName *Ident) ([]Expr, erro
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseNestedTypeFieldWithName()
 		if err != nil {
 			return nil, err
@@ -1667,7 +1667,7 @@ func (p *Parser) parseNestedTypeFieldsWithoutNames(columnType *Ident) ([]Expr, e
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 170ee2b..cfa597c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -817,7 +817,7 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 	}
 
 	args := make([]Expr, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		// Check if this is a named parameter (identifier followed by =)
 		var arg Expr
 		var err error
@@ -999,7 +999,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 		}
 		items = append(items, expr)
 
-		if p.lexer.isEOF() || p.tryConsumeTokenKind(TokenKindComma) == nil {
+		if p.current() == nil || p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
 	}
@@ -1196,7 +1196,7 @@ func (p *Parser) parseTTLClause(pos Pos, allowMultiValues bool) ([]*TTLExpr, err
 		return nil, err
 	}
 	items = append(items, expr)
-	for allowMultiValues && !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for allowMultiValues && p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		expr, err = p.parseTTLExpr(pos)
 		if err != nil {
 			return nil, err
@@ -1433,7 +1433,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 		return nil, fmt.Errorf("unexpected token: %s", p.currentTokenKind())
 	}
 
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
@@ -1818,7 +1818,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1876,7 +1876,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1944,7 +1944,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		for p.current() != nil {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From bd414e918af196158a6fd6cc886bbcb369d83483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 04/44] fix: require the partition after IN and keep INDEX
 before IF NOT EXISTS in ALTER

---
 parser/format.go       | 12 ++++++++----
 parser/parser_alter.go |  8 +++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 752c746..f782ce4 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -249,11 +249,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2624,8 +2624,12 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 }
 
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("INDEX")
-	formatter.WriteByte(whitespace)
+	formatter.WriteString("INDEX ")
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition writes the index without the INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 6b92dfe..03f81c6 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -568,13 +568,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
@@ -821,7 +819,7 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 90764e723dc6aee99279d4f995fd7f6a65855d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 05/44] fix: keep the words of SYSTEM, GRANT and CHECK
 statements

---
 parser/ast.go          |  3 +++
 parser/format.go       |  5 +++--
 parser/parse_system.go | 20 ++++++++++----------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 574c336..326d938 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6232,6 +6232,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
diff --git a/parser/format.go b/parser/format.go
index f782ce4..df52f23 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1562,8 +1562,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
@@ -2507,6 +2507,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2531,7 +2532,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 000f8d6..7dc133a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -154,21 +154,22 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 
 	var typ string
 	switch {
-	case p.tryConsumeKeywords(KeywordDistributed):
+	case p.matchOneOfKeywords(KeywordDistributed, KeywordFetches, KeywordMerges, KeywordTtl):
 		switch {
-		case p.matchKeyword(KeywordSends):
+		case p.tryConsumeKeywords(KeywordDistributed):
 			typ = "DISTRIBUTED SENDS"
-		case p.matchKeyword(KeywordFetches):
+			if err := p.expectKeyword(KeywordSends); err != nil {
+				return nil, err
+			}
+		case p.tryConsumeKeywords(KeywordFetches):
 			typ = "FETCHES"
-		case p.matchKeyword(KeywordMerges):
+		case p.tryConsumeKeywords(KeywordMerges):
 			typ = "MERGES"
-		case p.matchKeyword(KeywordTtl):
+		case p.tryConsumeKeywords(KeywordTtl):
 			typ = "TTL MERGES"
 			if err := p.expectKeyword(KeywordMerges); err != nil {
 				return nil, err
 			}
-		default:
-			return nil, fmt.Errorf("expected SENDS|FETCHES|MERGES|TTL")
 		}
 		cluster, err := p.parseTableIdentifier(p.Pos())
 		if err != nil {
@@ -194,7 +195,7 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 			Type:         typ,
 		}, nil
 	default:
-		return nil, fmt.Errorf("expected DISTRIBUTED|REPLICATED")
+		return nil, fmt.Errorf("expected DISTRIBUTED|FETCHES|MERGES|TTL|REPLICATED")
 	}
 }
 
@@ -1042,7 +1043,6 @@ func (p *Parser) parsePrivilegeAlter(pos Pos) (*PrivilegeClause, error) {
 			keywords = append(keywords, KeywordColumn)
 		case p.tryConsumeKeywords(KeywordIndex):
 			keywords = append(keywords, KeywordIndex)
-			keywords = append(keywords, KeywordConstraint)
 		case p.tryConsumeKeywords(KeywordTtl):
 			keywords = append(keywords, KeywordTtl)
 		default:
@@ -1146,7 +1146,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
-- 
2.43.0


From ad0d30a370a03b9f47aa3849da15e6a464d14ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 06/44] fix: keep FUNCTION in INSERT and require what NOT and
 VALUES announce

---
 parser/format.go       | 3 +++
 parser/parser_table.go | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index df52f23..2c4fdae 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1685,6 +1685,9 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.HasTableKeyword {
 		formatter.WriteString("TABLE ")
 	}
+	if _, ok := i.Table.(*FunctionExpr); ok {
+		formatter.WriteString("FUNCTION ")
+	}
 	formatter.WriteExpr(i.Table)
 	if i.ColumnNames != nil {
 		formatter.Break()
diff --git a/parser/parser_table.go b/parser/parser_table.go
index cfa597c..308289e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1635,6 +1635,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchOneOfKeywords(KeywordLike, KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
@@ -1818,7 +1821,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1876,7 +1879,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1944,7 +1947,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for p.current() != nil {
+		for {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 85de6756b1c2929f4077ac4119156fd32208ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 07/44] fix: keep WITH TOTALS, WINDOW, DISTINCT and set operand
 parentheses of a query

---
 parser/ast.go          |  2 ++
 parser/format.go       | 35 +++++++++++++++++++++++++++--------
 parser/parser_query.go | 28 +++++++++++++++++++++-------
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 326d938..6de8ea0 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5298,6 +5298,8 @@ type SelectQuery struct {
 	UnionDistinct *SelectQuery
 	Except        *SelectQuery
 	Intersect     *SelectQuery
+
+	hasParen bool // a set operand written in parentheses
 }
 
 func (s *SelectQuery) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 2c4fdae..324332c 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -649,6 +649,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
@@ -2331,10 +2334,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2347,10 +2346,18 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
@@ -2375,22 +2382,34 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteString("UNION ALL")
 		formatter.Break()
-		formatter.WriteExpr(s.UnionAll)
+		s.UnionAll.formatOperand(formatter)
 	} else if s.UnionDistinct != nil {
 		formatter.Break()
 		formatter.WriteString("UNION DISTINCT")
 		formatter.Break()
-		formatter.WriteExpr(s.UnionDistinct)
+		s.UnionDistinct.formatOperand(formatter)
 	} else if s.Except != nil {
 		formatter.Break()
 		formatter.WriteString("EXCEPT")
 		formatter.Break()
-		formatter.WriteExpr(s.Except)
+		s.Except.formatOperand(formatter)
 	} else if s.Intersect != nil {
 		formatter.Break()
 		formatter.WriteString("INTERSECT")
 		formatter.Break()
-		formatter.WriteExpr(s.Intersect)
+		s.Intersect.formatOperand(formatter)
+	}
+}
+
+// formatOperand writes the query as the right operand of a set operation,
+// which groups differently when it is parenthesized.
+func (s *SelectQuery) formatOperand(formatter *Formatter) {
+	if s.hasParen {
+		formatter.WriteByte('(')
+	}
+	formatter.WriteExpr(s)
+	if s.hasParen {
+		formatter.WriteByte(')')
 	}
 }
 
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..1a87c83 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1062,13 +1062,13 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 	case p.tryConsumeKeywords(KeywordUnion):
 		switch {
 		case p.tryConsumeKeywords(KeywordAll):
-			unionAllExpr, err := p.parseSelectQuery(p.Pos())
+			unionAllExpr, err := p.parseSetOperand()
 			if err != nil {
 				return nil, err
 			}
 			selectStmt.UnionAll = unionAllExpr
 		case p.tryConsumeKeywords(KeywordDistinct):
-			unionDistinctExpr, err := p.parseSelectQuery(p.Pos())
+			unionDistinctExpr, err := p.parseSetOperand()
 			if err != nil {
 				return nil, err
 			}
@@ -1077,13 +1077,13 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 			return nil, fmt.Errorf("expected ALL or DISTINCT, got %s", p.currentTokenKind())
 		}
 	case p.tryConsumeKeywords(KeywordExcept):
-		exceptExpr, err := p.parseSelectQuery(p.Pos())
+		exceptExpr, err := p.parseSetOperand()
 		if err != nil {
 			return nil, err
 		}
 		selectStmt.Except = exceptExpr
 	case p.tryConsumeKeywords(KeywordIntersect):
-		intersectExpr, err := p.parseSelectQuery(p.Pos())
+		intersectExpr, err := p.parseSetOperand()
 		if err != nil {
 			return nil, err
 		}
@@ -1097,6 +1097,17 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 	return selectStmt, nil
 }
 
+// parseSetOperand parses the right operand of UNION, EXCEPT or INTERSECT.
+func (p *Parser) parseSetOperand() (*SelectQuery, error) {
+	hasParen := p.matchTokenKind(TokenKindLParen)
+	operand, err := p.parseSelectQuery(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	operand.hasParen = hasParen
+	return operand, nil
+}
+
 func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: funlen
 	withClause, err := p.tryParseWithClause(pos)
 	if err != nil {
@@ -1107,9 +1118,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From e049d02ce7bf817d0a56cd7401c8ada0bfd1286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 08/44] =?UTF-8?q?fix:=20keep=20UUID=20of=20live=20views,?=
 =?UTF-8?q?=20CONSTRAINT=20=E2=80=A6=20CHECK,=20DETACH=20and=20the=20order?=
 =?UTF-8?q?=20of=20column=20clauses?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 parser/ast.go          |  4 ++++
 parser/format.go       | 29 ++++++++++++++++++++++-------
 parser/parser_drop.go  |  6 ++++--
 parser/parser_table.go |  8 ++++----
 4 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 6de8ea0..66ad96c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5588,6 +5588,8 @@ type DropDatabase struct {
 	IfExists     bool
 	OnCluster    *ClusterClause
 	Modifier     string
+
+	isDetach bool
 }
 
 func (d *DropDatabase) Pos() Pos {
@@ -5626,6 +5628,8 @@ type DropStmt struct {
 	OnCluster   *ClusterClause
 	IsTemporary bool
 	Modifier    string
+
+	isDetach bool
 }
 
 func (d *DropStmt) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 324332c..1a9aad2 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -684,6 +684,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -692,10 +696,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
@@ -770,8 +770,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
@@ -861,6 +862,11 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 	}
 	formatter.WriteExpr(c.Name)
 
+	if c.UUID != nil {
+		formatter.Break()
+		formatter.WriteExpr(c.UUID)
+	}
+
 	if c.OnCluster != nil {
 		formatter.Break()
 		formatter.WriteExpr(c.OnCluster)
@@ -1396,8 +1402,16 @@ func (s *DistinctOn) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte(')')
 }
 
+func dropVerb(isDetach bool) string {
+	if isDetach {
+		return KeywordDetach
+	}
+	return KeywordDrop
+}
+
 func (d *DropDatabase) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP DATABASE ")
+	formatter.WriteString(dropVerb(d.isDetach))
+	formatter.WriteString(" DATABASE ")
 	if d.IfExists {
 		formatter.WriteString("IF EXISTS ")
 	}
@@ -1412,7 +1426,8 @@ func (d *DropDatabase) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropStmt) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP ")
+	formatter.WriteString(dropVerb(d.isDetach))
+	formatter.WriteByte(whitespace)
 	if d.IsTemporary {
 		formatter.WriteString("TEMPORARY ")
 	}
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index dc06329..f2d9089 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -1,6 +1,6 @@
 package parser
 
-func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
+func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error) {
 	if err := p.expectKeyword(KeywordDatabase); err != nil {
 		return nil, err
 	}
@@ -40,10 +40,11 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 		OnCluster:    onCluster,
 		Modifier:     modifier,
 		StatementEnd: statementEnd,
+		isDetach:     isDetach,
 	}, nil
 }
 
-func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
+func (p *Parser) parseDropStmt(pos Pos, isDetach bool) (*DropStmt, error) {
 	var isTemporary bool
 	dropTarget := KeywordTable
 	switch {
@@ -87,6 +88,7 @@ func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
 		IsTemporary:  isTemporary,
 		Modifier:     modifier,
 		StatementEnd: p.Pos(),
+		isDetach:     isDetach,
 	}, nil
 }
 
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 308289e..728db9c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -53,17 +53,17 @@ func (p *Parser) parseDDL(pos Pos) (DDL, error) {
 		}
 	case p.matchKeyword(KeywordDrop),
 		p.matchKeyword(KeywordDetach):
+		isDetach := p.matchKeyword(KeywordDetach)
 		_ = p.lexer.consumeToken()
 		switch {
 		case p.matchKeyword(KeywordDatabase):
-			return p.parseDropDatabase(pos)
+			return p.parseDropDatabase(pos, isDetach)
 		case p.matchKeyword(KeywordTemporary),
 			p.matchKeyword(KeywordView),
 			p.matchKeyword(KeywordDictionary),
 			p.matchKeyword(KeywordTable):
-			return p.parseDropStmt(pos)
-		case p.matchKeyword(KeywordUser),
-			p.matchKeyword(KeywordRole):
+			return p.parseDropStmt(pos, isDetach)
+		case !isDetach && p.matchOneOfKeywords(KeywordUser, KeywordRole):
 			return p.parserDropUserOrRole(pos)
 		default:
 			return nil, fmt.Errorf("expected keyword: DATABASE|TABLE, but got %q", p.currentTokenString())
-- 
2.43.0


From 77b63f82e16c9c18881274389db559c301114fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 09/44] fix: keep the comma of a one element tuple, reject
 stray commas and a bare WITH

---
 parser/ast.go           |  3 +++
 parser/format.go        |  5 +++++
 parser/parse_system.go  |  2 ++
 parser/parser_column.go |  5 ++++-
 parser/parser_table.go  | 16 +++-------------
 5 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 66ad96c..4e862a9 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3864,6 +3864,9 @@ type ColumnExprList struct {
 	ListEnd     Pos
 	HasDistinct bool
 	Items       []Expr
+
+	// trailingComma tells the tuple (a,) from the expression (a).
+	trailingComma bool
 }
 
 func (c *ColumnExprList) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 1a9aad2..f002f26 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -716,6 +716,9 @@ func (c *ColumnExprList) FormatSQL(formatter *Formatter) {
 			formatter.WriteString(", ")
 		}
 	}
+	if c.trailingComma {
+		formatter.WriteByte(',')
+	}
 }
 
 func (c *ColumnNamesExpr) FormatSQL(formatter *Formatter) {
@@ -2710,6 +2713,8 @@ func (t *TableSchemaClause) FormatSQL(formatter *Formatter) {
 		formatter.Dedent()
 		formatter.NewLine()
 		formatter.WriteByte(')')
+	} else if t.AliasTable == nil && t.TableFunction == nil {
+		formatter.WriteString("()")
 	}
 	if t.AliasTable != nil {
 		formatter.WriteString(" AS ")
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 7dc133a..a3292be 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -626,6 +626,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected authentication type after WITH, got %q", p.currentTokenString())
 		}
 	}
 
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 063a405..7b80453 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -735,6 +735,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	}
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
+	hasComma := false
 	for p.current() != nil {
 		if term != "" && p.matchTokenKind(term) {
 			break
@@ -747,11 +748,13 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 			break
 		}
 		columnList = append(columnList, columnExpr)
-		if p.tryConsumeTokenKind(TokenKindComma) == nil {
+		hasComma = p.tryConsumeTokenKind(TokenKindComma) != nil
+		if !hasComma {
 			break
 		}
 	}
 	columnExprList.Items = columnList
+	columnExprList.trailingComma = hasComma && len(columnList) == 1 && term == TokenKindRParen
 	if len(columnList) > 0 {
 		columnExprList.ListEnd = columnList[len(columnList)-1].End()
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 728db9c..819b8ed 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for p.current() != nil {
+	for {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for p.current() != nil {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -642,13 +642,10 @@ func (p *Parser) parseTableColumns() ([]Expr, error) {
 			}
 			columns = append(columns, projection)
 		default:
-			column, err := p.tryParseTableColumnExpr(p.Pos())
+			column, err := p.parseTableColumnExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-			if column == nil {
-				break
-			}
 			columns = append(columns, column)
 		}
 		if p.tryConsumeTokenKind(TokenKindComma) == nil {
@@ -659,13 +656,6 @@ func (p *Parser) parseTableColumns() ([]Expr, error) {
 	return columns, nil
 }
 
-func (p *Parser) tryParseTableColumnExpr(pos Pos) (*ColumnDef, error) {
-	if !p.matchTokenKind(TokenKindIdent) {
-		return nil, nil // nolint
-	}
-	return p.parseTableColumnExpr(pos)
-}
-
 func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	// Not a column definition, just return
 	column := &ColumnDef{NamePos: pos}
-- 
2.43.0


From 72f023575eb0ce59cd7577dcb8b1e86f2909d56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 10/44] fix: +> is no arrow, and a dot after a number is no
 decimal point

---
 parser/format.go | 12 ++++++++++++
 parser/lexer.go  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index f002f26..c547142 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1697,6 +1697,18 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
+	operand := i.Object
+	for {
+		unary, ok := operand.(*UnaryExpr)
+		if !ok {
+			break
+		}
+		operand = unary.Expr
+	}
+	if _, ok := operand.(*NumberLiteral); ok {
+		// the dot would read as a decimal point
+		formatter.WriteByte(whitespace)
+	}
 	formatter.WriteString(string(i.Operation))
 	formatter.WriteExpr(i.Index)
 }
diff --git a/parser/lexer.go b/parser/lexer.go
index 0d8a667..c1a952f 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -392,7 +392,7 @@ func (l *Lexer) consumeToken() error {
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
 			return l.consumeNumber()
-		} else if l.peekOk(1) && l.peekN(1) == '>' {
+		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
 				Kind:   TokenKindArrow,
-- 
2.43.0


From d40e3315aad95c7ae83dcb0b09b028dc03cc6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 11/44] fix: COMMENT after the query of a view is no alias

---
 parser/parser_column.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 7b80453..264ce8a 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1208,7 +1208,7 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 		if err != nil {
 			return nil, err
 		}
-	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword():
+	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword() && !p.matchCommentClause():
 		// A bare alias can be a normal identifier or non-reserved keyword; a
 		// reserved keyword here starts the next clause (e.g. `SELECT a FROM ...`).
 		alias, err = p.parseIdent()
@@ -1226,6 +1226,16 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 	}, nil
 }
 
+// matchCommentClause reports whether a COMMENT clause starts here, as after the
+// query of a view, rather than a name spelled COMMENT.
+func (p *Parser) matchCommentClause() bool {
+	if !p.matchKeyword(KeywordComment) {
+		return false
+	}
+	next, err := p.lexer.peekToken()
+	return err == nil && next != nil && next.Kind == TokenKindString
+}
+
 func (p *Parser) parseColumnCaseExpr(pos Pos) (*CaseExpr, error) {
 	// CASE expr
 	caseExpr := &CaseExpr{CasePos: pos}
-- 
2.43.0


From 10c9c728f5ca549a0cd75b92204352009aba8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 12/44] =?UTF-8?q?fix:=20a=20query=20after=20ORDER=20BY=20?=
 =?UTF-8?q?=E2=80=A6=20AS=20is=20no=20alias?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 parser/parser_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 819b8ed..0ab39c1 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1022,8 +1022,8 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
-		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		// It should be a subquery instead of an order by alias if a query follows the `AS`.
+		if p.peekKeyword(KeywordSelect) || p.peekKeyword(KeywordWith) || p.peekTokenKind(TokenKindLParen) {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From db955e7e0d60e02b2bb95b8d24c332c7ec8a6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 13/44] fix: ends and starts of spans that missed their clauses
 or ran past the text

---
 parser/ast.go           | 44 ++++++++++++++++++++++++++---------------
 parser/lexer.go         |  4 ++++
 parser/parse_system.go  |  4 ++++
 parser/parser_alter.go  |  4 ++--
 parser/parser_common.go |  5 +++++
 parser/parser_drop.go   |  2 +-
 parser/parser_table.go  |  9 ++++++---
 parser/parser_view.go   |  2 ++
 8 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 4e862a9..d609282 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -283,6 +283,9 @@ func (a *AlterTableDetachPartition) Pos() Pos {
 }
 
 func (a *AlterTableDetachPartition) End() Pos {
+	if a.Settings != nil {
+		return a.Settings.End()
+	}
 	return a.Partition.End()
 }
 
@@ -2868,6 +2871,9 @@ func (f *ParamExprList) Pos() Pos {
 }
 
 func (f *ParamExprList) End() Pos {
+	if f.ColumnArgList != nil {
+		return f.ColumnArgList.End()
+	}
 	return f.RightParenPos
 }
 
@@ -3693,7 +3699,7 @@ type EnumType struct {
 }
 
 func (e *EnumType) Pos() Pos {
-	return e.ListPos
+	return e.Name.Pos()
 }
 
 func (e *EnumType) End() Pos {
@@ -4313,25 +4319,27 @@ func (d *DictionaryEngineClause) Pos() Pos {
 }
 
 func (d *DictionaryEngineClause) End() Pos {
-	if d.Settings != nil {
-		return d.Settings.End()
-	}
-	if d.Range != nil {
-		return d.Range.End()
+	// the clauses may come in any order
+	end := d.EnginePos
+	if d.PrimaryKey != nil {
+		end = max(end, d.PrimaryKey.End())
 	}
-	if d.Layout != nil {
-		return d.Layout.End()
+	if d.Source != nil {
+		end = max(end, d.Source.End())
 	}
 	if d.Lifetime != nil {
-		return d.Lifetime.End()
+		end = max(end, d.Lifetime.End())
 	}
-	if d.Source != nil {
-		return d.Source.End()
+	if d.Layout != nil {
+		end = max(end, d.Layout.End())
 	}
-	if d.PrimaryKey != nil {
-		return d.PrimaryKey.End()
+	if d.Range != nil {
+		end = max(end, d.Range.End())
 	}
-	return d.EnginePos
+	if d.Settings != nil {
+		end = max(end, d.Settings.End())
+	}
+	return end
 }
 
 func (d *DictionaryEngineClause) Accept(visitor ASTVisitor) error {
@@ -4821,7 +4829,7 @@ type AliasExpr struct {
 }
 
 func (a *AliasExpr) Pos() Pos {
-	return a.AliasPos
+	return a.Expr.Pos()
 }
 
 func (a *AliasExpr) End() Pos {
@@ -4946,9 +4954,13 @@ func (l *LimitClause) Pos() Pos {
 }
 
 func (l *LimitClause) End() Pos {
-	if l.Offset != nil {
+	if l.Limit == nil {
 		return l.Offset.End()
 	}
+	if l.Offset != nil {
+		// LIMIT n OFFSET m, or LIMIT m, n
+		return max(l.Limit.End(), l.Offset.End())
+	}
 	return l.Limit.End()
 }
 
diff --git a/parser/lexer.go b/parser/lexer.go
index c1a952f..83cc327 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -77,6 +77,7 @@ func (t *Token) ToString() string {
 type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
+	lastEnd      Pos    // end of the token consumed last
 }
 
 type Lexer struct {
@@ -364,6 +365,9 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 func (l *Lexer) consumeToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
+	if prevToken != nil {
+		l.lastEnd = prevToken.End
+	}
 	l.currentToken = nil
 	if err := l.skipComments(); err != nil {
 		return err
diff --git a/parser/parse_system.go b/parser/parse_system.go
index a3292be..72097ed 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -990,12 +990,16 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 		if err != nil {
 			return nil, err
 		}
+		statementEnd = from.End()
 	}
 
 	modifier, err := p.tryParseModifier()
 	if err != nil {
 		return nil, err
 	}
+	if modifier != "" {
+		statementEnd = p.lastEnd()
+	}
 
 	return &DropUserOrRole{
 		DropPos:      pos,
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 03f81c6..6136e07 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -504,7 +504,7 @@ func (p *Parser) parseAlterTableFreezePartition(pos Pos) (AlterTableClause, erro
 	}
 	alterTable := &AlterTableFreezePartition{
 		FreezePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}
 	if p.matchKeyword(KeywordPartition) {
 		partition, err := p.parsePartitionClause(p.Pos())
@@ -529,7 +529,7 @@ func (p *Parser) parseAlterTableRemoveTTL(pos Pos) (AlterTableClause, error) {
 
 	return &AlterTableRemoveTTL{
 		RemovePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}, nil
 }
 
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..5ed3c0b 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -62,6 +62,11 @@ func (p *Parser) End() Pos {
 	return p.current().End
 }
 
+// lastEnd returns the end of the token consumed last.
+func (p *Parser) lastEnd() Pos {
+	return p.lexer.lastEnd
+}
+
 func (p *Parser) Pos() Pos {
 	last := p.current()
 	if last == nil {
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index f2d9089..1333378 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -30,7 +30,7 @@ func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error
 		return nil, err
 	}
 	if modifier != "" {
-		statementEnd = p.Pos()
+		statementEnd = p.lastEnd()
 	}
 
 	return &DropDatabase{
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 0ab39c1..8a5aaae 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -110,6 +110,9 @@ func (p *Parser) parseCreateDatabase(pos Pos) (*CreateDatabase, error) {
 	if err != nil {
 		return nil, err
 	}
+	if commentExpr != nil {
+		StatementEnd = commentExpr.End()
+	}
 	return &CreateDatabase{
 		CreatePos:    pos,
 		StatementEnd: StatementEnd,
@@ -578,13 +581,13 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.lastEnd(),
 				TableFunction: &TableFunctionExpr{
 					Name: ident,
 					Args: argsExpr,
@@ -593,7 +596,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		default:
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.lastEnd(),
 				AliasTable: &TableIdentifier{
 					Table: ident,
 				},
diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..c55aac4 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -263,6 +263,7 @@ func (p *Parser) parseCreateView(pos Pos, orReplace bool) (*CreateView, error) {
 		return nil, err
 	}
 	createView.Comment = comment
+	createView.StatementEnd = p.lastEnd()
 
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
@@ -336,6 +337,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 		}
 		createLiveView.TableSchema = tableSchema
 	}
+	createLiveView.StatementEnd = p.lastEnd()
 
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
-- 
2.43.0


From f1e4c944ad9a5824f90f1ba18aeda77fd9f1281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 14/44] fix: Walk skips a subtree where fn returns false,
 WalkWithBreak stops the walk

---
 parser/walk.go | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index e129a35..7fa3231 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -14,7 +14,8 @@ func Walk(node Expr, fn WalkFunc) bool {
 		return true
 	}
 	if !fn(node) {
-		return false
+		// skip the subtree of this node only
+		return true
 	}
 
 	switch n := node.(type) {
@@ -1644,32 +1645,17 @@ func walkJSONPath(path *JSONPath, fn WalkFunc) bool {
 // The provided function should return true to continue walking,
 // or false to stop the traversal entirely.
 func WalkWithBreak(node Expr, fn WalkFunc) bool {
-	if node == nil {
-		return true
-	}
-
-	// Call the function first - if it returns false, stop immediately
-	if !fn(node) {
-		return false
-	}
-
-	// For early termination support, use a helper that converts our function
-	// to one that collects a boolean result
-	var continueWalk = true
-	Walk(node, func(child Expr) bool {
-		// Skip the current node since we already processed it
-		if child == node {
-			return true
-		}
-		// Call our termination-aware function
-		if !fn(child) {
-			continueWalk = false
-			return false
-		}
-		return true
+	// Walk only skips a subtree, so once fn has stopped the traversal every
+	// node that is still visited is skipped without calling fn again
+	var stopped bool
+	Walk(node, func(n Expr) bool {
+		if !stopped && !fn(n) {
+			stopped = true
+		}
+		return !stopped
 	})
 
-	return continueWalk
+	return !stopped
 }
 
 // Find searches for the first node matching the given predicate.
-- 
2.43.0


From bfc0d339f4309e42231dd8840830367079756f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 15/44] fix: Walk and Accept reach target pairs and the keys of
 map literals

---
 parser/ast.go  | 8 +++-----
 parser/walk.go | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index d609282..619dad1 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2913,7 +2913,8 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
+	for i := range m.KeyValues {
+		kv := &m.KeyValues[i]
 		if err := kv.Key.Accept(visitor); err != nil {
 			return err
 		}
@@ -6321,10 +6322,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index 7fa3231..6c9f58e 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -594,10 +594,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
@@ -1383,7 +1380,8 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
+		for i := range n.KeyValues {
+			kv := &n.KeyValues[i]
 			if !Walk(&kv.Key, fn) {
 				return false
 			}
-- 
2.43.0


From 56994dd319b424d938e10470a0f2223bce5d7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 16/44] fix: beautifying leaves newlines inside literals and
 quoted names alone

---
 parser/format.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index c547142..4032f1f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -54,10 +54,16 @@ func (f *Formatter) writeIndentIfNeeded() {
 	f.lineStart = false
 }
 
+// WriteString writes s as it is: a newline inside a literal or a quoted
+// identifier is part of it and must not be followed by indentation.
 func (f *Formatter) WriteString(s string) {
-	for i := 0; i < len(s); i++ {
-		f.WriteByte(s[i])
+	if s == "" {
+		return
+	}
+	if f.mode == FormatModeBeautify {
+		f.writeIndentIfNeeded()
 	}
+	f.builder.WriteString(s)
 }
 
 func (f *Formatter) WriteByte(b byte) {
-- 
2.43.0


From a9c2c910e34ca7bce8332d59db38f54fb8a69ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 17/44] fix: keywords in role settings, user defaults,
 privileges and ARRAY JOIN ignore case, quoted names are none

---
 parser/parse_system.go  | 16 ++++++++++------
 parser/parser_column.go |  2 +-
 parser/parser_query.go  |  4 +++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 72097ed..45d0b77 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -437,7 +437,11 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		keyword := ""
+		if name.QuoteType == Unquoted {
+			keyword = strings.ToUpper(name.Name)
+		}
+		switch keyword {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -460,7 +464,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && keyword != "MIN" && keyword != "MAX" && keyword != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
@@ -611,7 +615,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.KerberosRealm = realm
 				auth.AuthEnd = realm.End()
 			}
-		} else if p.matchTokenKind(TokenKindIdent) {
+		} else if p.matchTokenKind(TokenKindIdent) && p.current().QuoteType == Unquoted {
 			// Auth types like no_password, plaintext_password, etc.
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
@@ -824,7 +828,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, nil
 	}
 
-	if nextToken.String == KeywordRole {
+	if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -832,7 +836,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -1225,7 +1229,7 @@ func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
 
 func (p *Parser) parsePrivilegeClause(pos Pos) (*PrivilegeClause, error) {
 	if p.matchTokenKind(TokenKindIdent) {
-		if p.current().String == "dictGet" {
+		if p.current().QuoteType == Unquoted && strings.EqualFold(p.current().String, "dictGet") {
 			_ = p.lexer.consumeToken()
 			return &PrivilegeClause{
 				PrivilegePos: pos,
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 264ce8a..8a3c5e3 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -799,7 +799,7 @@ func (p *Parser) parseInterval(requireKeyword bool) (*IntervalExpr, error) {
 	if err != nil {
 		return nil, err
 	}
-	if !intervalUnits.Contains(strings.ToUpper(unit.Name)) {
+	if unit.QuoteType != Unquoted || !intervalUnits.Contains(strings.ToUpper(unit.Name)) {
 		return nil, fmt.Errorf("unknown interval type: <%q>", unit.Name)
 	}
 	return &IntervalExpr{
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 1a87c83..b1a75ea 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -357,7 +357,9 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	}) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From ee813dda1214ec357b64c7a14724bc7f7c93b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 18/44] fix: require an item after SELECT, GROUP BY, PARTITION
 BY, LIMIT BY, ARRAY JOIN and USING

---
 parser/parser_column.go | 8 +++-----
 parser/parser_query.go  | 6 +++---
 parser/parser_table.go  | 2 +-
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 8a3c5e3..b9c0a65 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -736,7 +736,8 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
 	hasComma := false
-	for p.current() != nil {
+	for term == "" || p.current() != nil {
+		// only a closing bracket ends an empty list or follows a comma
 		if term != "" && p.matchTokenKind(term) {
 			break
 		}
@@ -744,9 +745,6 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 		if err != nil {
 			return nil, err
 		}
-		if columnExpr == nil {
-			break
-		}
 		columnList = append(columnList, columnExpr)
 		hasComma = p.tryConsumeTokenKind(TokenKindComma) != nil
 		if !hasComma {
@@ -763,7 +761,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 
 func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 	selectItems := make([]*SelectItem, 0)
-	for p.current() != nil {
+	for p.current() != nil || len(selectItems) == 0 {
 		selectItem, err := p.parseSelectItem()
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_query.go b/parser/parser_query.go
index b1a75ea..d845abc 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -152,7 +152,7 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 		}, nil
 	case p.tryConsumeKeywords(KeywordUsing):
 		hasParen := p.tryConsumeTokenKind(TokenKindLParen) != nil
-		columnExprList, err := p.parseColumnExprListWithLParen(p.Pos())
+		columnExprList, err := p.parseColumnExprList(p.Pos())
 		if err != nil {
 			return nil, err
 		}
@@ -579,7 +579,7 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		_ = p.lexer.consumeToken()
 		aggregateType = "ALL"
 	default:
-		expr, err = p.parseColumnExprListWithLParen(p.Pos())
+		expr, err = p.parseColumnExprList(p.Pos())
 	}
 	if err != nil {
 		return nil, err
@@ -708,7 +708,7 @@ func (p *Parser) parseLimitByClause(pos Pos) (Expr, error) {
 	if !p.tryConsumeKeywords(KeywordBy) {
 		return limit, nil
 	}
-	if by, err = p.parseColumnExprListWithLParen(p.Pos()); err != nil {
+	if by, err = p.parseColumnExprList(p.Pos()); err != nil {
 		return nil, err
 	}
 	return &LimitByClause{
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 8a5aaae..a70559f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -915,7 +915,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseColumnExprListWithLParen(p.Pos())
+	columnExpr, err := p.parseColumnExprList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1f6e2abb127479c56665dfaf98e22828fed64380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 19/44] fix: a comma after the last SELECT item may also
 precede a semicolon or a parenthesis

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index b9c0a65..173d23c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -773,7 +773,7 @@ func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 		if p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
-		if p.isSelectItemTerminatorKeyword() {
+		if p.isSelectItemTerminatorKeyword() || p.matchTokenKind(";") || p.matchTokenKind(TokenKindRParen) {
 			break
 		}
 	}
-- 
2.43.0


From e8c2d670a8d5e2b8b1209ebdcf369cb1a5af9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 20/44] fix: a sign or blank after the dot makes no decimal
 number

---
 parser/parser_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index 5ed3c0b..a9ca372 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -367,7 +367,7 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		if err := p.expectTokenKind(TokenKindInt); err != nil {
 			return nil, err
 		}
-		if curToken.Base != 10 {
+		if curToken.Base != 10 || curToken.Pos != pos+1 || !IsDigit(curToken.String[0]) {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
 		curToken.String = "." + curToken.String
-- 
2.43.0


From 273b95bbe4bb40c4925023fcabd2ca8ce819b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 21/44] fix: keep the quotes of engine names

---
 parser/ast.go          | 2 ++
 parser/format.go       | 2 +-
 parser/parser_table.go | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 619dad1..2da561c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3768,6 +3768,8 @@ type EngineExpr struct {
 	TTL         *TTLClause
 	Settings    *SettingsClause
 	OrderBy     *OrderByClause
+
+	nameQuoteType int
 }
 
 func (e *EngineExpr) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 4032f1f..09baf8e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1476,7 +1476,7 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("ENGINE = ")
-	formatter.WriteString(e.Name)
+	formatter.WriteExpr(&Ident{Name: e.Name, QuoteType: e.nameQuoteType})
 	if e.Params != nil {
 		formatter.WriteExpr(e.Params)
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index a70559f..c5a7f1d 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1413,6 +1413,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			return nil, err
 		}
 		engineExpr.Name = ident.Name
+		engineExpr.nameQuoteType = ident.QuoteType
 		engineEnd = ident.End()
 		if p.matchTokenKind(TokenKindLParen) {
 			params, err := p.parseFunctionParams(p.Pos())
-- 
2.43.0


From 95052150ebf861a29982d00e199cca85aea67997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 22/44] fix: spans of OPTIMIZE FINAL, WITH TIMEOUT and JSON
 options end and start at their text

---
 parser/ast.go           | 4 +++-
 parser/parse_system.go  | 3 +--
 parser/parser_column.go | 4 ++--
 parser/parser_view.go   | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 2da561c..b6d35fa 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4576,6 +4576,8 @@ type WithTimeoutClause struct {
 	WithTimeoutPos Pos
 	Expr           Expr
 	Number         *NumberLiteral
+
+	keywordEnd Pos // end of TIMEOUT
 }
 
 func (w *WithTimeoutClause) Pos() Pos {
@@ -4589,7 +4591,7 @@ func (w *WithTimeoutClause) End() Pos {
 	if w.Expr != nil {
 		return w.Expr.End()
 	}
-	return w.WithTimeoutPos
+	return w.keywordEnd
 }
 
 func (w *WithTimeoutClause) Accept(visitor ASTVisitor) error {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 45d0b77..c32b5a1 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -305,10 +305,9 @@ func (p *Parser) parseOptimizeStmt(pos Pos) (*OptimizeStmt, error) {
 	}
 
 	hasFinal := false
-	lastPos := p.Pos()
 	if p.tryConsumeKeywords(KeywordFinal) {
 		hasFinal = true
-		statementEnd = lastPos
+		statementEnd = p.lastEnd()
 	}
 
 	deduplicate, err := p.tryParseDeduplicateClause(p.Pos())
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 173d23c..5e6aa96 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1467,13 +1467,13 @@ func (p *Parser) parseJSONMaxDynamicOptions(pos Pos) (*JSONOption, error) {
 
 	switch ident.Name {
 	case "max_dynamic_types":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
 		return &JSONOption{MaxDynamicTypes: number}, nil
 	case "max_dynamic_paths":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
diff --git a/parser/parser_view.go b/parser/parser_view.go
index c55aac4..1e444bd 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -359,7 +359,7 @@ func (p *Parser) tryParseWithTimeout(pos Pos) (*WithTimeoutClause, error) {
 		return nil, err
 	}
 
-	withTimeout := &WithTimeoutClause{WithTimeoutPos: pos}
+	withTimeout := &WithTimeoutClause{WithTimeoutPos: pos, keywordEnd: p.lastEnd()}
 
 	if p.matchTokenKind(TokenKindInt) {
 		decimalNumber, err := p.parseDecimal(p.Pos())
-- 
2.43.0


From e3ebeaf5f4555ad8fad912d373126dab3b5bec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 23/44] fix: keep the quotes of named arguments of table
 functions

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index c5a7f1d..0bff273 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -835,6 +835,9 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 				NameEnd: p.current().End,
 				Name:    p.current().String,
 			}
+			if q := p.current().QuoteType; q != Unquoted {
+				name.QuoteType = q
+			}
 			// Consume the = token
 			if err := p.lexer.consumeToken(); err != nil {
 				return nil, err
-- 
2.43.0


From ad5020c741d6a4bb1058667597667f751068048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 24/44] fix: the name of a GRANT option is not quoted

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index c32b5a1..0770bfa 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1329,6 +1329,9 @@ func (p *Parser) parseGrantOption(_ Pos) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ident.QuoteType > Unquoted {
+		return "", fmt.Errorf("expected the name of an option, but got %q", ident.Name)
+	}
 	if err := p.expectKeyword(KeywordOption); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 7f434f7ab70e4da5ade154966976cee7e50ab794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 25/44] fix: the sign before an access or a cast applies to its
 result

---
 parser/parser_column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 5e6aa96..55bad5b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -403,6 +403,11 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 		p.matchTokenKind(TokenKindMinus):
 		_ = p.lexer.consumeToken()
 		expr, err = p.parseColumnExpr(p.Pos())
+		// access and casts bind tighter than the sign, as in -(a[1]), unless it
+		// is the sign of a number
+		if _, isNumber := expr.(*NumberLiteral); err == nil && !isNumber {
+			expr, err = p.parseInfixLoop(expr, PrecedenceMulDivMod)
+		}
 	case p.matchKeyword(KeywordNot):
 		_ = p.lexer.consumeToken()
 		// Prefix NOT binds looser than comparisons: `NOT a = b` negates the
-- 
2.43.0


From 77c34c968534ee8cf8b5c7194acee50da8ac1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 26/44] fix: accept the tuple element access a.b.1

---
 parser/parser_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 0bff273..62a8377 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -481,9 +481,10 @@ func (p *Parser) parseIdentOrFunction(_ Pos) (Expr, error) {
 					return nil, err
 				}
 				fields = append(fields, child)
-				if p.tryConsumeTokenKind(TokenKindDot) == nil {
-					break
+				if !p.matchTokenKind(TokenKindDot) || p.peekTokenKind(TokenKindInt) {
+					break // the caller reads the tuple element of a.b.1
 				}
+				_ = p.lexer.consumeToken()
 			}
 			return &Path{Fields: fields}, nil
 		case p.matchTokenKind("*"):
-- 
2.43.0


From 721ae6c865f51dc52c6d1e4537c7ebce509f2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 27/44] fix: an access after a cast applies to the cast, not to
 the name of its type

---
 parser/parser_column.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 55bad5b..ecd193c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -151,7 +151,14 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			}, nil
 		}
 
-		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
+		var rightExpr Expr
+		var err error
+		if p.matchTokenKind(TokenKindIdent) && !p.peekTokenKind(TokenKindLParen) {
+			// a type name; an access after it applies to the cast
+			rightExpr, err = p.parseIdent()
+		} else {
+			rightExpr, err = p.parseSubExpr(p.Pos(), precedence)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f01685835e4c0f93eb6c81f9cf5a5d752a4ea2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 28/44] fix: accept a sign before a signed operand

---
 parser/parser_column.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ecd193c..898a07c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -409,6 +409,10 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 	case p.matchTokenKind(TokenKindPlus),
 		p.matchTokenKind(TokenKindMinus):
 		_ = p.lexer.consumeToken()
+		if p.matchTokenKind(TokenKindPlus) || p.matchTokenKind(TokenKindMinus) {
+			expr, err = p.parseUnaryExpr(p.Pos())
+			break
+		}
 		expr, err = p.parseColumnExpr(p.Pos())
 		// access and casts bind tighter than the sign, as in -(a[1]), unless it
 		// is the sign of a number
-- 
2.43.0


From 82de61f449bfa4edd09166bd59dced710d10afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 29/44] fix: accept a number with a fraction as the value of a
 setting

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 62a8377..3300df8 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1342,7 +1342,7 @@ func (p *Parser) parseSettingsExpr(pos Pos) (*SettingExpr, error) {
 
 	var expr Expr
 	switch {
-	case p.matchTokenKind(TokenKindInt):
+	case p.matchTokenKind(TokenKindInt), p.matchTokenKind(TokenKindFloat):
 		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From c36e7d17e621184b07c83c35150d07873199e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 30/44] fix: reject repeated engine and user clauses, keep
 every HOST clause

---
 parser/parse_system.go | 15 ++++++++-------
 parser/parser_table.go | 12 ++++++------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 0770bfa..a446845 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -827,7 +827,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, nil
 	}
 
-	if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) {
+	if createUser.DefaultRole == nil && nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -835,7 +835,8 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) {
+	} else if createUser.DefaultDatabase == nil && !createUser.DefaultDbNone &&
+		nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -858,7 +859,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	continueParsing := true
 	for continueParsing {
 		switch {
-		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+		case createUser.Authentication == nil && p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -866,7 +867,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Authentication = auth
 			createUser.StatementEnd = auth.End()
 
-		case p.matchKeyword(KeywordValid):
+		case createUser.ValidUntil == nil && p.matchKeyword(KeywordValid):
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -883,7 +884,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			if err != nil {
 				return err
 			}
-			createUser.Hosts = hosts
+			createUser.Hosts = append(createUser.Hosts, hosts...)
 			createUser.StatementEnd = hosts[len(hosts)-1].End()
 
 		case p.matchKeyword(KeywordDefault):
@@ -895,7 +896,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 				continueParsing = false
 			}
 
-		case p.matchKeyword(KeywordGrantees):
+		case createUser.Grantees == nil && p.matchKeyword(KeywordGrantees):
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -903,7 +904,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Grantees = grantees
 			createUser.StatementEnd = grantees.End()
 
-		case p.matchKeyword(KeywordSettings):
+		case createUser.Settings == nil && p.matchKeyword(KeywordSettings):
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3300df8..385b9a3 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1433,42 +1433,42 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 
 	for p.current() != nil {
 		switch {
-		case p.matchKeyword(KeywordOrder):
+		case engineExpr.OrderBy == nil && p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
-		case p.matchKeyword(KeywordPartition):
+		case engineExpr.PartitionBy == nil && p.matchKeyword(KeywordPartition):
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
-		case p.matchKeyword(KeywordPrimary):
+		case engineExpr.PrimaryKey == nil && p.matchKeyword(KeywordPrimary):
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
-		case p.matchKeyword(KeywordSample):
+		case engineExpr.SampleBy == nil && p.matchKeyword(KeywordSample):
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
-		case p.matchKeyword(KeywordTtl):
+		case engineExpr.TTL == nil && p.matchKeyword(KeywordTtl):
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
-		case p.matchKeyword(KeywordSettings):
+		case engineExpr.Settings == nil && p.matchKeyword(KeywordSettings):
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 6d374027742649c67640ebd5b28c963e96554626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 31/44] fix: a second FORMAT clause of a query is an error

---
 parser/parser_table.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 385b9a3..37a6fdb 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1531,9 +1531,18 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, err = p.tryParseFormat(p.Pos())
-	if err != nil {
-		return nil, err
+	hasFormat := false
+	switch stmt := expr.(type) {
+	case *SelectQuery, *ExplainStmt:
+		// the query parses its FORMAT clause itself, another one is an error
+		hasFormat = true
+	case *InsertStmt:
+		hasFormat = stmt.Format != nil || stmt.SelectExpr != nil
+	}
+	if !hasFormat {
+		if _, err = p.tryParseFormat(p.Pos()); err != nil {
+			return nil, err
+		}
 	}
 
 	// Statement can be terminated by ';' or EOF
-- 
2.43.0


From dda70055551509a671cbd63698164c2737853614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 32/44] fix: RECOMPRESS needs a codec, DELETE takes none

---
 parser/parser_table.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 37a6fdb..bcb0df1 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1230,11 +1230,16 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 			ActionEnd: token.End,
 			Action:    token.ToString(),
 		}
-		codec, err := p.tryParseCompressionCodecs(p.Pos())
-		if err != nil {
-			return nil, err
+		if action.Action == KeywordRecompress {
+			codec, err := p.tryParseCompressionCodecs(p.Pos())
+			if err != nil {
+				return nil, err
+			}
+			if codec == nil {
+				return nil, fmt.Errorf("expected CODEC after RECOMPRESS, but got %q", p.currentTokenString())
+			}
+			action.Codec = codec
 		}
-		action.Codec = codec
 		rule = &TTLPolicyRule{RulePos: pos, Action: action}
 	default:
 		return nil, nil // nolint
-- 
2.43.0


From 57d5efd8ea1de6e678729e1552c00ce27ed37736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 33/44] fix: a column is either NULL or NOT NULL

---
 parser/parser_table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index bcb0df1..20f3700 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -684,9 +684,12 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	if nullable != nil {
 		columnEnd = nullable.End()
 	}
-	notNull, err := p.tryParseNotNull(p.Pos())
-	if err != nil {
-		return nil, err
+	var notNull *NotNullLiteral
+	if nullable == nil {
+		notNull, err = p.tryParseNotNull(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 	if notNull != nil {
 		columnEnd = notNull.End()
-- 
2.43.0


From bf48d9d802f0bb7b92c95259763d9b86d4e1cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 34/44] fix: EXCEPT before SELECT is a set operator, no column
 modifier

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 898a07c..ec00de4 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1202,7 +1202,7 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 
 	modifiers := make([]*FunctionExpr, 0)
 	for {
-		if p.matchKeyword(KeywordExcept) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
+		if (p.matchKeyword(KeywordExcept) && !p.peekKeyword(KeywordSelect)) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
 			modifier, err := p.parseFunctionExpr(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From daa6ae71d6878f03cf92754950b81e0a1f9d5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 35/44] fix: no nil dereference after an unfinished enum, a
 tuple index has no leading dot

---
 parser/parser_column.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ec00de4..1554b33 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -201,6 +201,8 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			// After a dot the token can only be a member name, so even
 			// reserved keywords are accepted (e.g. `t.from`).
 			rightExpr, err = p.parseAnyKeyword()
+		} else if p.matchTokenKind(TokenKindFloat) && strings.HasPrefix(p.current().String, ".") {
+			return nil, fmt.Errorf("expected a name or number after a dot, got %q", p.currentTokenString())
 		} else {
 			rightExpr, err = p.parseDecimal(p.Pos())
 		}
@@ -1338,7 +1340,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From 0fdf58085990723c34d48d26f76050dacdb22b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 36/44] fix: accept the access a.1.2 to an element of a nested
 tuple, reject f(a)..1 and f(a).1e2

---
 parser/lexer.go         | 10 ++++++----
 parser/parser_column.go |  2 +-
 parser/parser_common.go |  3 +++
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 83cc327..cf38fef 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -118,7 +118,9 @@ func (l *Lexer) isKeyword(ident string) bool {
 	return keywords.Contains(ident)
 }
 
-func (l *Lexer) consumeNumber() error {
+// consumeNumber reads a number. The one after a dot names an element of a tuple
+// and ends before the next dot, as in a.1.2.
+func (l *Lexer) consumeNumber(afterDot bool) error {
 	i := 0
 	base := 10
 	if l.peekN(0) == '+' || l.peekN(0) == '-' {
@@ -148,7 +150,7 @@ func (l *Lexer) consumeNumber() error {
 			hasNumberPart = true
 			i++
 			continue
-		case c == '.': // float
+		case c == '.' && !afterDot: // float
 			// a second dot ("1.2.3"), a dot after the exponent ("1e2.3") or
 			// a dot in a hex literal ("0x1.8") cannot start a valid number tail
 			if hasDot || hasExp || base == 16 {
@@ -395,7 +397,7 @@ func (l *Lexer) consumeToken() error {
 	case '+', '-':
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
-			return l.consumeNumber()
+			return l.consumeNumber(false)
 		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
@@ -407,7 +409,7 @@ func (l *Lexer) consumeToken() error {
 			return nil
 		}
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
-		return l.consumeNumber()
+		return l.consumeNumber(prevToken != nil && prevToken.Kind == TokenKindDot)
 	case '`', '$', '"':
 		return l.consumeIdent(Pos(l.offset))
 	case '\'':
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 1554b33..008ad30 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -201,7 +201,7 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			// After a dot the token can only be a member name, so even
 			// reserved keywords are accepted (e.g. `t.from`).
 			rightExpr, err = p.parseAnyKeyword()
-		} else if p.matchTokenKind(TokenKindFloat) && strings.HasPrefix(p.current().String, ".") {
+		} else if !p.matchTokenKind(TokenKindInt) {
 			return nil, fmt.Errorf("expected a name or number after a dot, got %q", p.currentTokenString())
 		} else {
 			rightExpr, err = p.parseDecimal(p.Pos())
diff --git a/parser/parser_common.go b/parser/parser_common.go
index a9ca372..916964f 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -370,6 +370,9 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		if curToken.Base != 10 || curToken.Pos != pos+1 || !IsDigit(curToken.String[0]) {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
+		if next := p.current(); next != nil && next.Kind == TokenKindDot && next.Pos == curToken.End {
+			return nil, fmt.Errorf("invalid decimal literal: %q", "."+curToken.String+".")
+		}
 		curToken.String = "." + curToken.String
 		curToken.Kind = TokenKindFloat
 	default:
-- 
2.43.0


From 25faf73b815f5d9b880c5604f83b5fa89b7d3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 37/44] fix: a doubled quote or an escaped one does not end a
 quoted identifier

---
 parser/lexer.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cf38fef..355c6fb 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -214,12 +214,20 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 			i++
 		}
 	} else {
-		for l.peekOk(i) && (quoteType == BackTicks && l.peekN(i) != '`' ||
-			quoteType == DoubleQuote && l.peekN(i) != '"') {
-			i++
+		quote := l.input[start]
+		for l.peekOk(i) {
+			if l.peekN(i) == quote && !(l.peekOk(i+1) && l.peekN(i+1) == quote) {
+				break
+			}
+			if l.peekN(i) == quote || l.peekN(i) == '\\' {
+				// a doubled quote or a backslash escape
+				i++
+			}
+			if l.peekOk(i) {
+				i++
+			}
 		}
-		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
-			(quoteType == DoubleQuote && l.peekN(i) != '"') {
+		if !l.peekOk(i) {
 			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
 			l.offset = start
 			return err
-- 
2.43.0


From af6ff947aff0445a862ce589bb0e687b53e2330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 38/44] fix: a quoted unit of EXTRACT is a name

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 008ad30..fb2466c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -370,7 +370,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 
 		var param Expr
 		if ident, ok := expr.(*Ident); ok {
-			if intervalUnits.Contains(strings.ToUpper(ident.Name)) && p.matchKeyword(KeywordFrom) {
+			if ident.QuoteType == Unquoted && intervalUnits.Contains(strings.ToUpper(ident.Name)) && p.matchKeyword(KeywordFrom) {
 				param, err = p.parseExtractFrom(ident)
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 125ba6ac392c0223dad5847e2f695acb12d5c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 39/44] fix: accept map literals and bracketed operands among
 inserted values

---
 parser/parser_table.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 20f3700..5343b0f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1897,8 +1897,14 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
+			// a tuple, unless an operator follows: (1, (2)), ((1 + 2) * 3)
+			savedState := p.lexer.saveState()
 			value, err = p.parseAssignmentValues(p.Pos())
-		case p.matchTokenKind(TokenKindLBrace):
+			if err != nil || !p.matchTokenKind(TokenKindComma) && !p.matchTokenKind(TokenKindRParen) {
+				p.lexer.restoreState(savedState)
+				value, err = p.parseExpr(p.Pos())
+			}
+		case p.matchTokenKind(TokenKindLBrace) && (p.peekTokenKind(TokenKindIdent) || p.peekTokenKind(TokenKindKeyword)):
 			// placeholder with type, e.g. {a :Int32}, {b :DateTime(6)}
 			value, err = p.parseTypedPlaceholder(p.Pos())
 		default:
-- 
2.43.0


From 5766855f9c3fa1a9914706703b2ccfce207d1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 40/44] fix: INTERVAL and CASE take a signed or negated operand

---
 parser/parser_column.go | 38 +++++++++++++++++++++++++++++++++++---
 parser/parser_common.go |  2 +-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index fb2466c..24ce519 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -532,6 +532,16 @@ func (p *Parser) peekIsExpressionContinuation() bool {
 	return false
 }
 
+// peekIsPrefixedOperand reports whether the current token is INTERVAL or CASE
+// and the next one a sign or NOT, which may start its operand
+// (`INTERVAL -1 DAY`) or continue a column of that name (`interval - 1`).
+func (p *Parser) peekIsPrefixedOperand() bool {
+	if !p.matchKeyword(KeywordInterval) && !p.matchKeyword(KeywordCase) {
+		return false
+	}
+	return p.peekTokenKind(TokenKindMinus) || p.peekTokenKind(TokenKindPlus) || p.peekKeyword(KeywordNot)
+}
+
 // keywordIsSelectItemIdentifier reports whether the current keyword token is
 // being used as a bare column-reference identifier inside a SELECT projection
 // rather than starting a clause/expression. This is true when the next token
@@ -584,9 +594,11 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	// is only valid in expression position, so it's applied inline here
 	// rather than in keywordIsSelectItemIdentifier (which is shared with the
 	// terminator/alias check).
-	if p.keywordIsSelectItemIdentifier() ||
+	// INTERVAL and CASE before a sign or NOT are tried as operators first.
+	prefixedOperand := p.peekIsPrefixedOperand()
+	if !prefixedOperand && (p.keywordIsSelectItemIdentifier() ||
 		(p.matchTokenKind(TokenKindKeyword) &&
-			(p.peekIsEndOfStatement() || p.peekIsExpressionContinuation())) {
+			(p.peekIsEndOfStatement() || p.peekIsExpressionContinuation()))) {
 		return p.parseAnyKeyword()
 	}
 	switch {
@@ -632,7 +644,27 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	case p.matchKeyword(KeywordCast):
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
-		return p.parseColumnCaseExpr(pos)
+		if !prefixedOperand {
+			return p.parseColumnCaseExpr(pos)
+		}
+		// `CASE -a WHEN ...` and `case - a` part only at the WHEN: try the
+		// operator first, once, as for INTERVAL above.
+		casePos := p.Pos()
+		if _, failed := p.failedIntervalOffsets[casePos]; failed {
+			return p.parseAnyKeyword()
+		}
+		savedState := p.lexer.saveState()
+		caseExpr, err := p.parseColumnCaseExpr(pos)
+		if err != nil || len(caseExpr.Whens) == 0 {
+			if p.failedIntervalOffsets == nil {
+				p.failedIntervalOffsets = make(map[Pos]struct{})
+			}
+			p.failedIntervalOffsets[casePos] = struct{}{}
+
+			p.lexer.restoreState(savedState)
+			return p.parseAnyKeyword()
+		}
+		return caseExpr, nil
 	case p.matchKeyword(KeywordSelect):
 		return p.parseSelectQuery(pos)
 	case p.matchKeyword(KeywordExtract):
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 916964f..6f104e1 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -10,7 +10,7 @@ type Parser struct {
 	lexer *Lexer
 	lines lineStarts // lazily built on the first error, for position lookup
 
-	// failedIntervalOffsets records the positions of INTERVAL tokens whose
+	// failedIntervalOffsets records the positions of INTERVAL and CASE tokens whose
 	// operator reading already failed, so parseColumnExpr retries each
 	// position at most once. See the KeywordInterval case there for why the
 	// memo is sound and what it prevents.
-- 
2.43.0


From cc33737b68d4695771fd3e888d0764bab2bdbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 41/44] fix: the expression of a TTL starts at its text

---
 parser/parser_query.go | 2 +-
 parser/parser_table.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index d845abc..ca01660 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1274,7 +1274,7 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 }
 
 func (p *Parser) parseCTEStmt(pos Pos) (*CTEStmt, error) {
-	expr, err := p.parseExpr(pos)
+	expr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5343b0f..d4e404c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1264,7 +1264,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 }
 
 func (p *Parser) parseTTLExpr(pos Pos) (*TTLExpr, error) {
-	columnExpr, err := p.parseExpr(pos)
+	columnExpr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 016ac2cd41d3dcebb9b8fd5663a42bf3f65bf325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 42/44] fix: the expression of an INTERPOLATE item starts at
 its text

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index d4e404c..7fcf173 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1145,7 +1145,7 @@ func (p *Parser) parseInterpolateClause(interpolatePos Pos) (*InterpolateClause,
 		item := &InterpolateItem{Column: column}
 
 		if p.tryConsumeKeywords(KeywordAs) {
-			expr, err := p.parseExpr(interpolatePos)
+			expr, err := p.parseExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 3209a341582984ccfd13618339a9e4d74d17c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 43/44] fix: signs, casts, CASE, strings, subqueries and ? in
 ORDER BY start at their text

---
 parser/parser_column.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 24ce519..b4c781f 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -404,7 +404,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 }
 
 func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
-	op := p.current()
+	op, opPos := p.current(), p.Pos()
 	var expr Expr
 	var err error
 	switch {
@@ -435,7 +435,7 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 	}
 
 	return &UnaryExpr{
-		UnaryPos: pos,
+		UnaryPos: opPos,
 		Kind:     TokenKind(op.ToString()),
 		Expr:     expr,
 	}, nil
@@ -640,12 +640,12 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 		if nextToken != nil && nextToken.Kind == TokenKindString {
 			return p.parseString(p.Pos())
 		}
-		return p.parseIdentOrFunction(pos)
+		return p.parseIdentOrFunction(p.Pos())
 	case p.matchKeyword(KeywordCast):
-		return p.parseColumnCastExpr(pos)
+		return p.parseColumnCastExpr(p.Pos())
 	case p.matchKeyword(KeywordCase):
 		if !prefixedOperand {
-			return p.parseColumnCaseExpr(pos)
+			return p.parseColumnCaseExpr(p.Pos())
 		}
 		// `CASE -a WHEN ...` and `case - a` part only at the WHEN: try the
 		// operator first, once, as for INTERVAL above.
@@ -654,7 +654,7 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 			return p.parseAnyKeyword()
 		}
 		savedState := p.lexer.saveState()
-		caseExpr, err := p.parseColumnCaseExpr(pos)
+		caseExpr, err := p.parseColumnCaseExpr(p.Pos())
 		if err != nil || len(caseExpr.Whens) == 0 {
 			if p.failedIntervalOffsets == nil {
 				p.failedIntervalOffsets = make(map[Pos]struct{})
@@ -666,26 +666,26 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 		}
 		return caseExpr, nil
 	case p.matchKeyword(KeywordSelect):
-		return p.parseSelectQuery(pos)
+		return p.parseSelectQuery(p.Pos())
 	case p.matchKeyword(KeywordExtract):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
-		return p.parseIdentOrFunction(pos)
+		return p.parseIdentOrFunction(p.Pos())
 	case p.matchTokenKind(TokenKindKeyword) && p.peekTokenKind(TokenKindLParen):
 		// Reserved operator keywords stay callable as ordinary functions when
 		// followed by '(': and(a, b), or(a, b), in(x, set), like(s, pat), ...
 		// Keywords with dedicated syntax (CAST, CASE, EXTRACT, INTERVAL, ...)
 		// are handled by their own cases above.
-		return p.parseIdentOrFunction(pos)
+		return p.parseIdentOrFunction(p.Pos())
 	case p.matchTokenKind(TokenKindString): // string literal
-		return p.parseString(pos)
+		return p.parseString(p.Pos())
 	case p.matchTokenKind(TokenKindInt),
 		p.matchTokenKind(TokenKindFloat): // number literal
 		return p.parseNumber(pos)
 	case p.matchTokenKind(TokenKindLParen):
 		if peek, _ := p.lexer.peekToken(); peek != nil {
 			if peek.Kind == TokenKindKeyword && strings.EqualFold(peek.String, KeywordSelect) {
-				return p.parseSubQuery(pos)
+				return p.parseSubQuery(p.Pos())
 			}
 		}
 		return p.parseFunctionParams(p.Pos())
@@ -706,10 +706,11 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 		return p.parseNumber(p.Pos())
 	case p.matchTokenKind(TokenKindQuestionMark):
 		// Placeholder `?`
+		placeholderPos := p.Pos()
 		_ = p.lexer.consumeToken()
 		return &PlaceHolder{
-			PlaceholderPos: pos,
-			PlaceHolderEnd: pos,
+			PlaceholderPos: placeholderPos,
+			PlaceHolderEnd: placeholderPos,
 			Type:           string(TokenKindQuestionMark),
 		}, nil
 	default:
-- 
2.43.0


From 66172d9dff9cee608d67243622d76253efea4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 44/44] fix: the span of a typed placeholder ends at its brace

---
 parser/parser_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 7fcf173..8e35651 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1875,12 +1875,13 @@ func (p *Parser) parseTypedPlaceholder(pos Pos) (Expr, error) {
 		return nil, err
 	}
 
+	rightBracePos := p.Pos() + 1
 	if err := p.expectTokenKind(TokenKindRBrace); err != nil {
 		return nil, err
 	}
 	return &TypedPlaceholder{
 		LeftBracePos:  pos,
-		RightBracePos: p.Pos(),
+		RightBracePos: rightBracePos,
 		Name:          name,
 		Type:          columnType,
 	}, nil
-- 
2.43.0

