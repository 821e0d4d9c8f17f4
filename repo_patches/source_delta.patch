From f0dc40c26ad34e8fb89b03ed71a38923c8970f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 001/106] fix: report lexical errors and the last token instead
 of taking them for the end of input

A lexical error in the middle of a statement (an unclosed quote or comment, a
malformed number, a stray byte) was discarded and the parser carried on as if
the input had ended, or resumed inside the offending text. A single token left
after the last statement was dropped the same way.
---
 parser/lexer.go         | 38 ++++++++++++++++++++++++++++----------
 parser/parser_alter.go  |  2 +-
 parser/parser_column.go | 40 ++++++++++++++++++++--------------------
 parser/parser_common.go | 16 +++++++++++++++-
 parser/parser_table.go  | 24 ++++++++++++++----------
 5 files changed, 78 insertions(+), 42 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..535530a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -83,6 +83,12 @@ type Lexer struct {
 	lexerState
 
 	input string
+
+	// err is the first lexical error hit, at byte offset errPos. It outlives
+	// saveState/restoreState: text that has no token reading stays unreadable
+	// whichever way the parser backtracks.
+	err    error
+	errPos Pos
 }
 
 func NewLexer(buf string) *Lexer {
@@ -216,7 +222,9 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			l.skipN(-1) // stay in front of the opening quote
+			return err
 		}
 	}
 	slice := l.slice(0, i)
@@ -252,16 +260,13 @@ func (l *Lexer) consumeSingleLineComment() {
 }
 
 func (l *Lexer) consumeMultiLineComment() error {
-	l.skipN(2)
-	i := 0
-	for l.peekOk(i) {
-		if l.peekOk(i+1) && l.peekN(i) == '*' && l.peekN(i+1) == '/' {
+	// skip the comment only once its end is found; otherwise stay in front of it
+	for i := 2; l.peekOk(i + 1); i++ {
+		if l.peekN(i) == '*' && l.peekN(i+1) == '/' {
 			l.skipN(i + 2)
 			return nil
 		}
-		i++
 	}
-	l.skipN(i)
 	return errors.New("unclosed multi-line comment")
 }
 
@@ -335,12 +340,13 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
-	if err := l.consumeToken(); err != nil {
-		return nil, err
-	}
+	err := l.consumeToken()
 	token := l.currentToken
 
 	l.restoreState(savedState)
+	if err != nil {
+		return nil, err
+	}
 	return token, nil
 }
 
@@ -356,7 +362,19 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindRBracket)
 }
 
+// consumeToken replaces the current token with the next one, or with nil at the
+// end of the input. On a lexical error the current token is nil and the offset
+// stays in front of the offending text, so that no later call can read past it.
 func (l *Lexer) consumeToken() error {
+	err := l.scanToken()
+	if err != nil && l.err == nil {
+		l.err = err
+		l.errPos = Pos(l.offset)
+	}
+	return err
+}
+
+func (l *Lexer) scanToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
 	l.currentToken = nil
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..df70ef3 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for !p.isEOF() {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..21a84f5 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -283,14 +283,14 @@ func (p *Parser) parseSubExpr(pos Pos, precedence int) (Expr, error) {
 // binds tighter than precedence; it stops at once on tokens that are no
 // operator at all, such as ',' or ')'.
 //
-// The guard tests the lookahead token, not just the input offset: isEOF only
-// reports that no input text is left to lex, which is already true while the
-// final token sits unconsumed in p.current(). Stopping on isEOF alone dropped
+// The guard tests the lookahead token, not the lexer's input offset: that only
+// tells that no input text is left to lex, which is already true while the
+// final token sits unconsumed in p.current(). Stopping there dropped
 // a trailing operator instead of reporting its missing operand, so `SELECT a +`
 // left the '+' for the statement parser to reject as unexpected trailing input,
 // and `SELECT a GLOBAL` silently read the operator as an implicit alias.
 func (p *Parser) parseInfixLoop(expr Expr, precedence int) (Expr, error) {
-	for !p.lexer.isEOF() || p.current() != nil {
+	for !p.isEOF() {
 		nextPrecedence := p.getNextPrecedence()
 		if nextPrecedence <= precedence {
 			return expr, nil
@@ -353,7 +353,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 	}
 
 	parameters := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for !p.isEOF() {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -425,7 +425,7 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 }
 
 func (p *Parser) peekTokenKind(kind TokenKind) bool {
-	if p.lexer.isEOF() {
+	if p.isEOF() {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -436,7 +436,7 @@ func (p *Parser) peekTokenKind(kind TokenKind) bool {
 }
 
 func (p *Parser) peekKeyword(keyword string) bool {
-	if p.lexer.isEOF() {
+	if p.isEOF() {
 		return false
 	}
 	token, err := p.lexer.peekToken()
@@ -735,7 +735,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	}
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for !p.isEOF() {
 		if term != "" && p.matchTokenKind(term) {
 			break
 		}
@@ -760,7 +760,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 
 func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 	selectItems := make([]*SelectItem, 0)
-	for !p.lexer.isEOF() || p.current() != nil {
+	for !p.isEOF() {
 		selectItem, err := p.parseSelectItem()
 		if err != nil {
 			return nil, err
@@ -832,7 +832,7 @@ func (p *Parser) parseColumnArgList(pos Pos) (*ColumnArgList, error) {
 	distinct := p.tryConsumeKeywords(KeywordDistinct)
 
 	var items []Expr
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		item, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -976,7 +976,7 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	// index runs across the list instead of resetting per item.
 	slot := 0
 	usedSeparator, usedComma := false, false
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		item, consumed, err := p.parseKeywordArgItem(form, slot, !(form.ClosedKeywordForm && usedComma))
 		if err != nil {
 			return nil, err
@@ -1077,7 +1077,7 @@ func (p *Parser) parseMapLiteral(pos Pos) (*MapLiteral, error) {
 	}
 
 	keyValues := make([]KeyValue, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRBrace) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRBrace) {
 		key, err := p.parseString(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1347,7 +1347,7 @@ func (p *Parser) parseColumnPropertyType(_ Pos) (Expr, error) {
 
 func (p *Parser) parseComplexType(name *Ident, pos Pos) (*ComplexType, error) {
 	subTypes := make([]ColumnType, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		subExpr, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1375,7 +1375,7 @@ func (p *Parser) parseEnumType(name *Ident, pos Pos) (*EnumType, error) {
 		ListPos: pos,
 		Values:  make([]EnumValue, 0),
 	}
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		enumValue, err := p.parseEnumValueExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1404,7 +1404,7 @@ func (p *Parser) parseColumnTypeWithParams(name *Ident, pos Pos) (*TypeWithParam
 		return nil, err
 	}
 	params = append(params, param)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		size, err := p.parseLiteral(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1432,7 +1432,7 @@ func (p *Parser) parseJSONPath() (*JSONPath, error) {
 	}
 	idents = append(idents, ident)
 
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindDot) != nil {
+	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindDot) != nil {
 		ident, err := p.parseAnyKeyword()
 		if err != nil {
 			return nil, err
@@ -1548,7 +1548,7 @@ func (p *Parser) parseJSONType(name *Ident, pos Pos) (*JSONType, error) {
 	}
 
 	options := make([]*JSONOption, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		option, err := p.parseJSONOption()
 		if err != nil {
 			return nil, err
@@ -1593,7 +1593,7 @@ func (p *Parser) parseNestedType(name *Ident, pos Pos) (*NestedType, error) {
 
 func (p *Parser) parseNestedTypeFields() ([]Expr, error) {
 	switch {
-	case p.lexer.isEOF() || p.matchTokenKind(TokenKindRParen):
+	case p.isEOF() || p.matchTokenKind(TokenKindRParen):
 		// Cases like `Tuple()`
 		return []Expr{}, nil
 	case p.matchTokenKind(TokenKindIdent):
@@ -1635,7 +1635,7 @@ func (p *Parser) parseNestedTypeFieldsWithNames(columnName *Ident) ([]Expr, erro
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseNestedTypeFieldWithName()
 		if err != nil {
 			return nil, err
@@ -1667,7 +1667,7 @@ func (p *Parser) parseNestedTypeFieldsWithoutNames(columnType *Ident) ([]Expr, e
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..de224bb 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -96,6 +96,12 @@ func (p *Parser) matchTokenKind(kinds ...TokenKind) bool {
 	return false
 }
 
+// isEOF reports whether the parser has consumed the whole input. The lexer's
+// isEOF is already true while the last token is still waiting in current().
+func (p *Parser) isEOF() bool {
+	return p.current() == nil
+}
+
 // expectTokenKind consumes the current token if it is the given kind.
 func (p *Parser) expectTokenKind(kind TokenKind) error {
 	if curToken := p.tryConsumeTokenKind(kind); curToken != nil {
@@ -464,7 +470,15 @@ func (p *Parser) wrapError(err error) error {
 	}
 
 	var pe *ParseError
-	if !errors.As(err, &pe) {
+	switch {
+	case p.lexer.err != nil:
+		// The parser sees a lexical error as the end of the input, so whatever
+		// it complained about is only a consequence of it.
+		pe = &ParseError{
+			Pos: p.lexer.errPos,
+			Msg: p.lexer.err.Error(),
+		}
+	case !errors.As(err, &pe):
 		pe = &ParseError{
 			Pos: p.Pos(),
 			Got: p.current(),
diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..41f1be8 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for !p.isEOF() {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for !p.isEOF() {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -817,7 +817,7 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 	}
 
 	args := make([]Expr, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
 		// Check if this is a named parameter (identifier followed by =)
 		var arg Expr
 		var err error
@@ -999,7 +999,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 		}
 		items = append(items, expr)
 
-		if p.lexer.isEOF() || p.tryConsumeTokenKind(TokenKindComma) == nil {
+		if p.isEOF() || p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
 	}
@@ -1196,7 +1196,7 @@ func (p *Parser) parseTTLClause(pos Pos, allowMultiValues bool) ([]*TTLExpr, err
 		return nil, err
 	}
 	items = append(items, expr)
-	for allowMultiValues && !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for allowMultiValues && !p.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		expr, err = p.parseTTLExpr(pos)
 		if err != nil {
 			return nil, err
@@ -1433,7 +1433,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 		return nil, fmt.Errorf("unexpected token: %s", p.currentTokenKind())
 	}
 
-	for !p.lexer.isEOF() {
+	for !p.isEOF() {
 		switch {
 		case p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.isEOF() {
 			break
 		}
 		if p.matchTokenKind(";") {
@@ -1561,6 +1561,10 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err != nil {
 			return nil, p.wrapError(err)
 		}
+		// the statement may have ended where the lexer could not read on
+		if p.lexer.err != nil {
+			return nil, p.wrapError(p.lexer.err)
+		}
 		stmts = append(stmts, stmt)
 	}
 	return stmts, nil
@@ -1818,7 +1822,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1876,7 +1880,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1944,7 +1948,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		for !p.isEOF() {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 0449fce57bef2332cfa5b434b6b6f2255132a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 002/106] fix: honour escapes inside quoted identifiers

A doubled quote or a backslash escape ended the identifier early, so `a``b`
was read as two identifiers.
---
 parser/lexer.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 535530a..790f9c5 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -216,12 +216,25 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 			i++
 		}
 	} else {
-		for l.peekOk(i) && (quoteType == BackTicks && l.peekN(i) != '`' ||
-			quoteType == DoubleQuote && l.peekN(i) != '"') {
+		quote := byte('`')
+		if quoteType == DoubleQuote {
+			quote = '"'
+		}
+		for l.peekOk(i) {
+			c := l.peekN(i)
+			// a backslash escapes the next byte, and a doubled quote stands
+			// for the quote itself, the same as in string literals
+			if c == '\\' || c == quote && l.peekOk(i+1) && l.peekN(i+1) == quote {
+				i += 2
+				continue
+			}
+			if c == quote {
+				break
+			}
 			i++
 		}
-		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
-			(quoteType == DoubleQuote && l.peekN(i) != '"') {
+		if !l.peekOk(i) {
+			i = len(l.input) - l.offset // an escape at the very end steps past it
 			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
 			l.skipN(-1) // stay in front of the opening quote
 			return err
-- 
2.43.0


From e0211fc8e69b4c902e3abbcbe4a0646070a50121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 003/106] fix: read + and - after '}' and '?' as operators, and
 '+>' not as an arrow

---
 parser/lexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 790f9c5..fda558b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -370,9 +370,12 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindFloat ||
 		last.Kind == TokenKindString ||
 		// A closing bracket also terminates an expression, so a following
-		// +/- is a binary operator, e.g. (1)-1 or arr[1]-1.
+		// +/- is a binary operator, e.g. (1)-1, arr[1]-1 or {p:Int32}-1. So
+		// does a placeholder, as in ?-1.
 		last.Kind == TokenKindRParen ||
-		last.Kind == TokenKindRBracket)
+		last.Kind == TokenKindRBracket ||
+		last.Kind == TokenKindRBrace ||
+		last.Kind == TokenKindQuestionMark)
 }
 
 // consumeToken replaces the current token with the next one, or with nil at the
@@ -418,7 +421,7 @@ func (l *Lexer) scanToken() error {
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
 			return l.consumeNumber()
-		} else if l.peekOk(1) && l.peekN(1) == '>' {
+		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
 				Kind:   TokenKindArrow,
-- 
2.43.0


From c3aa8f57f7b115fe6a95336aaff4ed835dd26fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 004/106] fix: bind unary plus and minus looser than
 subscripts, tuple access and '::'

-a[1] was grouped as (-a)[1], and a second sign (- -a) was rejected.
---
 parser/parser_column.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 21a84f5..301f03b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -402,7 +402,9 @@ func (p *Parser) parseUnaryExpr(pos Pos) (Expr, error) {
 	case p.matchTokenKind(TokenKindPlus),
 		p.matchTokenKind(TokenKindMinus):
 		_ = p.lexer.consumeToken()
-		expr, err = p.parseColumnExpr(p.Pos())
+		// A sign binds tighter than the arithmetic operators, but looser than
+		// subscripts, tuple access and `::`: `-a[1]` negates the element.
+		expr, err = p.parseSubExpr(p.Pos(), PrecedenceMulDivMod)
 	case p.matchKeyword(KeywordNot):
 		_ = p.lexer.consumeToken()
 		// Prefix NOT binds looser than comparisons: `NOT a = b` negates the
-- 
2.43.0


From 67bf63955c372410986802911e121915961ef46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 005/106] fix: accept Tuple after '::' in any case, and only
 with its element list

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 301f03b..8356e30 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -131,7 +131,7 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 	case p.matchTokenKind(TokenKindDash):
 		_ = p.lexer.consumeToken()
 
-		if p.matchTokenKind(TokenKindIdent) && p.current().String == "Tuple" {
+		if p.matchTokenKind(TokenKindIdent) && strings.EqualFold(p.current().String, "Tuple") && p.peekTokenKind(TokenKindLParen) {
 			name, err := p.parseIdent()
 			if err != nil {
 				return nil, err
-- 
2.43.0


From b70c5a57dfc9d5675786eb1dd837cb06d5357b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 006/106] fix: nil dereference on input that ends inside an
 enum type

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 8356e30..733102a 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1313,7 +1313,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if p.peekTokenKind(TokenKindSingleEQ) {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From 8a930d40d0d347dd3ae1886d42dc5273c70e34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 007/106] fix: keep the DATE and TIMESTAMP keyword of a typed
 literal

---
 parser/parser_column.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 733102a..e88f256 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -605,12 +605,8 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 
 		return interval, nil
 	case p.matchKeyword(KeywordDate), p.matchKeyword(KeywordTimestamp):
-		nextToken, err := p.lexer.peekToken()
-		if err != nil {
-			return nil, err
-		}
-		if nextToken != nil && nextToken.Kind == TokenKindString {
-			return p.parseString(p.Pos())
+		if p.peekTokenKind(TokenKindString) {
+			return p.parseDateLiteral(pos)
 		}
 		return p.parseIdentOrFunction(pos)
 	case p.matchKeyword(KeywordCast):
@@ -669,6 +665,22 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 	}
 }
 
+// parseDateLiteral parses DATE '...' and TIMESTAMP '...'. The keyword gives the
+// string its type, so it is kept as a prefix operator.
+func (p *Parser) parseDateLiteral(pos Pos) (*UnaryExpr, error) {
+	kind := TokenKind(p.current().ToString())
+	_ = p.lexer.consumeToken()
+	literal, err := p.parseString(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	return &UnaryExpr{
+		UnaryPos: pos,
+		Kind:     kind,
+		Expr:     literal,
+	}, nil
+}
+
 func (p *Parser) parseColumnCastExpr(pos Pos) (Expr, error) {
 	if err := p.expectKeyword(KeywordCast); err != nil {
 		return nil, err
-- 
2.43.0


From 1d2b87ab0c1739b545714f15099548de355547b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 008/106] fix: reject SELECT ON without DISTINCT instead of
 dropping the ON list

---
 parser/parser_query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..7216959 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1107,9 +1107,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From e8a593063aa51b23ed26f0692ef930c60e8b27e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 009/106] fix: print WINDOW after HAVING, and WITH TOTALS
 without GROUP BY

---
 parser/format.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 752c746..44791f7 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2328,10 +2328,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2344,10 +2340,18 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
-- 
2.43.0


From d2cef8c3e1f48e0444b5d3595c0158e0116e1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 010/106] fix: recognise ARRAY JOIN in any case

---
 parser/parser_query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7216959..830960d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -357,7 +357,9 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	}) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From ac4410bb497ef6f677f89c7d21cea6693374004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 011/106] fix: reject a second FINAL, and let TableExpr end at
 FINAL

---
 parser/parser_query.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 830960d..7923105 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -256,7 +256,8 @@ func (p *Parser) parseJoinTableExpr(_ Pos) (Expr, error) {
 		}
 		statementEnd := tableExpr.End()
 
-		hasFinal := p.matchKeyword(KeywordFinal)
+		// parseTableExpr has taken a FINAL that follows the table already
+		hasFinal := !tableExpr.HasFinal && p.matchKeyword(KeywordFinal)
 		if hasFinal {
 			statementEnd = p.End()
 			_ = p.lexer.consumeToken()
@@ -483,6 +484,7 @@ func (p *Parser) parseTableExpr(pos Pos) (*TableExpr, error) {
 	}
 
 	isFinalExist := false
+	finalEnd := p.End()
 	if p.tryConsumeKeywords(KeywordFinal) {
 		switch expr.(type) {
 		case *TableFunctionExpr:
@@ -491,7 +493,7 @@ func (p *Parser) parseTableExpr(pos Pos) (*TableExpr, error) {
 			return nil, errors.New("subquery doesn't support FINAL")
 		}
 		isFinalExist = true
-		tableEnd = expr.End()
+		tableEnd = finalEnd
 	}
 
 	return &TableExpr{
-- 
2.43.0


From 9dcf459328db3d77f5214f4a628f2b05b8b41c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 012/106] fix: keep the parentheses around the operands of
 UNION, EXCEPT and INTERSECT

---
 parser/ast.go          | 1 +
 parser/format.go       | 4 ++++
 parser/parser_query.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..7ec3199 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5290,6 +5290,7 @@ type SelectQuery struct {
 	UnionDistinct *SelectQuery
 	Except        *SelectQuery
 	Intersect     *SelectQuery
+	HasParen      bool `json:",omitempty"` // the query itself is in parentheses, e.g. the operand of a UNION
 }
 
 func (s *SelectQuery) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 44791f7..3009e0f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2286,6 +2286,10 @@ func (s *SelectItem) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SelectQuery) FormatSQL(formatter *Formatter) {
+	if s.HasParen {
+		formatter.WriteByte('(')
+		defer formatter.WriteByte(')')
+	}
 	if s.With != nil {
 		formatter.WriteString("WITH")
 		formatter.Indent()
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 7923105..2323a9e 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1098,6 +1098,7 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 			return nil, err
 		}
 	}
+	selectStmt.HasParen = hasParen
 	return selectStmt, nil
 }
 
@@ -1277,6 +1278,8 @@ func (p *Parser) parseCTEStmt(pos Pos) (*CTEStmt, error) {
 		if err != nil {
 			return nil, err
 		}
+		// the parentheses belong to the CTE
+		selectQuery.HasParen = false
 		return &CTEStmt{
 			CTEPos: pos,
 			Expr:   expr,
-- 
2.43.0


From 62fae192b4df3d6fcb28816226a505406b77fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 013/106] fix: nil dereference on ORDER BY ... AS at the end of
 the input

---
 parser/parser_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 41f1be8..c89e7a6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,8 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, _ := p.lexer.peekToken(); nextToken != nil &&
+			nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordSelect) {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 53440e6f69749919d5bb7aaa1a328a06888ba9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 014/106] fix: require an item in expression lists outside
 parentheses, and after a comma at the end of the input

---
 parser/parser_column.go | 4 ++--
 parser/parser_query.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index e88f256..f40c53c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -749,7 +749,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	}
 	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
 	columnList := make([]Expr, 0)
-	for !p.isEOF() {
+	for {
 		if term != "" && p.matchTokenKind(term) {
 			break
 		}
@@ -774,7 +774,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 
 func (p *Parser) parseSelectItems() ([]*SelectItem, error) {
 	selectItems := make([]*SelectItem, 0)
-	for !p.isEOF() {
+	for {
 		selectItem, err := p.parseSelectItem()
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 2323a9e..2c1f858 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -581,7 +581,7 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		_ = p.lexer.consumeToken()
 		aggregateType = "ALL"
 	default:
-		expr, err = p.parseColumnExprListWithLParen(p.Pos())
+		expr, err = p.parseColumnExprList(p.Pos())
 	}
 	if err != nil {
 		return nil, err
@@ -710,7 +710,7 @@ func (p *Parser) parseLimitByClause(pos Pos) (Expr, error) {
 	if !p.tryConsumeKeywords(KeywordBy) {
 		return limit, nil
 	}
-	if by, err = p.parseColumnExprListWithLParen(p.Pos()); err != nil {
+	if by, err = p.parseColumnExprList(p.Pos()); err != nil {
 		return nil, err
 	}
 	return &LimitByClause{
-- 
2.43.0


From c684e4b1aaed8a7a273bed6f1b154338d36d9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 015/106] fix: require a key after PARTITION BY

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index c89e7a6..df29391 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -922,7 +922,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseColumnExprListWithLParen(p.Pos())
+	columnExpr, err := p.parseColumnExprList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ed4132c8639f686fc3ae31b47d27ba15e072354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 016/106] fix: read EXCEPT before a query as the set operation
 after a plain select item

---
 parser/parser_column.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index f40c53c..58e6779 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1191,6 +1191,18 @@ func (p *Parser) parseColumnsExpr(pos Pos) (*ColumnExpr, error) {
 	}, nil
 }
 
+// peekQueryAfterExcept reports whether the current EXCEPT keyword is followed by
+// a query, i.e. whether it is the set operation and not the column modifier.
+func (p *Parser) peekQueryAfterExcept() bool {
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+
+	_ = p.lexer.consumeToken()
+	_ = p.tryConsumeTokenKind(TokenKindLParen)
+	return p.matchKeyword(KeywordSelect) ||
+		(p.matchKeyword(KeywordWith) && !p.peekTokenKind(TokenKindComma) && !p.peekTokenKind(TokenKindRParen))
+}
+
 func (p *Parser) parseSelectItem() (*SelectItem, error) {
 	expr, err := p.parseExpr(p.Pos())
 	if err != nil {
@@ -1199,7 +1211,7 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 
 	modifiers := make([]*FunctionExpr, 0)
 	for {
-		if p.matchKeyword(KeywordExcept) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
+		if (p.matchKeyword(KeywordExcept) && !p.peekQueryAfterExcept()) || p.matchKeyword(KeywordApply) || p.matchKeyword(KeywordReplace) {
 			modifier, err := p.parseFunctionExpr(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From f7e764bc539bd744811c5cb9b7aaa2e32b193cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 017/106] fix: print the DISTINCT of aggregate arguments and
 array elements

---
 parser/format.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 3009e0f..c828dd0 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -518,12 +518,7 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
-	for i, item := range a.Items.Items {
-		if i > 0 {
-			formatter.WriteString(", ")
-		}
-		formatter.WriteExpr(item)
-	}
+	formatter.WriteExpr(a.Items)
 	formatter.WriteString("]")
 }
 
@@ -649,6 +644,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From cc4a4ad8c87963c6daabcf408ff6900702a8061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 018/106] fix: keep the trailing comma that makes (x,) a tuple

---
 parser/ast.go           | 4 ++++
 parser/format.go        | 3 +++
 parser/parser_column.go | 1 +
 3 files changed, 8 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 7ec3199..e2cf9ec 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3856,6 +3856,10 @@ type ColumnExprList struct {
 	ListEnd     Pos
 	HasDistinct bool
 	Items       []Expr
+
+	// HasTrailingComma is set for a list like (x,): a one-element tuple, where
+	// (x) is only x.
+	HasTrailingComma bool `json:",omitempty"`
 }
 
 func (c *ColumnExprList) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index c828dd0..21d62b3 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -711,6 +711,9 @@ func (c *ColumnExprList) FormatSQL(formatter *Formatter) {
 			formatter.WriteString(", ")
 		}
 	}
+	if c.HasTrailingComma {
+		formatter.WriteByte(',')
+	}
 }
 
 func (c *ColumnNamesExpr) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 58e6779..5496ce0 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -751,6 +751,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	columnList := make([]Expr, 0)
 	for {
 		if term != "" && p.matchTokenKind(term) {
+			columnExprList.HasTrailingComma = len(columnList) > 0
 			break
 		}
 		columnExpr, err := p.parseColumnsExpr(p.Pos())
-- 
2.43.0


From ce62c4db2b6afa4b10498cca16982e797ba60975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 019/106] fix: end a JOIN's ON at a comma, which continues the
 FROM clause

---
 parser/parser_query.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 2c1f858..e740714 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -142,13 +142,18 @@ func (p *Parser) parseFromClause(pos Pos) (*FromClause, error) {
 func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 	switch {
 	case p.tryConsumeKeywords(KeywordOn):
-		columnExprList, err := p.parseColumnExprList(p.Pos())
+		// ON takes one condition: a comma after it continues the FROM clause
+		condition, err := p.parseColumnsExpr(p.Pos())
 		if err != nil {
 			return nil, err
 		}
 		return &OnClause{
 			OnPos: pos,
-			On:    columnExprList,
+			On: &ColumnExprList{
+				ListPos: condition.Pos(),
+				ListEnd: condition.End(),
+				Items:   []Expr{condition},
+			},
 		}, nil
 	case p.tryConsumeKeywords(KeywordUsing):
 		hasParen := p.tryConsumeTokenKind(TokenKindLParen) != nil
-- 
2.43.0


From f29a42697c7b8148e0a1f3d11f90abe710bf21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 020/106] fix: keep the parentheses of USING where they matter

---
 parser/ast.go          | 14 ++++++++++++++
 parser/format.go       |  6 ++++++
 parser/parser_query.go |  7 ++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index e2cf9ec..7f24397 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3862,6 +3862,19 @@ type ColumnExprList struct {
 	HasTrailingComma bool `json:",omitempty"`
 }
 
+// isSingleName reports whether the list is one plain column name.
+func (c *ColumnExprList) isSingleName() bool {
+	if len(c.Items) != 1 || c.HasDistinct {
+		return false
+	}
+	column, ok := c.Items[0].(*ColumnExpr)
+	if !ok || column.Alias != nil {
+		return false
+	}
+	_, ok = column.Expr.(*Ident)
+	return ok
+}
+
 func (c *ColumnExprList) Pos() Pos {
 	return c.ListPos
 }
@@ -4645,6 +4658,7 @@ func (o *OnClause) Accept(visitor ASTVisitor) error {
 type UsingClause struct {
 	UsingPos Pos
 	Using    *ColumnExprList
+	HasParen bool `json:",omitempty"` // the list needs its parentheses
 }
 
 func (u *UsingClause) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 21d62b3..212a648 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2770,7 +2770,13 @@ func (u *UseStmt) FormatSQL(formatter *Formatter) {
 
 func (u *UsingClause) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("USING ")
+	if u.HasParen {
+		formatter.WriteByte('(')
+	}
 	formatter.WriteExpr(u.Using)
+	if u.HasParen {
+		formatter.WriteByte(')')
+	}
 }
 
 func (w *WhenClause) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_query.go b/parser/parser_query.go
index e740714..b5bfd8d 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -157,18 +157,23 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 		}, nil
 	case p.tryConsumeKeywords(KeywordUsing):
 		hasParen := p.tryConsumeTokenKind(TokenKindLParen) != nil
-		columnExprList, err := p.parseColumnExprListWithLParen(p.Pos())
+		columnExprList, err := p.parseColumnExprList(p.Pos())
 		if err != nil {
 			return nil, err
 		}
+		needsParen := false
 		if hasParen {
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
+			// Around a single name the parentheses say nothing, unless a comma
+			// follows: without them it would continue the list.
+			needsParen = !columnExprList.isSingleName() || p.matchTokenKind(TokenKindComma)
 		}
 		return &UsingClause{
 			UsingPos: pos,
 			Using:    columnExprList,
+			HasParen: needsParen,
 		}, nil
 	}
 	return nil, nil
-- 
2.43.0


From b704e042a12070ebede469559443243096c5b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 021/106] fix: reject a column that is both NULL and NOT NULL
 instead of dropping NULL

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index df29391..f6ab600 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -695,6 +695,9 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 		return nil, err
 	}
 	if notNull != nil {
+		if nullable != nil {
+			return nil, errors.New("a column cannot be both NULL and NOT NULL")
+		}
 		columnEnd = notNull.End()
 	}
 
-- 
2.43.0


From 75d597acb14a0fef3c8f16d7debf5962f2662dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 022/106] fix: print a column's COMMENT before CODEC and TTL,
 where the parser accepts it

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 212a648..5b0e689 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -679,6 +679,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -687,10 +691,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From ae3c66c1659c9d0a44abcff783cb70a216844efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 023/106] fix: reject a repeated engine clause instead of
 dropping the first one

---
 parser/parser_table.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index f6ab600..c860dbd 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1439,42 +1439,42 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 
 	for !p.isEOF() {
 		switch {
-		case p.matchKeyword(KeywordOrder):
+		case p.matchKeyword(KeywordOrder) && engineExpr.OrderBy == nil:
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
-		case p.matchKeyword(KeywordPartition):
+		case p.matchKeyword(KeywordPartition) && engineExpr.PartitionBy == nil:
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
-		case p.matchKeyword(KeywordPrimary):
+		case p.matchKeyword(KeywordPrimary) && engineExpr.PrimaryKey == nil:
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
-		case p.matchKeyword(KeywordSample):
+		case p.matchKeyword(KeywordSample) && engineExpr.SampleBy == nil:
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
-		case p.matchKeyword(KeywordTtl):
+		case p.matchKeyword(KeywordTtl) && engineExpr.TTL == nil:
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
 			}
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
-		case p.matchKeyword(KeywordSettings):
+		case p.matchKeyword(KeywordSettings) && engineExpr.Settings == nil:
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 2b609b77a57eef0008bf5e01fda6a55b0a824e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 024/106] fix: reject stray commas in a column definition list

---
 parser/parser_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index c860dbd..2c248b2 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -647,7 +647,8 @@ func (p *Parser) parseTableColumns() ([]Expr, error) {
 				return nil, err
 			}
 			if column == nil {
-				break
+				// only the end of the list may follow
+				return columns, nil
 			}
 			columns = append(columns, column)
 		}
-- 
2.43.0


From 857a9ac323cdcd319a51ed08b6581b69694dd5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 025/106] fix: keep DETACH apart from DROP

---
 parser/ast.go          |  2 ++
 parser/format.go       | 12 ++++++++++--
 parser/parser_drop.go  |  6 ++++--
 parser/parser_table.go |  8 ++++----
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 7f24397..bbba566 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5597,6 +5597,7 @@ type DropDatabase struct {
 	IfExists     bool
 	OnCluster    *ClusterClause
 	Modifier     string
+	IsDetach     bool `json:",omitempty"` // DETACH instead of DROP
 }
 
 func (d *DropDatabase) Pos() Pos {
@@ -5635,6 +5636,7 @@ type DropStmt struct {
 	OnCluster   *ClusterClause
 	IsTemporary bool
 	Modifier    string
+	IsDetach    bool `json:",omitempty"` // DETACH instead of DROP
 }
 
 func (d *DropStmt) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 5b0e689..835f901 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1395,7 +1395,11 @@ func (s *DistinctOn) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropDatabase) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP DATABASE ")
+	if d.IsDetach {
+		formatter.WriteString("DETACH DATABASE ")
+	} else {
+		formatter.WriteString("DROP DATABASE ")
+	}
 	if d.IfExists {
 		formatter.WriteString("IF EXISTS ")
 	}
@@ -1410,7 +1414,11 @@ func (d *DropDatabase) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropStmt) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP ")
+	if d.IsDetach {
+		formatter.WriteString("DETACH ")
+	} else {
+		formatter.WriteString("DROP ")
+	}
 	if d.IsTemporary {
 		formatter.WriteString("TEMPORARY ")
 	}
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index dc06329..eb579f1 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -1,6 +1,6 @@
 package parser
 
-func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
+func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error) {
 	if err := p.expectKeyword(KeywordDatabase); err != nil {
 		return nil, err
 	}
@@ -39,11 +39,12 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 		IfExists:     isExists,
 		OnCluster:    onCluster,
 		Modifier:     modifier,
+		IsDetach:     isDetach,
 		StatementEnd: statementEnd,
 	}, nil
 }
 
-func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
+func (p *Parser) parseDropStmt(pos Pos, isDetach bool) (*DropStmt, error) {
 	var isTemporary bool
 	dropTarget := KeywordTable
 	switch {
@@ -86,6 +87,7 @@ func (p *Parser) parseDropStmt(pos Pos) (*DropStmt, error) {
 		OnCluster:    onCluster,
 		IsTemporary:  isTemporary,
 		Modifier:     modifier,
+		IsDetach:     isDetach,
 		StatementEnd: p.Pos(),
 	}, nil
 }
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 2c248b2..e29f644 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -53,17 +53,17 @@ func (p *Parser) parseDDL(pos Pos) (DDL, error) {
 		}
 	case p.matchKeyword(KeywordDrop),
 		p.matchKeyword(KeywordDetach):
+		isDetach := p.matchKeyword(KeywordDetach)
 		_ = p.lexer.consumeToken()
 		switch {
 		case p.matchKeyword(KeywordDatabase):
-			return p.parseDropDatabase(pos)
+			return p.parseDropDatabase(pos, isDetach)
 		case p.matchKeyword(KeywordTemporary),
 			p.matchKeyword(KeywordView),
 			p.matchKeyword(KeywordDictionary),
 			p.matchKeyword(KeywordTable):
-			return p.parseDropStmt(pos)
-		case p.matchKeyword(KeywordUser),
-			p.matchKeyword(KeywordRole):
+			return p.parseDropStmt(pos, isDetach)
+		case !isDetach && p.matchOneOfKeywords(KeywordUser, KeywordRole):
 			return p.parserDropUserOrRole(pos)
 		default:
 			return nil, fmt.Errorf("expected keyword: DATABASE|TABLE, but got %q", p.currentTokenString())
-- 
2.43.0


From 4db5f54d908a8c5f33ce4246f536cd0a865060da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 026/106] fix: print FROM of DROP USER before SYNC, and reject
 a second ON CLUSTER

---
 parser/format.go       |  6 +++---
 parser/parse_system.go | 10 ++--------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 835f901..3a161d1 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1447,13 +1447,13 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 		}
 		formatter.WriteExpr(name)
 	}
-	if len(d.Modifier) != 0 {
-		formatter.WriteString(" " + d.Modifier)
-	}
 	if d.From != nil {
 		formatter.WriteString(" FROM ")
 		formatter.WriteExpr(d.From)
 	}
+	if len(d.Modifier) != 0 {
+		formatter.WriteString(" " + d.Modifier)
+	}
 }
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..9e968be 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -961,22 +961,16 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 		}
 		names = append(names, name)
 	}
+	// parseRoleName takes ON CLUSTER along with the name
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
 		if err != nil {
 			return nil, err
 		}
+		statementEnd = from.End()
 	}
 
 	modifier, err := p.tryParseModifier()
-- 
2.43.0


From 71646f486c203045bfedf53b1e72c361d4a540a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 027/106] fix: nil dereferences in SYSTEM RELOAD and CREATE
 USER at the end of the input

---
 parser/lexer.go         |  4 ++++
 parser/parse_system.go  | 32 ++++++++++++++++----------------
 parser/parser_common.go | 14 ++++++++++++++
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index fda558b..8d1b15c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -77,6 +77,7 @@ func (t *Token) ToString() string {
 type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
+	lastEnd      Pos    // end of the token consumed last
 }
 
 type Lexer struct {
@@ -393,6 +394,9 @@ func (l *Lexer) consumeToken() error {
 func (l *Lexer) scanToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
+	if prevToken != nil {
+		l.lastEnd = prevToken.End
+	}
 	l.currentToken = nil
 	if err := l.skipComments(); err != nil {
 		return err
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 9e968be..3f1cf2d 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -74,16 +74,16 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 	switch {
 	case p.matchKeyword(KeywordDictionaries):
 		typ = KeywordDictionaries
-		statementEnd = p.current().End
+		statementEnd = p.currentEnd()
 		_ = p.lexer.consumeToken()
 	case p.matchKeyword(KeywordDictionary):
 		typ = KeywordDictionary
-		statementEnd = p.current().End
+		statementEnd = p.currentEnd()
 		hasDictionaryName = true
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.currentEnd() // DICTIONARIES
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
@@ -570,14 +570,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.currentEnd()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.currentEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +594,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.currentEnd()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +608,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.currentEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +636,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.currentEnd()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +666,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.currentEnd()
 		return defaultRole, nil
 	}
 
@@ -699,10 +699,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.currentEnd()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.currentEnd()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -807,11 +807,11 @@ func (p *Parser) parseHostClauses() ([]*HostClause, error) {
 
 func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	nextToken, err := p.lexer.peekToken()
-	if err != nil {
+	if err != nil || nextToken == nil || nextToken.Kind != TokenKindKeyword {
 		return false, err
 	}
 
-	if nextToken.String == KeywordRole {
+	if strings.EqualFold(nextToken.String, KeywordRole) {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -819,12 +819,12 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if strings.EqualFold(nextToken.String, KeywordDatabase) {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.currentEnd()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
@@ -1382,7 +1382,7 @@ func (p *Parser) parseGrantPrivilegeStmt(pos Pos) (*GrantPrivilegeStmt, error) {
 		return nil, err
 	}
 	if len(options) != 0 {
-		statementEnd = p.End()
+		statementEnd = p.currentEnd()
 	}
 
 	return &GrantPrivilegeStmt{
diff --git a/parser/parser_common.go b/parser/parser_common.go
index de224bb..464fd33 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -62,6 +62,20 @@ func (p *Parser) End() Pos {
 	return p.current().End
 }
 
+// lastEnd returns the end of the token consumed last.
+func (p *Parser) lastEnd() Pos {
+	return p.lexer.lastEnd
+}
+
+// currentEnd returns the end of the current token, or of the last one when
+// the input is used up.
+func (p *Parser) currentEnd() Pos {
+	if p.current() == nil {
+		return p.lastEnd()
+	}
+	return p.current().End
+}
+
 func (p *Parser) Pos() Pos {
 	last := p.current()
 	if last == nil {
-- 
2.43.0


From e5e735fcddfa6d78ab5c9e099dcb7a850c66ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 028/106] fix: nil dereference in the End of CHECK TABLE
 without a partition and of a setting without a value

---
 parser/ast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index bbba566..a3f1782 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.End()
+	}
 	return s.Value.End()
 }
 
@@ -6245,6 +6248,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
-- 
2.43.0


From c160d25278e03237a380da131a67f597a369e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 029/106] fix: read SENDS, FETCHES, MERGES and TTL MERGES of
 SYSTEM START and STOP

---
 parser/parse_system.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 3f1cf2d..4e4cc54 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -154,21 +154,23 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 
 	var typ string
 	switch {
-	case p.tryConsumeKeywords(KeywordDistributed):
+	case p.matchOneOfKeywords(KeywordDistributed, KeywordFetches, KeywordMerges, KeywordTtl):
 		switch {
-		case p.matchKeyword(KeywordSends):
+		case p.tryConsumeKeywords(KeywordDistributed):
 			typ = "DISTRIBUTED SENDS"
-		case p.matchKeyword(KeywordFetches):
+			if err := p.expectKeyword(KeywordSends); err != nil {
+				return nil, err
+			}
+		case p.tryConsumeKeywords(KeywordFetches):
 			typ = "FETCHES"
-		case p.matchKeyword(KeywordMerges):
+		case p.tryConsumeKeywords(KeywordMerges):
 			typ = "MERGES"
-		case p.matchKeyword(KeywordTtl):
+		default:
 			typ = "TTL MERGES"
+			_ = p.lexer.consumeToken()
 			if err := p.expectKeyword(KeywordMerges); err != nil {
 				return nil, err
 			}
-		default:
-			return nil, fmt.Errorf("expected SENDS|FETCHES|MERGES|TTL")
 		}
 		cluster, err := p.parseTableIdentifier(p.Pos())
 		if err != nil {
@@ -194,7 +196,7 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 			Type:         typ,
 		}, nil
 	default:
-		return nil, fmt.Errorf("expected DISTRIBUTED|REPLICATED")
+		return nil, fmt.Errorf("expected DISTRIBUTED|REPLICATED|FETCHES|MERGES|TTL")
 	}
 }
 
-- 
2.43.0


From d1f662d6e22f6dc190140775733caa3f5c0f87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 030/106] fix: print REPLICA of SYSTEM SYNC and DISTRIBUTED of
 SYSTEM FLUSH

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 3a161d1..0337237 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2524,6 +2524,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2548,7 +2549,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
-- 
2.43.0


From 6501405c95292a6148543216797996fc1ddae92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 031/106] fix: require a role setting after SETTINGS and its
 commas, and read its modifiers in any case

---
 parser/parse_system.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 4e4cc54..59ea15f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -438,7 +438,8 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		upperName := strings.ToUpper(name.Name)
+		switch upperName {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -461,7 +462,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && upperName != "MIN" && upperName != "MAX" && upperName != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
@@ -476,6 +477,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected <ident>, but got %q", p.currentTokenKind())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From baed25cd7bf320812301a2d18ff5bbcceca48cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 032/106] fix: reject a repeated CREATE USER clause instead of
 dropping the first one

---
 parser/parse_system.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 59ea15f..0abac0f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -817,7 +817,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, err
 	}
 
-	if strings.EqualFold(nextToken.String, KeywordRole) {
+	if strings.EqualFold(nextToken.String, KeywordRole) && createUser.DefaultRole == nil {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -825,7 +825,8 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if strings.EqualFold(nextToken.String, KeywordDatabase) {
+	} else if strings.EqualFold(nextToken.String, KeywordDatabase) &&
+		createUser.DefaultDatabase == nil && !createUser.DefaultDbNone {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -848,7 +849,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	continueParsing := true
 	for continueParsing {
 		switch {
-		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified) && createUser.Authentication == nil:
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -856,7 +857,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Authentication = auth
 			createUser.StatementEnd = auth.End()
 
-		case p.matchKeyword(KeywordValid):
+		case p.matchKeyword(KeywordValid) && createUser.ValidUntil == nil:
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -868,7 +869,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.ValidUntil = validUntil
 			createUser.StatementEnd = validUntil.End()
 
-		case p.matchKeyword(KeywordHost):
+		case p.matchKeyword(KeywordHost) && createUser.Hosts == nil:
 			hosts, err := p.parseHostClauses()
 			if err != nil {
 				return err
@@ -885,7 +886,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 				continueParsing = false
 			}
 
-		case p.matchKeyword(KeywordGrantees):
+		case p.matchKeyword(KeywordGrantees) && createUser.Grantees == nil:
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -893,7 +894,7 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.Grantees = grantees
 			createUser.StatementEnd = grantees.End()
 
-		case p.matchKeyword(KeywordSettings):
+		case p.matchKeyword(KeywordSettings) && createUser.Settings == nil:
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
-- 
2.43.0


From 0b536a45bffcb2df787abca142a00e5d1c1f0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 033/106] fix: require an unquoted authentication type after
 IDENTIFIED WITH, and print an empty REALM

---
 parser/format.go       | 2 +-
 parser/parse_system.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 0337237..eca4aa2 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -555,7 +555,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 0abac0f..55e6871 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -609,7 +609,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.KerberosRealm = realm
 				auth.AuthEnd = realm.End()
 			}
-		} else if p.matchTokenKind(TokenKindIdent) {
+		} else if p.matchTokenKind(TokenKindIdent) && p.current().QuoteType <= Unquoted {
 			// Auth types like no_password, plaintext_password, etc.
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
@@ -624,6 +624,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected an authentication type, but got %q", p.currentTokenKind())
 		}
 	}
 
-- 
2.43.0


From f692cee25deef89bcbececb02a4a53ecac9f2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 034/106] fix: print the privileges of GRANT as they were read

---
 parser/format.go       |  2 +-
 parser/parse_system.go | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index eca4aa2..1564b4d 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1571,8 +1571,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 55e6871..b33fc6c 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1035,6 +1035,7 @@ func (p *Parser) parsePrivilegeAlter(pos Pos) (*PrivilegeClause, error) {
 			keywords = append(keywords, KeywordColumn)
 		case p.tryConsumeKeywords(KeywordIndex):
 			keywords = append(keywords, KeywordIndex)
+		case p.tryConsumeKeywords(KeywordConstraint):
 			keywords = append(keywords, KeywordConstraint)
 		case p.tryConsumeKeywords(KeywordTtl):
 			keywords = append(keywords, KeywordTtl)
@@ -1139,7 +1140,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
@@ -1212,7 +1213,7 @@ func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
 
 func (p *Parser) parsePrivilegeClause(pos Pos) (*PrivilegeClause, error) {
 	if p.matchTokenKind(TokenKindIdent) {
-		if p.current().String == "dictGet" {
+		if strings.EqualFold(p.current().String, "dictGet") && p.current().QuoteType <= Unquoted {
 			_ = p.lexer.consumeToken()
 			return &PrivilegeClause{
 				PrivilegePos: pos,
@@ -1231,11 +1232,12 @@ func (p *Parser) parsePrivilegeClause(pos Pos) (*PrivilegeClause, error) {
 		return p.parsePrivilegeDrop(pos)
 	case p.tryConsumeKeywords(KeywordShow):
 		return p.parsePrivilegeShow(pos)
-	case p.matchKeyword(KeywordAll), p.matchTokenKind(KeywordNone):
+	case p.matchOneOfKeywords(KeywordAll, KeywordNone):
+		keyword := strings.ToUpper(p.current().String)
 		_ = p.lexer.consumeToken()
 		return &PrivilegeClause{
 			PrivilegePos: pos,
-			Keywords:     []string{KeywordAll},
+			Keywords:     []string{keyword},
 		}, nil
 	case p.tryConsumeKeywords(KeywordKill):
 		if err := p.expectKeyword(KeywordQuery); err != nil {
-- 
2.43.0


From 20b6b2e3482e221013ab66369e9f971ef4cac0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 035/106] fix: reject a quoted identifier as a grant option,
 which lost its quotes

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index b33fc6c..e1ff7dc 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1315,6 +1315,9 @@ func (p *Parser) parseGrantOption(_ Pos) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ident.QuoteType > Unquoted {
+		return "", fmt.Errorf("expected a grant option, but got a quoted identifier")
+	}
 	if err := p.expectKeyword(KeywordOption); err != nil {
 		return "", err
 	}
-- 
2.43.0


From bca69248c675defaf73f3250bafb6cd319688688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 036/106] fix: print FUNCTION of INSERT INTO FUNCTION

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 1564b4d..7152f83 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1694,6 +1694,9 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.HasTableKeyword {
 		formatter.WriteString("TABLE ")
 	}
+	if _, isFunction := i.Table.(*FunctionExpr); isFunction {
+		formatter.WriteString("FUNCTION ")
+	}
 	formatter.WriteExpr(i.Table)
 	if i.ColumnNames != nil {
 		formatter.Break()
-- 
2.43.0


From bc773b203d62ab0d5a109ad9ef1b645541946702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 037/106] fix: reject stray commas and parentheses in INSERT,
 and print VALUES without rows

---
 parser/format.go       |  2 +-
 parser/parser_table.go | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 7152f83..3185bfa 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1712,7 +1712,7 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.SelectExpr != nil {
 		formatter.Break()
 		formatter.WriteExpr(i.SelectExpr)
-	} else if len(i.Values) > 0 {
+	} else if i.Values != nil {
 		formatter.Break()
 		formatter.WriteString("VALUES")
 		formatter.Indent()
diff --git a/parser/parser_table.go b/parser/parser_table.go
index e29f644..5faa32e 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1827,7 +1827,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1885,7 +1885,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1953,15 +1953,14 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.isEOF() {
+		// the rows may follow the statement as data
+		for hasMore := p.matchTokenKind(TokenKindLParen); hasMore; {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			values = append(values, value)
-			if p.tryConsumeTokenKind(TokenKindComma) == nil {
-				break
-			}
+			hasMore = p.tryConsumeTokenKind(TokenKindComma) != nil
 		}
 		insertExpr.Values = values
 	case p.matchKeyword(KeywordSelect):
-- 
2.43.0


From b492f38cbab0aa2af7585750805df34b20567ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 038/106] fix: accept WITH before the SELECT of INSERT

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5faa32e..e18e33c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1963,7 +1963,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 			hasMore = p.tryConsumeTokenKind(TokenKindComma) != nil
 		}
 		insertExpr.Values = values
-	case p.matchKeyword(KeywordSelect):
+	case p.matchOneOfKeywords(KeywordSelect, KeywordWith):
 		insertExpr.SelectExpr, err = p.parseSelectQuery(p.Pos())
 	default:
 		// do nothing
-- 
2.43.0


From 71965d01845181df9666325a2b95535e26a2d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 039/106] fix: reject a second FORMAT after a query instead of
 dropping it

---
 parser/parser_table.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index e18e33c..2a94b28 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1538,9 +1538,11 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, err = p.tryParseFormat(p.Pos())
-	if err != nil {
-		return nil, err
+	// a query has taken its FORMAT already, and can't have another one
+	if !isQueryExpr(expr) {
+		if _, err = p.tryParseFormat(p.Pos()); err != nil {
+			return nil, err
+		}
 	}
 
 	// Statement can be terminated by ';' or EOF
@@ -1550,6 +1552,17 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	return expr, nil
 }
 
+// isQueryExpr reports whether expr ends with a query or with its own FORMAT.
+func isQueryExpr(expr Expr) bool {
+	switch stmt := expr.(type) {
+	case *SelectQuery, *ExplainStmt:
+		return true
+	case *InsertStmt:
+		return stmt.SelectExpr != nil || stmt.Format != nil
+	}
+	return false
+}
+
 func (p *Parser) ParseStmts() ([]Expr, error) {
 	var stmts []Expr
 	for {
-- 
2.43.0


From 53e9ab6321c86584ee9a5c143537340157f5e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 040/106] fix: keep the FORMAT after a UNION that ends in
 parentheses

---
 parser/ast.go          |  8 ++++++-
 parser/format.go       |  4 ++++
 parser/parser_table.go | 48 ++++++++++++++++++++++++++++++++----------
 parser/walk.go         |  3 +++
 4 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index a3f1782..9ca805e 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5311,7 +5311,8 @@ type SelectQuery struct {
 	UnionDistinct *SelectQuery
 	Except        *SelectQuery
 	Intersect     *SelectQuery
-	HasParen      bool `json:",omitempty"` // the query itself is in parentheses, e.g. the operand of a UNION
+	OuterFormat   *FormatClause `json:",omitempty"` // after a UNION, EXCEPT or INTERSECT that ends in parentheses
+	HasParen      bool          `json:",omitempty"` // the query itself is in parentheses, e.g. the operand of a UNION
 }
 
 func (s *SelectQuery) Pos() Pos {
@@ -5422,6 +5423,11 @@ func (s *SelectQuery) Accept(visitor ASTVisitor) error {
 			return err
 		}
 	}
+	if s.OuterFormat != nil {
+		if err := s.OuterFormat.Accept(visitor); err != nil {
+			return err
+		}
+	}
 	return visitor.VisitSelectQuery(s)
 }
 
diff --git a/parser/format.go b/parser/format.go
index 3185bfa..c0c8040 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2409,6 +2409,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Intersect)
 	}
+	if s.OuterFormat != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.OuterFormat)
+	}
 }
 
 func (s *SetStmt) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 2a94b28..4240d90 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1538,11 +1538,8 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	if err != nil {
 		return nil, err
 	}
-	// a query has taken its FORMAT already, and can't have another one
-	if !isQueryExpr(expr) {
-		if _, err = p.tryParseFormat(p.Pos()); err != nil {
-			return nil, err
-		}
+	if err = p.parseTrailingFormat(expr); err != nil {
+		return nil, err
 	}
 
 	// Statement can be terminated by ';' or EOF
@@ -1552,15 +1549,44 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	return expr, nil
 }
 
-// isQueryExpr reports whether expr ends with a query or with its own FORMAT.
-func isQueryExpr(expr Expr) bool {
+// parseTrailingFormat parses the FORMAT after a statement. A query has taken
+// its FORMAT already and can't have another one, unless it ends in parentheses.
+func (p *Parser) parseTrailingFormat(expr Expr) error {
+	var query *SelectQuery
 	switch stmt := expr.(type) {
-	case *SelectQuery, *ExplainStmt:
-		return true
+	case *SelectQuery:
+		query = stmt
+	case *ExplainStmt:
+		query, _ = stmt.Statement.(*SelectQuery)
 	case *InsertStmt:
-		return stmt.SelectExpr != nil || stmt.Format != nil
+		if stmt.Format != nil {
+			return nil
+		}
+		query = stmt.SelectExpr
+	}
+	if query == nil {
+		_, err := p.tryParseFormat(p.Pos())
+		return err
+	}
+	last := query
+	for next := last; next != nil; {
+		last = next
+		switch {
+		case last.UnionAll != nil:
+			next = last.UnionAll
+		case last.UnionDistinct != nil:
+			next = last.UnionDistinct
+		case last.Except != nil:
+			next = last.Except
+		default:
+			next = last.Intersect
+		}
+	}
+	var err error
+	if last.HasParen {
+		query.OuterFormat, err = p.tryParseFormat(p.Pos())
 	}
-	return false
+	return err
 }
 
 func (p *Parser) ParseStmts() ([]Expr, error) {
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..5f0f8a0 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -78,6 +78,9 @@ func Walk(node Expr, fn WalkFunc) bool {
 		if !Walk(n.Format, fn) {
 			return false
 		}
+		if !Walk(n.OuterFormat, fn) {
+			return false
+		}
 	case *SubQuery:
 		if !Walk(n.Select, fn) {
 			return false
-- 
2.43.0


From 4e75c26c6208ac0cc05d18102de4d3ff490e8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 041/106] fix: print the keywords of a table constraint

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index c0c8040..d65e124 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -768,8 +768,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
-- 
2.43.0


From 6dbc694baac131f32342827ade607d4b5f070fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 042/106] fix: print IF NOT EXISTS of ADD INDEX after INDEX

---
 parser/format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index d65e124..3cb8352 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -249,11 +249,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2652,6 +2652,11 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INDEX")
 	formatter.WriteByte(whitespace)
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition writes the index without the INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
-- 
2.43.0


From e7406fa3552be26c0bcc9ecabb9071e251e25706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 043/106] fix: require the partition after IN of CLEAR and
 MATERIALIZE

---
 parser/parser_alter.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index df70ef3..dd19ad6 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -566,13 +566,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
@@ -819,7 +817,7 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c66e0f37b44183329e8cc17abc13105966de0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 044/106] fix: give a function in a dictionary argument its
 empty parameter list, which printing and walking need

---
 parser/parser_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4240d90..3b2617a 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2431,12 +2431,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			lParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  lParenPos,
+					RightParenPos: rParenPos,
+					Items:         &ColumnExprList{ListPos: rParenPos, ListEnd: rParenPos},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From dc7ad5a3c31d578b5ffc6ce3287fc43a7638a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 045/106] fix: require LIKE after NOT of SHOW DATABASES

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3b2617a..dc43532 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1683,6 +1683,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchOneOfKeywords(KeywordLike, KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
-- 
2.43.0


From d1c78b85bb08b77739f31fec67df5b7047ab6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 046/106] fix: print the UUID of CREATE LIVE VIEW

---
 parser/format.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 3cb8352..4d62cbd 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -859,6 +859,10 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
 	formatter.WriteExpr(c.Name)
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
 
 	if c.OnCluster != nil {
 		formatter.Break()
@@ -2923,10 +2927,12 @@ func (w *WithClause) FormatSQL(formatter *Formatter) {
 }
 
 func (w *WithTimeoutClause) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("WITH TIMEOUT ")
+	formatter.WriteString("WITH TIMEOUT")
 	if w.Number != nil {
+		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(w.Number)
-		return
+	} else if w.Expr != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(w.Expr)
 	}
-	formatter.WriteExpr(w.Expr)
 }
-- 
2.43.0


From fc0b0a40c1705e40a00eae75d8fff84f60167500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 047/106] fix: print an empty column list

---
 parser/format.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 4d62cbd..f64946e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2703,6 +2703,8 @@ func (t *TableSchemaClause) FormatSQL(formatter *Formatter) {
 		formatter.Dedent()
 		formatter.NewLine()
 		formatter.WriteByte(')')
+	} else if t.AliasTable == nil && t.TableFunction == nil {
+		formatter.WriteString("()")
 	}
 	if t.AliasTable != nil {
 		formatter.WriteString(" AS ")
-- 
2.43.0


From 982db0f009b1b7a9a711616832b5c21190fb890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 048/106] fix: keep the quotes of an engine name

---
 parser/ast.go          | 1 +
 parser/format.go       | 2 +-
 parser/parser_table.go | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 9ca805e..9d32b7a 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3749,6 +3749,7 @@ type EngineExpr struct {
 	EnginePos   Pos
 	EngineEnd   Pos
 	Name        string
+	QuoteType   int `json:",omitempty"` // of the name, where it is quoted
 	Params      *ParamExprList
 	PrimaryKey  *PrimaryKeyClause
 	PartitionBy *PartitionByClause
diff --git a/parser/format.go b/parser/format.go
index f64946e..16bde41 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1463,7 +1463,7 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("ENGINE = ")
-	formatter.WriteString(e.Name)
+	formatter.WriteExpr(&Ident{Name: e.Name, QuoteType: e.QuoteType})
 	if e.Params != nil {
 		formatter.WriteExpr(e.Params)
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index dc43532..d5282da 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1425,6 +1425,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			return nil, err
 		}
 		engineExpr.Name = ident.Name
+		if ident.QuoteType > Unquoted {
+			engineExpr.QuoteType = ident.QuoteType
+		}
 		engineEnd = ident.End()
 		if p.matchTokenKind(TokenKindLParen) {
 			params, err := p.parseFunctionParams(p.Pos())
-- 
2.43.0


From b126ba777c6dde136230a4a12659bd5c6c418de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 049/106] fix: leave the newlines inside quoted text alone when
 beautifying

---
 parser/format.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 16bde41..944d302 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -60,6 +60,14 @@ func (f *Formatter) WriteString(s string) {
 	}
 }
 
+// writeVerbatim writes quoted text, whose newlines start no line of the layout.
+func (f *Formatter) writeVerbatim(s string) {
+	if f.mode == FormatModeBeautify && s != "" {
+		f.writeIndentIfNeeded()
+	}
+	f.builder.WriteString(s)
+}
+
 func (f *Formatter) WriteByte(b byte) {
 	if f.mode == FormatModeBeautify {
 		if b == newline {
@@ -1673,18 +1681,18 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	switch i.QuoteType {
 	case BackTicks:
 		formatter.WriteByte('`')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('`')
 	case DoubleQuote:
 		formatter.WriteByte('"')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('"')
 	case SingleQuote:
 		formatter.WriteByte('\'')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('\'')
 	default:
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 	}
 }
 
@@ -2502,7 +2510,7 @@ func (s *ShowStmt) FormatSQL(formatter *Formatter) {
 
 func (s *StringLiteral) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('\'')
-	formatter.WriteString(s.Literal)
+	formatter.writeVerbatim(s.Literal)
 	formatter.WriteByte('\'')
 }
 
@@ -2667,7 +2675,7 @@ func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	if len(columnExprStr) > 0 && columnExprStr[0] != '(' {
 		formatter.WriteByte(whitespace)
 	}
-	formatter.WriteString(columnExprStr)
+	formatter.writeVerbatim(columnExprStr)
 	formatter.WriteByte(whitespace)
 	formatter.WriteString("TYPE")
 	formatter.WriteByte(whitespace)
-- 
2.43.0


From a3f468c9e48d3cb1c99987b0e319e2dc235919ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 050/106] fix: let Walk leave out only the subtree of a node
 that fn returns false for

---
 parser/walk.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index 5f0f8a0..c3e04f7 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -8,13 +8,14 @@ import "reflect"
 type WalkFunc func(node Expr) bool
 
 // Walk traverses an AST in depth-first order, calling the provided function
-// for each node. If the function returns false, traversal stops for that subtree.
+// for each node. If the function returns false, traversal stops for that subtree
+// and goes on with the rest of the tree. Walk always returns true.
 func Walk(node Expr, fn WalkFunc) bool {
 	if node == nil || reflect.ValueOf(node).IsNil() {
 		return true
 	}
 	if !fn(node) {
-		return false
+		return true
 	}
 
 	switch n := node.(type) {
@@ -1647,29 +1648,12 @@ func walkJSONPath(path *JSONPath, fn WalkFunc) bool {
 // The provided function should return true to continue walking,
 // or false to stop the traversal entirely.
 func WalkWithBreak(node Expr, fn WalkFunc) bool {
-	if node == nil {
-		return true
-	}
-
-	// Call the function first - if it returns false, stop immediately
-	if !fn(node) {
-		return false
-	}
-
-	// For early termination support, use a helper that converts our function
-	// to one that collects a boolean result
+	// Walk only leaves out the subtree of a node that it gets false for, so
+	// after the first false all the nodes that are left have to get it.
 	var continueWalk = true
 	Walk(node, func(child Expr) bool {
-		// Skip the current node since we already processed it
-		if child == node {
-			return true
-		}
-		// Call our termination-aware function
-		if !fn(child) {
-			continueWalk = false
-			return false
-		}
-		return true
+		continueWalk = continueWalk && fn(child)
+		return continueWalk
 	})
 
 	return continueWalk
-- 
2.43.0


From 16b0e0412884609218dffc24c50837e6ddc0b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 051/106] fix: reject expressions and queries nested too deep
 for the stack instead of crashing

---
 parser/parser_column.go |  5 +++++
 parser/parser_common.go | 20 ++++++++++++++++++++
 parser/parser_query.go  |  4 ++++
 3 files changed, 29 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 5496ce0..250564b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -271,6 +271,11 @@ func (p *Parser) parseExpr(pos Pos) (Expr, error) {
 }
 
 func (p *Parser) parseSubExpr(pos Pos, precedence int) (Expr, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	expr, err := p.parseUnaryExpr(pos)
 	if err != nil {
 		return nil, err
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 464fd33..447ed14 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -15,6 +15,26 @@ type Parser struct {
 	// position at most once. See the KeywordInterval case there for why the
 	// memo is sound and what it prevents.
 	failedIntervalOffsets map[Pos]struct{}
+
+	depth int // of the expressions and queries being parsed
+}
+
+// maxDepth bounds how deep expressions and queries may nest. Parsing them
+// takes about 2KB of stack per level, and a goroutine that runs out of its
+// stack can't be recovered.
+const maxDepth = 200000
+
+// enter counts a level of nesting; leave takes it back.
+func (p *Parser) enter() error {
+	if p.depth >= maxDepth {
+		return fmt.Errorf("nested deeper than %d levels", maxDepth)
+	}
+	p.depth++
+	return nil
+}
+
+func (p *Parser) leave() {
+	p.depth--
 }
 
 // lineStarts returns the line-start offsets for the input, building them on
diff --git a/parser/parser_query.go b/parser/parser_query.go
index b5bfd8d..bd59023 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1066,6 +1066,10 @@ func (p *Parser) parseSelectQuery(_ Pos) (*SelectQuery, error) {
 	if !p.matchKeyword(KeywordSelect) && !p.matchKeyword(KeywordWith) && !p.matchTokenKind(TokenKindLParen) {
 		return nil, fmt.Errorf("expected SELECT, WITH or (, got %s", p.currentTokenKind())
 	}
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
 
 	hasParen := p.tryConsumeTokenKind(TokenKindLParen) != nil
 	selectStmt, err := p.parseSelectStmt(p.Pos())
-- 
2.43.0


From 756ab9011a675a214e265b84927628e54a0b3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 052/106] fix: give PARTITION ALL an end position instead of
 dereferencing its missing expression

---
 parser/ast.go          | 6 +++++-
 parser/parser_alter.go | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 9d32b7a..0b67b66 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2316,6 +2316,7 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+	AllEnd       Pos `json:",omitempty"`
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2326,7 +2327,10 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
-	return p.Expr.End()
+	if p.Expr != nil {
+		return p.Expr.End()
+	}
+	return p.AllEnd
 }
 
 func (p *PartitionClause) Accept(visitor ASTVisitor) error {
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index dd19ad6..74220b6 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -377,6 +377,7 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 		partition.ID = id
 	} else if p.tryConsumeKeywords(KeywordAll) {
 		partition.All = true
+		partition.AllEnd = p.lastEnd()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
-- 
2.43.0


From 2c12888671dc5aaa605cf0e4e55ca66f7352d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 053/106] fix: read AS before a query as the start of CREATE
 ... AS SELECT, not as an alias of the last key

---
 parser/parser_column.go | 20 +++++++++++++++++++-
 parser/parser_table.go  |  5 ++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 250564b..f9b53c8 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1184,7 +1184,8 @@ func (p *Parser) parseColumnsExpr(pos Pos) (*ColumnExpr, error) {
 	}
 
 	var alias *Ident
-	if p.tryConsumeKeywords(KeywordAs) {
+	if p.matchKeyword(KeywordAs) && !p.peekQueryAfterAs() {
+		_ = p.lexer.consumeToken()
 		// after AS the token can only be an alias name, reserved keyword or not
 		alias, err = p.parseAnyKeyword()
 		if err != nil {
@@ -1209,6 +1210,23 @@ func (p *Parser) peekQueryAfterExcept() bool {
 		(p.matchKeyword(KeywordWith) && !p.peekTokenKind(TokenKindComma) && !p.peekTokenKind(TokenKindRParen))
 }
 
+// peekQueryAfterAs reports whether the current AS keyword is followed by a
+// query (CREATE ... AS SELECT) and not by an alias.
+func (p *Parser) peekQueryAfterAs() bool {
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+
+	_ = p.lexer.consumeToken()
+	if p.matchTokenKind(TokenKindLParen) {
+		return true
+	}
+	if p.tryConsumeKeywords(KeywordWith) {
+		return p.matchTokenKind(TokenKindIdent)
+	}
+	return p.tryConsumeKeywords(KeywordSelect) && p.current() != nil &&
+		!p.matchTokenKind(TokenKindComma) && !p.matchTokenKind(TokenKindRParen) && !p.matchTokenKind(TokenKindRBracket)
+}
+
 func (p *Parser) parseSelectItem() (*SelectItem, error) {
 	expr, err := p.parseExpr(p.Pos())
 	if err != nil {
diff --git a/parser/parser_table.go b/parser/parser_table.go
index d5282da..90b8053 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1036,9 +1036,8 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
-		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, _ := p.lexer.peekToken(); nextToken != nil &&
-			nextToken.Kind == TokenKindKeyword && strings.EqualFold(nextToken.String, KeywordSelect) {
+		// It should be a subquery instead of an order by alias if the `AS` is followed by a query.
+		if p.peekQueryAfterAs() {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 32f6ed95009a1a1b6c831a17e669fc46026836f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 054/106] fix: read chained tuple indexes such as t.1.2

---
 parser/lexer.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 8d1b15c..3bafd73 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -196,6 +196,27 @@ func (l *Lexer) consumeNumber() error {
 	return nil
 }
 
+// consumeIndex reads the number behind a dot. It is a tuple index, so only its
+// digits belong to it: in "t.1.2" another member access follows.
+func (l *Lexer) consumeIndex() error {
+	i := 0
+	for l.peekOk(i) && IsDigit(l.peekN(i)) {
+		i++
+	}
+	if l.peekOk(i) && IsIdentPart(l.peekN(i)) {
+		return errors.New("invalid number")
+	}
+	l.currentToken = &Token{
+		Kind:   TokenKindInt,
+		String: l.slice(0, i),
+		Pos:    Pos(l.offset),
+		End:    Pos(l.offset + i),
+		Base:   10,
+	}
+	l.skipN(i)
+	return nil
+}
+
 func (l *Lexer) consumeIdent(_ Pos) error {
 	token := &Token{}
 	quoteType := Unquoted
@@ -436,6 +457,9 @@ func (l *Lexer) scanToken() error {
 			return nil
 		}
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		if prevToken != nil && prevToken.Kind == TokenKindDot {
+			return l.consumeIndex()
+		}
 		return l.consumeNumber()
 	case '`', '$', '"':
 		return l.consumeIdent(Pos(l.offset))
-- 
2.43.0


From bc1ee089ac3db308d187f109f73a538df9474d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 055/106] fix: keep the dot of a member access apart from a
 number in front of it

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 944d302..b2e4b7b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1698,6 +1698,10 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
+	if _, isNumber := i.Object.(*NumberLiteral); isNumber {
+		// the dot would become a part of the number
+		formatter.WriteByte(whitespace)
+	}
 	formatter.WriteString(string(i.Operation))
 	formatter.WriteExpr(i.Index)
 }
-- 
2.43.0


From 910d65d72c12814ce9a9cfc90e7add337fc08da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 056/106] fix: accept a query without brackets only as the sole
 argument of a function

---
 parser/parser_column.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index f9b53c8..5b3915d 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -618,8 +618,6 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
-	case p.matchKeyword(KeywordSelect):
-		return p.parseSelectQuery(pos)
 	case p.matchKeyword(KeywordExtract):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
@@ -759,6 +757,15 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 			columnExprList.HasTrailingComma = len(columnList) > 0
 			break
 		}
+		if term == TokenKindRParen && len(columnList) == 0 && p.matchKeyword(KeywordSelect) {
+			// a query needs no brackets of its own as the only argument: EXISTS(SELECT ...)
+			query, err := p.parseSelectQuery(p.Pos())
+			if err != nil {
+				return nil, err
+			}
+			columnList = append(columnList, &ColumnExpr{Expr: query})
+			break
+		}
 		columnExpr, err := p.parseColumnsExpr(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 204da95b59a910aa035eb00efa0b1aa81c671747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 057/106] fix: leave COMMENT '...' behind the last select item
 to the CREATE statement

---
 parser/parser_column.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 5b3915d..b11da8d 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1262,6 +1262,9 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 		if err != nil {
 			return nil, err
 		}
+	case p.matchKeyword(KeywordComment) && p.peekTokenKind(TokenKindString):
+		// the comment of the table or view that this query defines
+		alias = nil
 	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword():
 		// A bare alias can be a normal identifier or non-reserved keyword; a
 		// reserved keyword here starts the next clause (e.g. `SELECT a FROM ...`).
-- 
2.43.0


From 09ad186c1e6f6b0f8b9c304b18449115ebe25af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 058/106] fix: keep the quotes of a named table function
 argument

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 90b8053..aa2c9f6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -846,6 +846,9 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 				NameEnd: p.current().End,
 				Name:    p.current().String,
 			}
+			if p.current().QuoteType != Unquoted {
+				name.QuoteType = p.current().QuoteType
+			}
 			// Consume the = token
 			if err := p.lexer.consumeToken(); err != nil {
 				return nil, err
-- 
2.43.0


From d82329485e8da3f3f29ecce57402783d1b650e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 059/106] fix: read a keyword column in front of the closing
 COMMENT '...' as at the end of the statement

---
 parser/parser_column.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index b11da8d..e8fcb5d 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -485,13 +485,20 @@ func (p *Parser) peekIsClauseStarterKeyword() bool {
 	return false
 }
 
-// peekIsEndOfStatement reports whether the next token is EOF or `;`.
+// peekIsEndOfStatement reports whether the next token is EOF or `;`, or starts
+// the COMMENT '...' that closes the CREATE statement around a query.
 func (p *Parser) peekIsEndOfStatement() bool {
 	next, err := p.lexer.peekToken()
-	if err != nil || next == nil {
+	if err != nil || next == nil || next.Kind == ";" {
 		return true
 	}
-	return next.Kind == ";"
+	if !p.peekKeyword(KeywordComment) {
+		return false
+	}
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+	_ = p.lexer.consumeToken()
+	return p.peekTokenKind(TokenKindString)
 }
 
 var expressionContinuationTokenKinds = []TokenKind{
-- 
2.43.0


From 180a5ac5895d1c076879533298bd4320c46cd94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 060/106] fix: require a type name after ::

---
 parser/parser_column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index e8fcb5d..c9676ae 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -151,6 +151,11 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			}, nil
 		}
 
+		// Only a type name can follow: a literal here would run into a dot
+		// behind it when printed (`a::1 . b` as `a::1.b`).
+		if !p.matchTokenKind(TokenKindIdent, TokenKindKeyword) {
+			return nil, fmt.Errorf("expected type name after ::, got %s", p.currentTokenString())
+		}
 		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ad910de04a59718a66585405dd9a6441807af678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 061/106] fix: walk and visit the keys of a map literal
 themselves, not copies of them

---
 parser/ast.go  | 3 ++-
 parser/walk.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 0b67b66..061611b 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2906,7 +2906,8 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
+	for i := range m.KeyValues {
+		kv := &m.KeyValues[i]
 		if err := kv.Key.Accept(visitor); err != nil {
 			return err
 		}
diff --git a/parser/walk.go b/parser/walk.go
index c3e04f7..a223e92 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1386,7 +1386,8 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
+		for i := range n.KeyValues {
+			kv := &n.KeyValues[i]
 			if !Walk(&kv.Key, fn) {
 				return false
 			}
-- 
2.43.0


From f0042ebf22377922923a2620e5203b6cf4dcb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 062/106] fix: walk and visit the name pairs of RENAME

---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 061611b..7cbb25c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6328,10 +6328,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index a223e92..d5aa325 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -597,10 +597,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From bcbeebefdc1b4ff1fd47393176681c33c0227321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 063/106] fix: end the SETTINGS of CREATE USER at the next
 clause

---
 parser/parse_system.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index e1ff7dc..1916774 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -434,6 +434,11 @@ func (p *Parser) tryParseRoleSettings(pos Pos) ([]*RoleSetting, error) {
 func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 	pairs := make([]*SettingPair, 0)
 	for p.matchTokenKind(TokenKindIdent) {
+		if len(pairs) > 0 && p.matchOneOfKeywords(KeywordNot, KeywordIdentified, KeywordValid,
+			KeywordHost, KeywordDefault, KeywordGrantees) {
+			// another clause of CREATE USER follows SETTINGS
+			break
+		}
 		name, err := p.parseIdent()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From dafc22785f0de2ba1a1ce2caecf344ce39f70847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 064/106] fix: require a parameter after AS and commas of
 CREATE NAMED COLLECTION

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index aa2c9f6..3a63b00 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.isEOF() {
+	for {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 26e2d70e710e42ce0cb05a3b0c284a23c4e4abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 065/106] fix: read AS WITH before any common table expression
 as the start of a query

---
 parser/parser_column.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index c9676ae..a4ef8ca 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1240,7 +1240,11 @@ func (p *Parser) peekQueryAfterAs() bool {
 		return true
 	}
 	if p.tryConsumeKeywords(KeywordWith) {
-		return p.matchTokenKind(TokenKindIdent)
+		if p.current() == nil || p.matchTokenKind(TokenKindComma, TokenKindRParen, TokenKindRBracket, ";") {
+			return false
+		}
+		return p.current().Kind != TokenKindKeyword || p.matchTokenKind(TokenKindIdent) ||
+			p.matchOneOfKeywords(KeywordInterval, KeywordCase, KeywordNot)
 	}
 	return p.tryConsumeKeywords(KeywordSelect) && p.current() != nil &&
 		!p.matchTokenKind(TokenKindComma) && !p.matchTokenKind(TokenKindRParen) && !p.matchTokenKind(TokenKindRBracket)
-- 
2.43.0


From e52fc8bad7d549bbb281b3f2de4d8d6b920e2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 066/106] fix: require an action after the last comma of ALTER
 TABLE

---
 parser/parser_alter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 74220b6..fb71269 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.isEOF() {
+	for {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
-- 
2.43.0


From ce3b8ec90d1dc0a146870b38b21260cf2fade4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 067/106] fix: require the CODEC of RECOMPRESS, and take none
 after DELETE

---
 parser/parser_table.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3a63b00..5abcccb 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1240,11 +1240,16 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 			ActionEnd: token.End,
 			Action:    token.ToString(),
 		}
-		codec, err := p.tryParseCompressionCodecs(p.Pos())
-		if err != nil {
-			return nil, err
+		if strings.EqualFold(token.String, KeywordRecompress) {
+			codec, err := p.tryParseCompressionCodecs(p.Pos())
+			if err != nil {
+				return nil, err
+			}
+			if codec == nil {
+				return nil, fmt.Errorf("expected CODEC after RECOMPRESS, but got: %q", p.currentTokenString())
+			}
+			action.Codec = codec
 		}
-		action.Codec = codec
 		rule = &TTLPolicyRule{RulePos: pos, Action: action}
 	default:
 		return nil, nil // nolint
-- 
2.43.0


From a9d55a9af8869b15fa79db2b59088df68105d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 068/106] fix: take no sign after the point of a number

---
 parser/parser_common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_common.go b/parser/parser_common.go
index 447ed14..9ee9f4d 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -402,7 +402,8 @@ func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 		if err := p.expectTokenKind(TokenKindInt); err != nil {
 			return nil, err
 		}
-		if curToken.Base != 10 {
+		// only plain digits make a fraction: neither .0x1 nor .-5 is a number
+		if curToken.Base != 10 || !IsDigit(curToken.String[0]) {
 			return nil, fmt.Errorf("invalid decimal literal: %q", curToken.String)
 		}
 		curToken.String = "." + curToken.String
-- 
2.43.0


From 85fe4c4fca423a6e9b216d8ac5f630b41ef9b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 069/106] fix: read CAST and EXTRACT without a bracket as names

---
 parser/parser_column.go | 4 ++--
 parser/parser_table.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index a4ef8ca..3ebee39 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -626,11 +626,11 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 			return p.parseDateLiteral(pos)
 		}
 		return p.parseIdentOrFunction(pos)
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
-	case p.matchKeyword(KeywordExtract):
+	case p.matchKeyword(KeywordExtract) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
 		return p.parseIdentOrFunction(pos)
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 5abcccb..432d626 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -764,7 +764,7 @@ func (p *Parser) parseTableArgExpr(pos Pos) (Expr, error) {
 
 func (p *Parser) parseTableArgPrimaryExpr(pos Pos) (Expr, error) {
 	switch {
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		// CAST has its own syntax, so reading it as an ordinary function call
 		// stops at the AS separator: numbers(CAST(1 + 1 AS UInt64)) failed
 		// looking for ')'. CAST is not reserved, so it also matches
-- 
2.43.0


From 7486f278f707d8d187427cc1efd2acab58495e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 070/106] fix: take a quoted name in role settings as a
 setting, whatever it spells

---
 parser/parse_system.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 1916774..99ba035 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -444,6 +444,10 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			return nil, err
 		}
 		upperName := strings.ToUpper(name.Name)
+		if name.QuoteType > Unquoted {
+			// a quoted name is a setting, whatever it spells
+			upperName = ""
+		}
 		switch upperName {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
-- 
2.43.0


From e8153dac77a7c37ba8a868036b5e532b1a607c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 071/106] fix: reject a repeated WITH CUBE, WITH ROLLUP or WITH
 TOTALS

---
 parser/parser_query.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index bd59023..fa68371 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -612,14 +612,14 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		// end before it is consumed
 		keywordEnd := p.End()
 		switch {
-		case p.tryConsumeKeywords(KeywordCube):
+		case !groupBy.WithCube && p.tryConsumeKeywords(KeywordCube):
 			groupBy.WithCube = true
-		case p.tryConsumeKeywords(KeywordRollup):
+		case !groupBy.WithRollup && p.tryConsumeKeywords(KeywordRollup):
 			groupBy.WithRollup = true
-		case p.tryConsumeKeywords(KeywordTotals):
+		case !groupBy.WithTotals && p.tryConsumeKeywords(KeywordTotals):
 			groupBy.WithTotals = true
 		default:
-			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS, got %s", p.currentTokenKind())
+			return nil, fmt.Errorf("expected CUBE, ROLLUP or TOTALS once each, got %s", p.currentTokenKind())
 		}
 		groupBy.GroupByEnd = keywordEnd
 	}
-- 
2.43.0


From d9522256beadb53e1948061af05d1449462a7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 072/106] fix: reject a second FORMAT after SHOW

---
 parser/parser_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 432d626..61f7415 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1573,6 +1573,10 @@ func (p *Parser) parseTrailingFormat(expr Expr) error {
 			return nil
 		}
 		query = stmt.SelectExpr
+	case *ShowStmt:
+		if stmt.Format != nil {
+			return nil
+		}
 	}
 	if query == nil {
 		_, err := p.tryParseFormat(p.Pos())
-- 
2.43.0


From cd93d3fd69d047c05ae52db87d1b1ed7fe4b4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 073/106] fix: parse SQL behind -- that starts with a comment

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 986685d..dfdec2f 100644
--- a/main.go
+++ b/main.go
@@ -90,11 +90,13 @@ func main() {
 			os.Exit(1)
 		}
 	} else {
-		if strings.HasPrefix(os.Args[len(os.Args)-1], "-") {
+		// What stands behind "--" is no flag but SQL, which may start with a comment.
+		last := len(os.Args) - 1
+		if strings.HasPrefix(os.Args[last], "-") && (last < 2 || os.Args[last-1] != "--") {
 			fmt.Print(help)
 			os.Exit(0)
 		}
-		inputBytes = []byte(os.Args[len(os.Args)-1])
+		inputBytes = []byte(os.Args[last])
 	}
 	parser := clickhouse.NewParser(string(inputBytes))
 	stmts, err := parser.ParseStmts()
-- 
2.43.0


From 31a83615c5dabcf5614a63d1261d618564099eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 074/106] fix: apply a subscript or member behind :: to the
 value, not to the type

---
 parser/parser_column.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 3ebee39..f76ed0a 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -156,7 +156,14 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 		if !p.matchTokenKind(TokenKindIdent, TokenKindKeyword) {
 			return nil, fmt.Errorf("expected type name after ::, got %s", p.currentTokenString())
 		}
-		rightExpr, err := p.parseSubExpr(p.Pos(), precedence)
+		var rightExpr Expr
+		var err error
+		if p.peekTokenKind(TokenKindLBracket) || p.peekTokenKind(TokenKindDot) {
+			// A subscript or member belongs to the value: `a::T[1]` is `(a::T)[1]`.
+			rightExpr, err = p.parseIdent()
+		} else {
+			rightExpr, err = p.parseSubExpr(p.Pos(), precedence)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From db7fe5d6e27e97e53410b692dce82fd676ee5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 075/106] fix: start an aliased table at the table, not at the
 alias

---
 parser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 7cbb25c..138ebc7 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4837,7 +4837,7 @@ type AliasExpr struct {
 }
 
 func (a *AliasExpr) Pos() Pos {
-	return a.AliasPos
+	return a.Expr.Pos()
 }
 
 func (a *AliasExpr) End() Pos {
-- 
2.43.0


From 1c423f430d32b9f9939c1a39e723e7a653ff3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 076/106] fix: start an enum type at its name

---
 parser/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 138ebc7..b43032b 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3693,7 +3693,7 @@ type EnumType struct {
 }
 
 func (e *EnumType) Pos() Pos {
-	return e.ListPos
+	return e.Name.Pos()
 }
 
 func (e *EnumType) End() Pos {
-- 
2.43.0


From 407e3d2b739901a08732c2d81f2ccf1776c40314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 077/106] fix: end a role behind its ON CLUSTER

---
 parser/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b43032b..1011528 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1616,12 +1616,12 @@ func (r *RoleName) Pos() Pos {
 }
 
 func (r *RoleName) End() Pos {
-	if r.Scope != nil {
-		return r.Scope.End()
-	}
 	if r.OnCluster != nil {
 		return r.OnCluster.End()
 	}
+	if r.Scope != nil {
+		return r.Scope.End()
+	}
 	return r.Name.End()
 }
 
-- 
2.43.0


From 413423a3b71364f5f17d2037b59000fdc722cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 078/106] fix: end DETACH PARTITION behind its settings

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 1011528..f54cbb2 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -283,6 +283,9 @@ func (a *AlterTableDetachPartition) Pos() Pos {
 }
 
 func (a *AlterTableDetachPartition) End() Pos {
+	if a.Settings != nil {
+		return a.Settings.End()
+	}
 	return a.Partition.End()
 }
 
-- 
2.43.0


From 7f945dce7621c8d0fa582d041ceca6f53cefbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 079/106] fix: end LIMIT behind the count when the offset comes
 first

---
 parser/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index f54cbb2..65f2d65 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4965,10 +4965,10 @@ func (l *LimitClause) Pos() Pos {
 }
 
 func (l *LimitClause) End() Pos {
-	if l.Offset != nil {
-		return l.Offset.End()
+	if l.Offset == nil || l.Limit != nil && l.Limit.End() > l.Offset.End() {
+		return l.Limit.End()
 	}
-	return l.Limit.End()
+	return l.Offset.End()
 }
 
 func (l *LimitClause) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From ca03fcd44c988b7f707818cb3fecc3f93a6b4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 080/106] fix: take the position of TTL values, JSON limits and
 table arguments at their first token

---
 parser/parser_column.go | 4 ++--
 parser/parser_table.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index f76ed0a..1bf84df 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1539,13 +1539,13 @@ func (p *Parser) parseJSONMaxDynamicOptions(pos Pos) (*JSONOption, error) {
 
 	switch ident.Name {
 	case "max_dynamic_types":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
 		return &JSONOption{MaxDynamicTypes: number}, nil
 	case "max_dynamic_paths":
-		number, err := p.parseNumber(pos)
+		number, err := p.parseNumber(p.Pos())
 		if err != nil {
 			return nil, err
 		}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 61f7415..0480a96 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -578,7 +578,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
@@ -1271,7 +1271,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 }
 
 func (p *Parser) parseTTLExpr(pos Pos) (*TTLExpr, error) {
-	columnExpr, err := p.parseExpr(pos)
+	columnExpr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f0086fa13b7b8b99fd0075e9b627d4256175280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 081/106] fix: end a query behind the last of its UNION, EXCEPT
 and INTERSECT arms

---
 parser/ast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 65f2d65..d0b3f3f 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5329,6 +5329,11 @@ func (s *SelectQuery) Pos() Pos {
 }
 
 func (s *SelectQuery) End() Pos {
+	for _, q := range []*SelectQuery{s.UnionAll, s.UnionDistinct, s.Except, s.Intersect} {
+		if q != nil {
+			return q.End()
+		}
+	}
 	return s.StatementEnd
 }
 
-- 
2.43.0


From 4fa75a0cb5fe3403fc8234750a6653664b8a319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 082/106] fix: end statements at their own last token, not at
 the next one

---
 parser/parse_system.go | 4 ++--
 parser/parser_alter.go | 4 ++--
 parser/parser_drop.go  | 2 +-
 parser/parser_table.go | 7 +++++--
 parser/parser_view.go  | 2 +-
 5 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 99ba035..50d69b0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -592,7 +592,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.currentEnd()
+	auth.AuthEnd = p.lastEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -623,7 +623,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.currentEnd()
+			auth.AuthEnd = p.lastEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index fb71269..a0617b3 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -503,7 +503,7 @@ func (p *Parser) parseAlterTableFreezePartition(pos Pos) (AlterTableClause, erro
 	}
 	alterTable := &AlterTableFreezePartition{
 		FreezePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}
 	if p.matchKeyword(KeywordPartition) {
 		partition, err := p.parsePartitionClause(p.Pos())
@@ -528,7 +528,7 @@ func (p *Parser) parseAlterTableRemoveTTL(pos Pos) (AlterTableClause, error) {
 
 	return &AlterTableRemoveTTL{
 		RemovePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}, nil
 }
 
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index eb579f1..6c9aed6 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -30,7 +30,7 @@ func (p *Parser) parseDropDatabase(pos Pos, isDetach bool) (*DropDatabase, error
 		return nil, err
 	}
 	if modifier != "" {
-		statementEnd = p.Pos()
+		statementEnd = p.lastEnd()
 	}
 
 	return &DropDatabase{
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 0480a96..95cd70d 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -110,6 +110,9 @@ func (p *Parser) parseCreateDatabase(pos Pos) (*CreateDatabase, error) {
 	if err != nil {
 		return nil, err
 	}
+	if commentExpr != nil {
+		StatementEnd = commentExpr.End()
+	}
 	return &CreateDatabase{
 		CreatePos:    pos,
 		StatementEnd: StatementEnd,
@@ -584,7 +587,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.lastEnd(),
 				TableFunction: &TableFunctionExpr{
 					Name: ident,
 					Args: argsExpr,
@@ -593,7 +596,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		default:
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: p.lastEnd(),
 				AliasTable: &TableIdentifier{
 					Table: ident,
 				},
diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..aefe527 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -155,7 +155,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("POPULATE requires ENGINE to be specified")
 		}
 		createMaterializedView.Populate = true
-		createMaterializedView.StatementEnd = p.Pos()
+		createMaterializedView.StatementEnd = p.lastEnd()
 	}
 
 	// COMMENT can appear either before or after AS SELECT.
-- 
2.43.0


From 38fea96160f85de6e8f07495582eced9663c04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 083/106] fix: take the position of an INTERPOLATE value at its
 first token

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 95cd70d..f298a6a 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1155,7 +1155,7 @@ func (p *Parser) parseInterpolateClause(interpolatePos Pos) (*InterpolateClause,
 		item := &InterpolateItem{Column: column}
 
 		if p.tryConsumeKeywords(KeywordAs) {
-			expr, err := p.parseExpr(interpolatePos)
+			expr, err := p.parseExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 929c4eab50ba255b78b3e9246b8cf55a78e20f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 084/106] fix: end DROP USER and DROP ROLE behind SYNC

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 50d69b0..92381b0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -995,6 +995,9 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 	if err != nil {
 		return nil, err
 	}
+	if modifier != "" {
+		statementEnd = p.lastEnd()
+	}
 
 	return &DropUserOrRole{
 		DropPos:      pos,
-- 
2.43.0


From 70d52e3d5e0af98dde6e6f0a17f3c7a9d067fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 085/106] fix: end CREATE NAMED COLLECTION behind OVERRIDABLE

---
 parser/parser_table.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index f298a6a..3346bb6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -245,13 +245,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 	}
 	createCollection.Params = params
 
-	if len(params) > 0 {
-		createCollection.StatementEnd = params[len(params)-1].End()
-	} else if onCluster != nil {
-		createCollection.StatementEnd = onCluster.End()
-	} else {
-		createCollection.StatementEnd = name.End()
-	}
+	createCollection.StatementEnd = p.lastEnd()
 
 	return createCollection, nil
 }
-- 
2.43.0


From 38f5c5e0f22a573fe51615e19e7c6a441c6959ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 086/106] fix: end views without a query at their own last
 token

---
 parser/ast.go         | 4 ++++
 parser/parser_view.go | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index d0b3f3f..e91fa29 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4583,6 +4583,7 @@ type WithTimeoutClause struct {
 	WithTimeoutPos Pos
 	Expr           Expr
 	Number         *NumberLiteral
+	TimeoutEnd     Pos `json:",omitempty"` // end of WITH TIMEOUT without a number
 }
 
 func (w *WithTimeoutClause) Pos() Pos {
@@ -4596,6 +4597,9 @@ func (w *WithTimeoutClause) End() Pos {
 	if w.Expr != nil {
 		return w.Expr.End()
 	}
+	if w.TimeoutEnd != 0 {
+		return w.TimeoutEnd
+	}
 	return w.WithTimeoutPos
 }
 
diff --git a/parser/parser_view.go b/parser/parser_view.go
index aefe527..f152013 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -89,7 +89,6 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, err
 		}
 		createMaterializedView.Destination = destination
-		createMaterializedView.StatementEnd = destination.End()
 		if p.matchTokenKind(TokenKindLParen) {
 			tableSchema, err := p.parseTableSchemaClause(p.Pos())
 			if err != nil {
@@ -112,14 +111,12 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, err
 		}
 		createMaterializedView.Engine = engineExpr
-		createMaterializedView.StatementEnd = engineExpr.End()
 	case p.matchKeyword(KeywordEngine):
 		engineExpr, err := p.parseEngineExpr(p.Pos())
 		if err != nil {
 			return nil, err
 		}
 		createMaterializedView.Engine = engineExpr
-		createMaterializedView.StatementEnd = engineExpr.End()
 	default:
 		return nil, fmt.Errorf("unexpected token: %q, expected TO or ENGINE", p.currentTokenKind())
 	}
@@ -155,7 +152,6 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("POPULATE requires ENGINE to be specified")
 		}
 		createMaterializedView.Populate = true
-		createMaterializedView.StatementEnd = p.lastEnd()
 	}
 
 	// COMMENT can appear either before or after AS SELECT.
@@ -166,6 +162,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 		return nil, err
 	}
 	createMaterializedView.Comment = comment
+	createMaterializedView.StatementEnd = p.lastEnd()
 
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
@@ -337,6 +334,7 @@ func (p *Parser) parseCreateLiveView(pos Pos) (*CreateLiveView, error) {
 		createLiveView.TableSchema = tableSchema
 	}
 
+	createLiveView.StatementEnd = p.lastEnd()
 	if p.tryConsumeKeywords(KeywordAs) {
 		subQuery, err := p.parseSubQuery(p.Pos())
 		if err != nil {
@@ -365,6 +363,8 @@ func (p *Parser) tryParseWithTimeout(pos Pos) (*WithTimeoutClause, error) {
 			return nil, err
 		}
 		withTimeout.Number = decimalNumber
+	} else {
+		withTimeout.TimeoutEnd = p.lastEnd()
 	}
 
 	return withTimeout, nil
-- 
2.43.0


From 91574fa7e488ecf1f3df354a810cf63a6e57d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 087/106] fix: read PARTITION ALL and PARTITION ID in DROP and
 DETACH PARTITION

---
 parser/parser_alter.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index a0617b3..6eacaab 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -329,18 +329,10 @@ func (p *Parser) parseAlterTableDrop(pos Pos) (AlterTableClause, error) {
 
 // Syntax: ALTER TABLE DETACH partitionClause
 func (p *Parser) parseAlterTableDetachPartition(pos Pos) (AlterTableClause, error) {
-	partitionPos := p.Pos()
-	if err := p.expectKeyword(KeywordPartition); err != nil {
-		return nil, err
-	}
-	partition := &PartitionClause{
-		PartitionPos: partitionPos,
-	}
-	expr, err := p.parseExpr(p.Pos())
+	partition, err := p.parsePartitionClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	partition.Expr = expr
 
 	settings, err := p.tryParseSettingsClause(p.Pos())
 	if err != nil {
@@ -471,18 +463,10 @@ func (p *Parser) parseAlterTableDropPartition(pos Pos) (AlterTableClause, error)
 		_ = p.lexer.consumeToken()
 		hasDetached = true
 	}
-	partitionPos := p.Pos()
-	if err := p.expectKeyword(KeywordPartition); err != nil {
-		return nil, err
-	}
-	partition := &PartitionClause{
-		PartitionPos: partitionPos,
-	}
-	expr, err := p.parseExpr(p.Pos())
+	partition, err := p.parsePartitionClause(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-	partition.Expr = expr
 
 	settings, err := p.tryParseSettingsClause(p.Pos())
 	if err != nil {
-- 
2.43.0


From fb6b9c4a9b66479b8d9466c6037506abde84f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 088/106] fix: escape quotes when SHOW DATABASES stores a
 quoted FORMAT name as a string

---
 parser/parser_table.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3346bb6..43cd21f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1758,7 +1758,7 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 				stmt.Format = &StringLiteral{
 					LiteralPos: token.Pos,
 					LiteralEnd: token.End,
-					Literal:    token.String,
+					Literal:    escapeQuotes(token.String),
 				}
 			} else {
 				return nil, fmt.Errorf("expected format specification after FORMAT, got %q", p.currentTokenString())
@@ -1772,6 +1772,26 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 	return stmt, nil
 }
 
+// escapeQuotes doubles every single quote that is not escaped already, so that
+// the text of a name can stand in a string literal.
+func escapeQuotes(s string) string {
+	if !strings.Contains(s, "'") {
+		return s
+	}
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		b.WriteByte(s[i])
+		switch {
+		case s[i] == '\\' && i+1 < len(s):
+			i++
+			b.WriteByte(s[i])
+		case s[i] == '\'':
+			b.WriteByte('\'')
+		}
+	}
+	return b.String()
+}
+
 func (p *Parser) parseDescribeStmt(pos Pos) (*DescribeStmt, error) {
 	// DESC and DESCRIBE are both supported
 	if !p.matchKeyword(KeywordDesc) && !p.matchKeyword(KeywordDescribe) {
-- 
2.43.0


From cd219a56cc4f56c444a1b0b90ffcb53de6573d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 089/106] fix: report a join cut off behind GLOBAL at its end

---
 parser/parser_query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index fa68371..c294126 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -340,7 +340,8 @@ func (p *Parser) peekJoinAfterLocality() bool {
 		return true
 	}
 
-	return modifiers != nil && p.matchKeyword(KeywordJoin)
+	// A join type that is cut off or broken belongs to the FROM clause as well.
+	return modifiers != nil && (len(modifiers) > 1 || p.matchKeyword(KeywordJoin))
 }
 
 func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
-- 
2.43.0


From 56e1f0e6315029f36b45c0b9ab355f48d0679a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 090/106] fix: refuse signs and fractions as a tuple index

---
 parser/parser_column.go |  2 +-
 parser/parser_common.go | 10 ++++++++++
 parser/parser_table.go  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 1bf84df..9b6876b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -207,7 +207,7 @@ func (p *Parser) parseInfix(expr Expr, precedence int) (Expr, error) {
 			// reserved keywords are accepted (e.g. `t.from`).
 			rightExpr, err = p.parseAnyKeyword()
 		} else {
-			rightExpr, err = p.parseDecimal(p.Pos())
+			rightExpr, err = p.parseTupleIndex(p.Pos())
 		}
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 9ee9f4d..7641bb5 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -387,6 +387,16 @@ func (p *Parser) parseDecimal(pos Pos) (*NumberLiteral, error) {
 	return number, nil
 }
 
+// parseTupleIndex parses the number behind a dot: whole digits, which a minus
+// sign counts from the end (`t.-1`).
+func (p *Parser) parseTupleIndex(pos Pos) (*NumberLiteral, error) {
+	if p.matchTokenKind(TokenKindInt) && p.current().String[0] == '+' ||
+		p.matchTokenKind(TokenKindFloat) || p.matchTokenKind(TokenKindDot) {
+		return nil, fmt.Errorf("expected a tuple index, but got %q", p.current().String)
+	}
+	return p.parseDecimal(pos)
+}
+
 func (p *Parser) parseNumber(pos Pos) (*NumberLiteral, error) {
 	var err error
 
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 43cd21f..836b99f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -490,7 +490,7 @@ func (p *Parser) parseIdentOrFunction(_ Pos) (Expr, error) {
 				DotIdent: nextIdent,
 			}, nil
 		case p.matchTokenKind(TokenKindInt):
-			i, err := p.parseNumber(p.Pos())
+			i, err := p.parseTupleIndex(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 270b06201fdb3227926fdf25913189f34a00ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 091/106] fix: read DISTINCT with nothing behind it as a name
 in lists

---
 parser/parser_column.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 9b6876b..cb43b0c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -764,12 +764,21 @@ func (p *Parser) parseColumnExprList(pos Pos) (*ColumnExprList, error) {
 	return p.parseColumnExprListWithTerm("", pos)
 }
 
+// tryConsumeListDistinct consumes the DISTINCT in front of a list. With nothing
+// to apply to it is an ordinary name: `f(distinct)`, `f(distinct, a)`.
+func (p *Parser) tryConsumeListDistinct() bool {
+	if p.peekTokenKind(TokenKindComma) || p.peekTokenKind(TokenKindRParen) || p.peekTokenKind(TokenKindRBracket) {
+		return false
+	}
+	return p.tryConsumeKeywords(KeywordDistinct)
+}
+
 func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnExprList, error) {
 	columnExprList := &ColumnExprList{
 		ListPos: pos,
 		ListEnd: pos,
 	}
-	columnExprList.HasDistinct = p.tryConsumeKeywords(KeywordDistinct)
+	columnExprList.HasDistinct = p.tryConsumeListDistinct()
 	columnList := make([]Expr, 0)
 	for {
 		if term != "" && p.matchTokenKind(term) {
@@ -875,7 +884,7 @@ func (p *Parser) parseColumnArgList(pos Pos) (*ColumnArgList, error) {
 	if err := p.expectTokenKind(TokenKindLParen); err != nil {
 		return nil, err
 	}
-	distinct := p.tryConsumeKeywords(KeywordDistinct)
+	distinct := p.tryConsumeListDistinct()
 
 	var items []Expr
 	for !p.isEOF() && !p.matchTokenKind(TokenKindRParen) {
-- 
2.43.0


From 04e432d4f35b37a3001485b2d2050d0832b3cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 092/106] fix: refuse OR REPLACE behind ATTACH

---
 parser/parser_table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 836b99f..dfb9ba4 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -10,8 +10,10 @@ func (p *Parser) parseDDL(pos Pos) (DDL, error) {
 	switch {
 	case p.matchKeyword(KeywordCreate),
 		p.matchKeyword(KeywordAttach):
+		isAttach := p.matchKeyword(KeywordAttach)
 		_ = p.lexer.consumeToken()
-		orReplace := p.tryConsumeKeywords(KeywordOr, KeywordReplace)
+		// only CREATE may replace
+		orReplace := !isAttach && p.tryConsumeKeywords(KeywordOr, KeywordReplace)
 		if orReplace && !p.matchOneOfKeywords(KeywordTemporary, KeywordTable, KeywordView, KeywordFunction, KeywordDictionary) {
 			return nil, fmt.Errorf("expected keyword: TEMPORARY|TABLE|VIEW|FUNCTION|DICTIONARY, but got %q", p.currentTokenString())
 		}
-- 
2.43.0


From 8200d8e62c85a028c7f0c1b7a474e3f0dc34233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 093/106] fix: refuse CASE without a WHEN

---
 parser/parser_column.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index cb43b0c..56d274b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1357,6 +1357,9 @@ func (p *Parser) parseColumnCaseExpr(pos Pos) (*CaseExpr, error) {
 			Then:    thenCondition,
 		})
 	}
+	if len(whenClauses) == 0 {
+		return nil, fmt.Errorf("expected keyword <%q>, but got %q", KeywordWhen, p.currentTokenString())
+	}
 	caseExpr.Whens = whenClauses
 
 	// ELSE expr
-- 
2.43.0


From da43010d7b9b786a1a471a6661975f66d2cc42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 094/106] fix: refuse a quoted name as the unit of an interval

---
 parser/parser_column.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 56d274b..111e42b 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -377,7 +377,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 		}
 
 		var param Expr
-		if ident, ok := expr.(*Ident); ok {
+		if ident, ok := expr.(*Ident); ok && ident.QuoteType == Unquoted {
 			if intervalUnits.Contains(strings.ToUpper(ident.Name)) && p.matchKeyword(KeywordFrom) {
 				param, err = p.parseExtractFrom(ident)
 				if err != nil {
@@ -851,7 +851,7 @@ func (p *Parser) parseInterval(requireKeyword bool) (*IntervalExpr, error) {
 	if err != nil {
 		return nil, err
 	}
-	if !intervalUnits.Contains(strings.ToUpper(unit.Name)) {
+	if unit.QuoteType != Unquoted || !intervalUnits.Contains(strings.ToUpper(unit.Name)) {
 		return nil, fmt.Errorf("unknown interval type: <%q>", unit.Name)
 	}
 	return &IntervalExpr{
-- 
2.43.0


From dbe7d5b7cf08eebada2ed6bb9f6510c6f8ddc07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 095/106] fix: refuse to REMOVE what is no property of a column

---
 parser/parser_column.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 111e42b..8d8a031 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1431,6 +1431,10 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 }
 
 func (p *Parser) parseColumnPropertyType(_ Pos) (Expr, error) {
+	if !p.matchOneOfKeywords(KeywordDefault, KeywordMaterialized, KeywordAlias, KeywordComment,
+		KeywordCodec, KeywordTtl) {
+		return nil, fmt.Errorf("expected keyword: DEFAULT|MATERIALIZED|ALIAS|COMMENT|CODEC|TTL, but got %q", p.currentTokenString())
+	}
 	ident, err := p.parseIdent()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 45e2d8b77edfb6dd416bd02b8aefbfb421b14406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:14 +0000
Subject: [PATCH 096/106] fix: refuse a second parameter list in CREATE
 FUNCTION

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index dfb9ba4..4c92baa 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2142,6 +2142,9 @@ func (p *Parser) parseCreateFunction(pos Pos, orReplace bool) (*CreateFunction,
 	if err != nil {
 		return nil, err
 	}
+	if params.ColumnArgList != nil {
+		return nil, fmt.Errorf("expected one list of parameters, but got two")
+	}
 	if err := p.expectTokenKind(TokenKindArrow); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1212baa317cde6e259ea4c37eabaa8f2b03a4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 097/106] fix: end the PRIMARY KEY of a dictionary at its last
 token

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4c92baa..07490ff 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2356,7 +2356,7 @@ func (p *Parser) parseDictionaryPrimaryKeyClause(pos Pos) (*DictionaryPrimaryKey
 	return &DictionaryPrimaryKeyClause{
 		PrimaryKeyPos: pos,
 		Keys:          keys,
-		RParenPos:     keys.End() - 1,
+		RParenPos:     p.lastEnd() - 1,
 	}, nil
 }
 
-- 
2.43.0


From 3193a31014247ec6d1a18e60f7f80c6f16c1c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 098/106] fix: end the clauses of a dictionary behind the last
 of them

---
 parser/ast.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index e91fa29..b0c0953 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4331,25 +4331,27 @@ func (d *DictionaryEngineClause) Pos() Pos {
 }
 
 func (d *DictionaryEngineClause) End() Pos {
-	if d.Settings != nil {
-		return d.Settings.End()
-	}
-	if d.Range != nil {
-		return d.Range.End()
+	// the clauses may come in any order
+	end := d.EnginePos
+	if d.PrimaryKey != nil {
+		end = max(end, d.PrimaryKey.End())
 	}
-	if d.Layout != nil {
-		return d.Layout.End()
+	if d.Source != nil {
+		end = max(end, d.Source.End())
 	}
 	if d.Lifetime != nil {
-		return d.Lifetime.End()
+		end = max(end, d.Lifetime.End())
 	}
-	if d.Source != nil {
-		return d.Source.End()
+	if d.Layout != nil {
+		end = max(end, d.Layout.End())
 	}
-	if d.PrimaryKey != nil {
-		return d.PrimaryKey.End()
+	if d.Range != nil {
+		end = max(end, d.Range.End())
 	}
-	return d.EnginePos
+	if d.Settings != nil {
+		end = max(end, d.Settings.End())
+	}
+	return end
 }
 
 func (d *DictionaryEngineClause) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From d6be7ad34605392e0997ee544c55e7e978d10503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:57 +0000
Subject: [PATCH 099/106] fix: read a signed tuple index up to the next dot

---
 parser/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 3bafd73..79c4275 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -197,9 +197,13 @@ func (l *Lexer) consumeNumber() error {
 }
 
 // consumeIndex reads the number behind a dot. It is a tuple index, so only its
-// digits belong to it: in "t.1.2" another member access follows.
+// digits belong to it: in "t.1.2" another member access follows. It may have a
+// sign ("t.-1").
 func (l *Lexer) consumeIndex() error {
 	i := 0
+	if l.peekN(0) == '+' || l.peekN(0) == '-' {
+		i++
+	}
 	for l.peekOk(i) && IsDigit(l.peekN(i)) {
 		i++
 	}
@@ -445,6 +449,9 @@ func (l *Lexer) scanToken() error {
 	case '+', '-':
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
+			if prevToken != nil && prevToken.Kind == TokenKindDot {
+				return l.consumeIndex()
+			}
 			return l.consumeNumber()
 		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
-- 
2.43.0


From 3eeb7840cbd180d512a4603e4518ddad6940f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 100/106] fix: read AS select in front of a semicolon as at the
 end

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 8d8a031..eb2eebd 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1263,7 +1263,7 @@ func (p *Parser) peekQueryAfterAs() bool {
 			p.matchOneOfKeywords(KeywordInterval, KeywordCase, KeywordNot)
 	}
 	return p.tryConsumeKeywords(KeywordSelect) && p.current() != nil &&
-		!p.matchTokenKind(TokenKindComma) && !p.matchTokenKind(TokenKindRParen) && !p.matchTokenKind(TokenKindRBracket)
+		!p.matchTokenKind(TokenKindComma, TokenKindRParen, TokenKindRBracket, ";")
 }
 
 func (p *Parser) parseSelectItem() (*SelectItem, error) {
-- 
2.43.0


From 9219f9dacc69b2359beffc86ea1f8059c5b494ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:10 +0000
Subject: [PATCH 101/106] fix: end a query behind the FORMAT that follows a set
 operation

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b0c0953..951f2fd 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5335,6 +5335,9 @@ func (s *SelectQuery) Pos() Pos {
 }
 
 func (s *SelectQuery) End() Pos {
+	if s.OuterFormat != nil {
+		return s.OuterFormat.End()
+	}
 	for _, q := range []*SelectQuery{s.UnionAll, s.UnionDistinct, s.Except, s.Intersect} {
 		if q != nil {
 			return q.End()
-- 
2.43.0


From 8f581d0b6f5a932931a22f7d5d1db090e13626a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 102/106] fix: read distinct in front of a comma as a name in
 trim, substring and overlay

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index eb2eebd..e4ed1d5 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1024,7 +1024,7 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	}
 
 	itemsPos := p.Pos()
-	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
+	hasDistinct := p.tryConsumeListDistinct()
 
 	items := make([]Expr, 0)
 	// A comma advances the argument slot just as a separator keyword does, so the
-- 
2.43.0


From 523d3d8fe5170af6d320396b40ae6393b06026d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:11 +0000
Subject: [PATCH 103/106] fix: read a keyword in front of } as a name, as in
 front of ) and ]

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index e4ed1d5..82dcb18 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -518,7 +518,7 @@ var expressionContinuationTokenKinds = []TokenKind{
 	TokenKindLT, TokenKindLE, TokenKindGT, TokenKindGE,
 	TokenKindPlus, TokenKindMinus, TokenKindMul, TokenKindDiv, TokenKindMod,
 	TokenKindConcat, TokenKindDash,
-	TokenKindRParen, TokenKindRBracket,
+	TokenKindRParen, TokenKindRBracket, TokenKindRBrace,
 }
 
 var expressionContinuationKeywords = []string{
-- 
2.43.0


From d47af35bd1e8d7484eecf3e27829287f9eeed0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:27 +0000
Subject: [PATCH 104/106] fix: read a keyword alone behind USING as a name

---
 parser/parser_query.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index c294126..0fb2e2c 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -157,6 +157,21 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 		}, nil
 	case p.tryConsumeKeywords(KeywordUsing):
 		hasParen := p.tryConsumeTokenKind(TokenKindLParen) != nil
+		if !hasParen && p.matchTokenKind(TokenKindKeyword) && p.peekEndOfJoin() {
+			// the only word of the constraint is a name, keyword or not
+			name, err := p.parseAnyKeyword()
+			if err != nil {
+				return nil, err
+			}
+			return &UsingClause{
+				UsingPos: pos,
+				Using: &ColumnExprList{
+					ListPos: name.Pos(),
+					ListEnd: name.End(),
+					Items:   []Expr{&ColumnExpr{Expr: name}},
+				},
+			}, nil
+		}
 		columnExprList, err := p.parseColumnExprList(p.Pos())
 		if err != nil {
 			return nil, err
@@ -179,6 +194,21 @@ func (p *Parser) tryParseJoinConstraints(pos Pos) (Expr, error) {
 	return nil, nil
 }
 
+// peekEndOfJoin reports whether the join ends behind the current token: at the
+// end of the query, or in front of another clause or another join.
+func (p *Parser) peekEndOfJoin() bool {
+	if p.peekIsEndOfStatement() || p.peekTokenKind(TokenKindRParen) || p.peekIsClauseStarterKeyword() {
+		return true
+	}
+
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+
+	_ = p.lexer.consumeToken()
+	_, err := p.parseJoinModifiers(p.Pos())
+	return err != nil || p.matchKeyword(KeywordJoin)
+}
+
 func (p *Parser) parseJoinType(_ Pos) []string {
 	var modifiers []string
 	switch {
-- 
2.43.0


From 4e8527598dfe408cd8f36f6375eca57772159d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:49 +0000
Subject: [PATCH 105/106] fix: print EXPRESSION behind the flags of a
 dictionary attribute

---
 parser/format.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index b2e4b7b..3f4f868 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1263,11 +1263,6 @@ func (d *DictionaryAttribute) FormatSQL(formatter *Formatter) {
 		formatter.WriteExpr(d.Default)
 	}
 
-	if d.Expression != nil {
-		formatter.WriteString(" EXPRESSION ")
-		formatter.WriteExpr(d.Expression)
-	}
-
 	if d.Hierarchical {
 		formatter.WriteString(" HIERARCHICAL")
 	}
@@ -1280,6 +1275,11 @@ func (d *DictionaryAttribute) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" IS_OBJECT_ID")
 	}
 
+	// last: a keyword that ends it reads as a name only at the end of the attribute
+	if d.Expression != nil {
+		formatter.WriteString(" EXPRESSION ")
+		formatter.WriteExpr(d.Expression)
+	}
 }
 
 func (d *DictionaryEngineClause) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From b9e8acc13f7007c273850de12e606e121700196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:10 +0000
Subject: [PATCH 106/106] fix: refuse LEFT OUTER ARRAY JOIN

---
 parser/parser_query.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 0fb2e2c..8bb44c1 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -246,13 +246,14 @@ func (p *Parser) parseJoinType(_ Pos) []string {
 	case p.matchKeyword(KeywordLeft):
 		modifiers = append(modifiers, p.current().String)
 		_ = p.lexer.consumeToken()
-		if p.matchKeyword(KeywordOuter) {
+		hasOuter := p.matchKeyword(KeywordOuter)
+		if hasOuter {
 			modifiers = append(modifiers, p.current().String)
 			_ = p.lexer.consumeToken()
 		}
 		if p.matchKeyword(KeywordSemi) || p.matchKeyword(KeywordAnti) ||
 			p.matchKeyword(KeywordAny) || p.matchKeyword(KeywordAll) ||
-			p.matchKeyword(KeywordAsof) || p.matchKeyword(KeywordArray) {
+			p.matchKeyword(KeywordAsof) || (p.matchKeyword(KeywordArray) && !hasOuter) {
 			modifiers = append(modifiers, p.current().String)
 			_ = p.lexer.consumeToken()
 		}
-- 
2.43.0

