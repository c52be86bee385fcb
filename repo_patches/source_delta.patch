From 3da83336abc576419aab47727767afb4369c46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 01/92] fix: column CHECK and REFERENCES no longer skip the
 token that follows them

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 2 ++
 pkg/ddl/postgres/parser.go    | 3 +++
 pkg/ddl/spanner/parser.go     | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..849ed18 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +606,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..08d482e 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -571,6 +571,7 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +592,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..486aafe 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,11 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +498,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..239aca0 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,7 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +610,7 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
-- 
2.43.0


From ff670c42ece83b805cb63d030bc927cf79ac03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 02/92] fix: postgres, cockroachdb: accept ON DELETE/ON UPDATE
 in a table-level FOREIGN KEY

---
 pkg/ddl/cockroachdb/parser.go | 1 +
 pkg/ddl/postgres/parser.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 849ed18..bb4b935 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -697,6 +697,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = any
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 486aafe..1642f5a 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -589,6 +589,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = any
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
-- 
2.43.0


From d9d626aab4f6be6f6af1348636e3a83cd53ccbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 03/92] fix: lexers read doubled and escaped quotes, reject
 unterminated quotes and do not treat NUL as the end of input

---
 pkg/ddl/cockroachdb/lexar.go | 34 +++++++++++++++++++++++---------
 pkg/ddl/mysql/lexar.go       | 38 +++++++++++++++++++++++++++---------
 pkg/ddl/postgres/lexar.go    | 34 +++++++++++++++++++++++---------
 pkg/ddl/spanner/lexar.go     | 38 +++++++++++++++++++++++++++---------
 4 files changed, 108 insertions(+), 36 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..aacc3fb 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -369,10 +373,10 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
+		if l.isEOF() {
+			return Token{Type: TOKEN_EOF}
+		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
@@ -387,16 +391,28 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.isEOF() {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // クォーテーションのエスケープ ('' など)
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
+}
+
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -438,7 +454,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..b4a5f5a 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -393,10 +397,10 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
+		if l.isEOF() {
+			return Token{Type: TOKEN_EOF}
+		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
@@ -411,16 +415,32 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.isEOF() {
+			return l.input[position:], false
+		}
+		if l.ch == '\\' && quote != '`' {
+			l.readChar() // エスケープされた文字を読み飛ばす
+			continue
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // クォーテーションのエスケープ ('' など)
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
+}
+
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -462,7 +482,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..2715184 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -343,10 +347,10 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
+		if l.isEOF() {
+			return Token{Type: TOKEN_EOF}
+		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
@@ -361,16 +365,28 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.isEOF() {
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // クォーテーションのエスケープ ('' など)
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
+}
+
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -412,7 +428,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..0de3044 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, ok := l.readQuotedLiteral(l.ch)
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
+		}
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -349,10 +353,10 @@ func (l *Lexer) NextToken() Token {
 		tok = newToken(TOKEN_ASTERISK, l.ch)
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
-	case 0:
-		tok.Literal = Literal{}
-		tok.Type = TOKEN_EOF
 	default:
+		if l.isEOF() {
+			return Token{Type: TOKEN_EOF}
+		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
@@ -367,16 +371,32 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+// クォーテーションが閉じられていない場合は ok = false を返します。
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.isEOF() {
+			return l.input[position:], false
+		}
+		if l.ch == '\\' && quote != '`' {
+			l.readChar() // エスケープされた文字を読み飛ばす
+			continue
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // クォーテーションのエスケープ ('' など)
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
+}
+
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
@@ -418,7 +438,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 14d5952c04d4b43910d15287670780975d482de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 04/92] fix: lexers keep unquoted non-ASCII identifiers intact

---
 pkg/ddl/cockroachdb/lexar.go | 1 +
 pkg/ddl/mysql/lexar.go       | 1 +
 pkg/ddl/postgres/lexar.go    | 1 +
 pkg/ddl/spanner/lexar.go     | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index aacc3fb..b50acff 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -442,6 +442,7 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
+		ch >= 0x80 || // UTF-8 の 2 バイト目以降を含む非 ASCII 文字
 		ch == '.'
 }
 
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index b4a5f5a..331bf6f 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -470,6 +470,7 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
+		ch >= 0x80 || // UTF-8 の 2 バイト目以降を含む非 ASCII 文字
 		ch == '.'
 }
 
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 2715184..c2420c8 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -416,6 +416,7 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
+		ch >= 0x80 || // UTF-8 の 2 バイト目以降を含む非 ASCII 文字
 		ch == '.'
 }
 
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 0de3044..e202a9f 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -426,6 +426,7 @@ func isLiteral(ch byte) bool {
 		'a' <= ch && ch <= 'z' ||
 		'0' <= ch && ch <= '9' ||
 		ch == '_' ||
+		ch >= 0x80 || // UTF-8 の 2 バイト目以降を含む非 ASCII 文字
 		ch == '.'
 }
 
-- 
2.43.0


From da0c138afc7822dde35766b93713a08edbb917f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 05/92] fix: cockroachdb: parse USING before and after the
 columns of CREATE INDEX

---
 pkg/ddl/cockroachdb/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index bb4b935..9d44822 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -270,7 +270,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -468,7 +467,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_OPEN_PAREN, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
@@ -745,7 +744,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	default:
-- 
2.43.0


From e0f3e9d2113652951d8ef9026f562a8e685797f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 06/92] fix: reject unsupported tokens after the column list of
 CREATE INDEX instead of dropping them

---
 pkg/ddl/cockroachdb/parser.go | 4 ++++
 pkg/ddl/mysql/parser.go       | 4 ++++
 pkg/ddl/postgres/parser.go    | 4 ++++
 pkg/ddl/spanner/parser.go     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 9d44822..4cf1195 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -272,6 +272,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		createIndexStmt.UsingPostColumns = using
 	}
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 08d482e..337c361 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -326,6 +326,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 1642f5a..93f0374 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -259,6 +259,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 239aca0..b97e6df 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -398,6 +398,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
-- 
2.43.0


From a035dd2f1340ced36f6112f6a49b7948b772c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 07/92] fix: cockroachdb: do not skip the opening parenthesis
 after CREATE INDEX ... USING

---
 pkg/ddl/cockroachdb/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 4cf1195..fa48e9e 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -250,7 +250,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPreColumns = using
-		p.nextToken() // current = (
 	}
 
 	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
-- 
2.43.0


From e667c1cc7ab718f5d3ef37ae1ae1ac94feccf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 08/92] fix: cockroachdb, spanner: derive the name of an
 unnamed FOREIGN KEY from the column names only

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index fa48e9e..4980440 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -704,7 +704,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index b97e6df..2114436 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -670,7 +670,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
-- 
2.43.0


From 7787095a1f530e7df4d0b6694288a0c1bf4b89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 09/92] fix: mysql: keep ON DELETE/ON UPDATE of foreign keys in
 the rendered DDL and the comparison

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++++
 pkg/ddl/mysql/parser.go    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 337c361..07decf4 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -570,7 +570,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 11340d492c4200be1bddd94ceb79224f29b68491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 10/92] fix: quote constraint names derived from quoted table
 and column names

---
 pkg/ddl/cockroachdb/parser.go | 24 ++++++++++++++++++------
 pkg/ddl/mysql/parser.go       | 24 ++++++++++++++++++------
 pkg/ddl/postgres/parser.go    | 26 +++++++++++++++++++-------
 pkg/ddl/spanner/parser.go     | 18 +++++++++++++++---
 4 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 4980440..e9a5cb1 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -46,6 +47,17 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDerivedIdent returns an identifier that is derived from other names, quoting it when it is not a plain identifier.
+func newDerivedIdent(name string) *Ident {
+	const quotationMark = `"`
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -543,7 +555,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDerivedIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -552,7 +564,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -591,7 +603,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -600,7 +612,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDerivedIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -648,7 +660,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -707,7 +719,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDerivedIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 07decf4..f80ad34 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -45,6 +46,17 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDerivedIdent returns an identifier that is derived from other names, quoting it when it is not a plain identifier.
+func newDerivedIdent(name string) *Ident {
+	const quotationMark = "`"
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -548,7 +560,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -579,7 +591,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -588,7 +600,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDerivedIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -687,10 +699,10 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDerivedIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -737,7 +749,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_chk")
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 93f0374..eec6362 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -46,6 +47,17 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDerivedIdent returns an identifier that is derived from other names, quoting it when it is not a plain identifier.
+func newDerivedIdent(name string) *Ident {
+	const quotationMark = `"`
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -438,7 +450,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDerivedIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -447,7 +459,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -485,7 +497,7 @@ LabelConstraints:
 			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -494,7 +506,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDerivedIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -542,7 +554,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_pkey")
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -601,7 +613,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDerivedIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -626,7 +638,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = newDerivedIdent(name) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 2114436..2b2e167 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"runtime"
 	"strings"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -45,6 +46,17 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 	}
 }
 
+// newDerivedIdent returns an identifier that is derived from other names, quoting it when it is not a plain identifier.
+func newDerivedIdent(name string) *Ident {
+	const quotationMark = "`"
+	for i, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -588,7 +600,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDerivedIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -606,7 +618,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: newDerivedIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -673,7 +685,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDerivedIdent(name)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
-- 
2.43.0


From c6d27138518890abe38c68b297cfbed7b2341ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 11/92] fix: keep every constraint of a table whose derived
 name is already taken

---
 pkg/ddl/cockroachdb/parser.go | 49 ++++++++++++++++++++++++++++++-----
 pkg/ddl/mysql/parser.go       | 49 ++++++++++++++++++++++++++++++-----
 pkg/ddl/postgres/parser.go    | 49 ++++++++++++++++++++++++++++++-----
 pkg/ddl/spanner/parser.go     | 43 ++++++++++++++++++++++++++----
 4 files changed, 164 insertions(+), 26 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index e9a5cb1..7e2894a 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -58,6 +58,36 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+// appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
+func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
+	taken := func(name string) bool {
+		for _, c := range constraints {
+			if c.GetName().Name == name {
+				return true
+			}
+		}
+		return false
+	}
+
+	baseName := constraint.GetName().Name
+	name := baseName
+	for i := 1; taken(name); i++ {
+		name = fmt.Sprintf("%s%d", baseName, i)
+	}
+	if name != baseName {
+		switch c := constraint.(type) {
+		case *ForeignKeyConstraint:
+			c.Name = newDerivedIdent(name)
+		case *IndexConstraint:
+			c.Name = newDerivedIdent(name)
+		case *CheckConstraint:
+			c.Name = newDerivedIdent(name)
+		}
+	}
+
+	return constraints.Append(constraint)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -181,15 +211,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			isDerived := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if isDerived {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -358,7 +393,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = append(constraints, c)
 			}
 		}
 	default:
@@ -554,7 +589,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = append(constraints, &PrimaryKeyConstraint{
 				Name:    newDerivedIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -598,10 +633,10 @@ LabelConstraints:
 				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
+			constraints = append(constraints, &IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
 				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
@@ -619,7 +654,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index f80ad34..6fcacd5 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -57,6 +57,36 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+// appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
+func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
+	taken := func(name string) bool {
+		for _, c := range constraints {
+			if c.GetName().Name == name {
+				return true
+			}
+		}
+		return false
+	}
+
+	baseName := constraint.GetName().Name
+	name := baseName
+	for i := 1; taken(name); i++ {
+		name = fmt.Sprintf("%s%d", baseName, i)
+	}
+	if name != baseName {
+		switch c := constraint.(type) {
+		case *ForeignKeyConstraint:
+			c.Name = newDerivedIdent(name)
+		case *IndexConstraint:
+			c.Name = newDerivedIdent(name)
+		case *CheckConstraint:
+			c.Name = newDerivedIdent(name)
+		}
+	}
+
+	return constraints.Append(constraint)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -180,15 +210,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			isDerived := p.isCurrentToken(TOKEN_FOREIGN, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if isDerived {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -426,7 +461,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = append(constraints, c)
 			}
 		}
 
@@ -550,7 +585,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = append(constraints, &PrimaryKeyConstraint{
 				Name:    NewRawIdent("PRIMARY KEY"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -586,10 +621,10 @@ LabelConstraints:
 			}
 
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&IndexConstraint{
+			constraints = append(constraints, &IndexConstraint{
 				Unique:  true,
 				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
@@ -607,7 +642,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index eec6362..766b55d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -58,6 +58,36 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+// appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
+func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
+	taken := func(name string) bool {
+		for _, c := range constraints {
+			if c.GetName().Name == name {
+				return true
+			}
+		}
+		return false
+	}
+
+	baseName := constraint.GetName().Name
+	name := baseName
+	for i := 1; taken(name); i++ {
+		name = fmt.Sprintf("%s%d", baseName, i)
+	}
+	if name != baseName {
+		switch c := constraint.(type) {
+		case *ForeignKeyConstraint:
+			c.Name = newDerivedIdent(name)
+		case *UniqueConstraint:
+			c.Name = newDerivedIdent(name)
+		case *CheckConstraint:
+			c.Name = newDerivedIdent(name)
+		}
+	}
+
+	return constraints.Append(constraint)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -181,15 +211,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			isDerived := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN, TOKEN_UNIQUE, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if isDerived {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -333,7 +368,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = append(constraints, c)
 			}
 		}
 	default:
@@ -449,7 +484,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = KEY
-			constraints = constraints.Append(&PrimaryKeyConstraint{
+			constraints = append(constraints, &PrimaryKeyConstraint{
 				Name:    newDerivedIdent(tableName.StringForDiff() + "_pkey"),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -493,10 +528,10 @@ LabelConstraints:
 				p.nextToken() // current = any
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_UNIQUE:
-			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
+			constraints = append(constraints, &UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    newDerivedIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
@@ -513,7 +548,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 2b2e167..b0025d1 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -57,6 +57,34 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+// appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
+func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
+	taken := func(name string) bool {
+		for _, c := range constraints {
+			if c.GetName().Name == name {
+				return true
+			}
+		}
+		return false
+	}
+
+	baseName := constraint.GetName().Name
+	name := baseName
+	for i := 1; taken(name); i++ {
+		name = fmt.Sprintf("%s%d", baseName, i)
+	}
+	if name != baseName {
+		switch c := constraint.(type) {
+		case *ForeignKeyConstraint:
+			c.Name = newDerivedIdent(name)
+		case *CheckConstraint:
+			c.Name = newDerivedIdent(name)
+		}
+	}
+
+	return constraints.Append(constraint)
+}
+
 // Parser はSQL文を解析するパーサーです。
 type Parser struct {
 	l            *Lexer
@@ -180,15 +208,20 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
-					createTableStmt.Constraints = createTableStmt.Constraints.Append(c)
+					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
 		case isConstraint(p.currentToken.Type):
+			isDerived := p.isCurrentToken(TOKEN_FOREIGN, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
-			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			if isDerived {
+				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
+			} else {
+				createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
+			}
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
@@ -472,7 +505,7 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 		}
 		if len(cs) > 0 {
 			for _, c := range cs {
-				constraints = constraints.Append(c)
+				constraints = append(constraints, c)
 			}
 		}
 
@@ -610,7 +643,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
 			constraint.RefColumns = idents
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseColumnIdents has already consumed the closing parenthesis
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
@@ -625,7 +658,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
-			constraints = constraints.Append(constraint)
+			constraints = append(constraints, constraint)
 			continue // parseExpr has already consumed the closing parenthesis
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
-- 
2.43.0


From 7adcc017c151c81e11d066587ec94f4aaf4ba523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 12/92] fix: spanner: name an unnamed table CHECK instead of
 dereferencing nil

---
 pkg/ddl/spanner/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index b0025d1..f89dbfc 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -738,6 +738,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_chk")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From b546c64ae024aae46b81e7bb05bf188c2a6ee6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 13/92] fix: postgres, cockroachdb: accept table-level CHECK,
 which the rendered DDL uses

---
 pkg/ddl/cockroachdb/parser.go | 19 ++++++++++++++++++-
 pkg/ddl/postgres/parser.go    | 17 +++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 7e2894a..84988d0 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -215,7 +215,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			isDerived := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN)
+			isDerived := p.isCurrentToken(TOKEN_PRIMARY, TOKEN_FOREIGN, TOKEN_CHECK)
 			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
@@ -796,6 +796,23 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			c.UsingPostColumns = using
 		}
 		return c, nil
+	case TOKEN_CHECK:
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_chk")
+		}
+		constraint := &CheckConstraint{
+			Name: constraintName,
+		}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 766b55d..19eeab5 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -678,6 +678,23 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		c.Name = constraintName
 		c.Columns = idents
 		return c, nil
+	case TOKEN_CHECK:
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = newDerivedIdent(tableName.StringForDiff() + "_chk")
+		}
+		constraint := &CheckConstraint{
+			Name: constraintName,
+		}
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
-- 
2.43.0


From f900041b34fe242dc773d74e0f8fb078f5c5f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 14/92] fix: spanner: accept OPTIONS after DEFAULT, which the
 rendered DDL uses

---
 pkg/ddl/spanner/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index f89dbfc..aabb134 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -540,7 +540,7 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_OPTIONS, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
 			if isReservedValue(p.currentToken.Type) {
-- 
2.43.0


From beed97f41268661a3e739d52db590e5d47e04af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 15/92] fix: postgres, cockroachdb: DEFAULT followed by a data
 type keyword no longer dereferences nil

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 84988d0..f122774 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -433,7 +433,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -481,7 +481,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 19eeab5..3bf90db 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -408,7 +408,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From d1d6ef1dbd6529952c6d9919f6ff5ba805c6a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 16/92] fix: type synonyms and the letter case of ON DELETE/ON
 UPDATE are not differences

---
 pkg/ddl/cockroachdb/ddl_table.go | 2 +-
 pkg/ddl/mysql/ddl_table.go       | 2 +-
 pkg/ddl/mysql/parser.go          | 3 +--
 pkg/ddl/postgres/ddl_table.go    | 2 +-
 pkg/ddl/postgres/parser.go       | 3 +++
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..1075a36 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -132,7 +132,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..e31aaae 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -134,7 +134,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 6fcacd5..865a0c0 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -801,7 +801,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	switch p.currentToken.Type { //nolint:exhaustive
 	case TOKEN_BOOLEAN:
 		dataType.Name = "TINYINT"
-		dataType.Type = TOKEN_BOOLEAN
+		dataType.Type = TOKEN_TINYINT // BOOLEAN is a synonym for TINYINT(1)
 		dataType.Expr = dataType.Expr.Append(NewRawIdent("1"))
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
@@ -821,7 +821,6 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		if p.isPeekToken(TOKEN_PRECISION) {
 			p.nextToken() // current = PRECISION
 			dataType.Name += " " + p.currentToken.Literal.String()
-			dataType.Type = TOKEN_DOUBLE_PRECISION
 		}
 	case TOKEN_CHARACTER:
 		dataType.Name = p.currentToken.Literal.String()
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..c81dfd2 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -120,7 +120,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 3bf90db..ff8b375 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -743,6 +743,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_VARYING: //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_CHARACTER_VARYING         //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From 061d6dbf4f7824d956bb422f3b2ad8b31df5f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 17/92] fix: mysql: letter case of a column's ON UPDATE is not
 a difference

---
 pkg/ddl/mysql/diff_create_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..0f37774 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -252,7 +252,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-			beforeColumn.OnAction != afterColumn.OnAction ||
+			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			beforeColumn.Comment != afterColumn.Comment {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
-- 
2.43.0


From 864e1b64c7fc4e23f6b79f934f744a78004423f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 18/92] fix: spanner: spelling of ASC and DESC in PRIMARY KEY
 does not recreate the table

---
 pkg/ddl/spanner/ddl_table.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..578642c 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -302,7 +302,22 @@ func (o *Option) StringForDiff() string {
 	if o == nil || o.Value == nil {
 		return ""
 	}
-	return o.Name + " " + o.Value.StringForDiff()
+	value := o.Value
+	if o.Name == "PRIMARY KEY" {
+		// ASC is the default order
+		value = &Expr{}
+		for _, ident := range o.Value.Idents {
+			switch order := strings.ToUpper(ident.Raw); order {
+			case "ASC":
+				// noop
+			case "DESC":
+				value = value.Append(NewRawIdent(order))
+			default:
+				value = value.Append(ident)
+			}
+		}
+	}
+	return o.Name + " " + value.StringForDiff()
 }
 
 func (o *Option) GoString() string { return internal.GoString(*o) }
-- 
2.43.0


From 918ee0212a2f4f756a2f553aaa4c9e7dedd91382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 19/92] fix: postgres: the access method of an index is a
 difference

---
 pkg/ddl/postgres/ddl_index_create.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index 8790179..e36aeaa 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -60,7 +60,12 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
-	// TODO: add USING
+	if len(s.Using) > 0 {
+		// NOTE: btree is the default access method.
+		if using := strings.ToLower(stringz.JoinStringers(" ", s.Using...)); using != "btree" {
+			str += " USING " + using
+		}
+	}
 	str += " ("
 	for i, c := range s.Columns {
 		if i > 0 {
-- 
2.43.0


From 02a6087aa6265661ff9b259d92b3276296837b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 20/92] fix: mysql: MODIFY keeps the column's CHARACTER SET

---
 pkg/ddl/mysql/diff_create_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 0f37774..3049f67 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From f1668de1aacac5024cba280b850b0db86c6685eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 21/92] fix: cockroachdb: USING btree and the letter case of
 USING are not differences

---
 pkg/ddl/cockroachdb/ddl.go              | 10 ++++++++++
 pkg/ddl/cockroachdb/ddl_index_create.go |  8 ++++----
 pkg/ddl/cockroachdb/ddl_table.go        |  8 ++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..b7e9887 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -1,6 +1,8 @@
 package cockroachdb
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -166,6 +168,14 @@ func (u *Using) String() string {
 	return str
 }
 
+// StringForDiff folds the letter case and leaves out btree, the default method.
+func (u *Using) StringForDiff() string {
+	if str := strings.ToLower(u.String()); str != "using btree" {
+		return str
+	}
+	return ""
+}
+
 type With struct {
 	Value *Expr
 }
diff --git a/pkg/ddl/cockroachdb/ddl_index_create.go b/pkg/ddl/cockroachdb/ddl_index_create.go
index 7ade1b0..2c1b105 100644
--- a/pkg/ddl/cockroachdb/ddl_index_create.go
+++ b/pkg/ddl/cockroachdb/ddl_index_create.go
@@ -64,8 +64,8 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
-	if s.UsingPreColumns != nil {
-		str += " " + s.UsingPreColumns.String()
+	if using := s.UsingPreColumns.StringForDiff(); using != "" {
+		str += " " + using
 	}
 	str += " ("
 	for i, c := range s.Columns {
@@ -75,8 +75,8 @@ func (s *CreateIndexStmt) StringForDiff() string {
 		str += c.StringForDiff()
 	}
 	str += ")"
-	if s.UsingPostColumns != nil {
-		str += " " + s.UsingPostColumns.String()
+	if using := s.UsingPostColumns.StringForDiff(); using != "" {
+		str += " " + using
 	}
 	str += ";\n"
 	return str
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 1075a36..5262902 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -177,8 +177,8 @@ func (c *IndexConstraint) StringForDiff() string { //diff:ignore-line-postgres-c
 	if c.Name != nil {
 		str += "INDEX " + c.Name.StringForDiff() + " " //diff:ignore-line-postgres-cockroach
 	}
-	if c.UsingPreColumns != nil {
-		str += " " + c.UsingPreColumns.String()
+	if using := c.UsingPreColumns.StringForDiff(); using != "" {
+		str += " " + using
 	}
 	str += "("
 	for i, v := range c.Columns {
@@ -188,8 +188,8 @@ func (c *IndexConstraint) StringForDiff() string { //diff:ignore-line-postgres-c
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.UsingPostColumns != nil {
-		str += " " + c.UsingPostColumns.String()
+	if using := c.UsingPostColumns.StringForDiff(); using != "" {
+		str += " " + using
 	}
 	return str
 }
-- 
2.43.0


From 358564db58353f79b346c25b3ceff9848dfed03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:33 +0000
Subject: [PATCH 22/92] fix: order the statements of a diff by their
 dependencies

---
 pkg/ddl/cockroachdb/diff.go       |   3 +
 pkg/ddl/cockroachdb/diff_order.go | 119 +++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go             |   3 +
 pkg/ddl/mysql/diff_order.go       | 119 +++++++++++++++++++++++++++
 pkg/ddl/postgres/diff.go          |   3 +
 pkg/ddl/postgres/diff_order.go    | 119 +++++++++++++++++++++++++++
 pkg/ddl/spanner/diff.go           |   3 +
 pkg/ddl/spanner/diff_order.go     | 131 ++++++++++++++++++++++++++++++
 8 files changed, 500 insertions(+)
 create mode 100644 pkg/ddl/cockroachdb/diff_order.go
 create mode 100644 pkg/ddl/mysql/diff_order.go
 create mode 100644 pkg/ddl/postgres/diff_order.go
 create mode 100644 pkg/ddl/spanner/diff_order.go

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..3aafa0e 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, after, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, after, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/cockroachdb/diff_order.go b/pkg/ddl/cockroachdb/diff_order.go
new file mode 100644
index 0000000..3898fa3
--- /dev/null
+++ b/pkg/ddl/cockroachdb/diff_order.go
@@ -0,0 +1,119 @@
+package cockroachdb
+
+import (
+	"sort"
+)
+
+// Statements are executed one after another, so each of them has to find the objects it needs and nothing that needs the objects it drops.
+const (
+	orderRename = iota
+	orderDropForeignKey
+	orderDropIndex
+	orderDropConstraint
+	orderDropTable
+	orderAlter
+	orderAddConstraint
+	orderCreate
+	orderAddForeignKey
+)
+
+// sortStmts sorts the statements that change before into after by their dependencies.
+func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
+	foreignKeys := make(map[string]bool)
+	referencedBy := make(map[string][]string) // referenced table => referencing tables
+	for _, stmt := range before.Stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range table.Constraints {
+				if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+					foreignKeys[table.GetNameForDiff()+"\x00"+fk.GetName().StringForDiff()] = true
+					referencedBy[fk.Ref.StringForDiff()] = append(referencedBy[fk.Ref.StringForDiff()], table.GetNameForDiff())
+				}
+			}
+		}
+	}
+
+	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	createOrder := func(stmt Stmt) int {
+		if after == nil {
+			return 0
+		}
+		for i, afterStmt := range after.Stmts {
+			if stmt == afterStmt {
+				return i
+			}
+		}
+		return len(after.Stmts)
+	}
+
+	sort.SliceStable(stmts, func(i, j int) bool {
+		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		switch {
+		case orderI != orderJ:
+			return orderI < orderJ
+		case orderI == orderDropTable:
+			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
+		case orderI == orderCreate:
+			return createOrder(stmts[i]) < createOrder(stmts[j])
+		default:
+			return false
+		}
+	})
+
+	return stmts
+}
+
+// dropTableOrders drops a table after the tables that reference it.
+func dropTableOrders(stmts []Stmt, referencedBy map[string][]string) map[string]int {
+	dropped := make(map[string]bool)
+	for _, stmt := range stmts {
+		if _, ok := stmt.(*DropTableStmt); ok {
+			dropped[stmt.GetNameForDiff()] = true
+		}
+	}
+
+	orders := make(map[string]int)
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		if !dropped[name] || visited[name] {
+			return
+		}
+		visited[name] = true
+		for _, referencing := range referencedBy[name] {
+			visit(referencing)
+		}
+		orders[name] = len(orders)
+	}
+	for _, stmt := range stmts {
+		visit(stmt.GetNameForDiff())
+	}
+
+	return orders
+}
+
+func stmtOrder(stmt Stmt, foreignKeys map[string]bool) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return orderDropIndex
+	case *DropTableStmt:
+		return orderDropTable
+	case *CreateTableStmt, *CreateIndexStmt:
+		return orderCreate
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *RenameTable:
+			return orderRename
+		case *DropConstraint:
+			if foreignKeys[s.GetNameForDiff()+"\x00"+action.Name.StringForDiff()] {
+				return orderDropForeignKey
+			}
+			return orderDropConstraint
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return orderAddForeignKey
+			}
+			return orderAddConstraint
+		}
+	}
+	return orderAlter
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..1a60c79 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, after, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, after, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
new file mode 100644
index 0000000..9b939e5
--- /dev/null
+++ b/pkg/ddl/mysql/diff_order.go
@@ -0,0 +1,119 @@
+package mysql
+
+import (
+	"sort"
+)
+
+// Statements are executed one after another, so each of them has to find the objects it needs and nothing that needs the objects it drops.
+const (
+	orderRename = iota
+	orderDropForeignKey
+	orderDropIndex
+	orderDropConstraint
+	orderDropTable
+	orderAlter
+	orderAddConstraint
+	orderCreate
+	orderAddForeignKey
+)
+
+// sortStmts sorts the statements that change before into after by their dependencies.
+func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
+	foreignKeys := make(map[string]bool)
+	referencedBy := make(map[string][]string) // referenced table => referencing tables
+	for _, stmt := range before.Stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range table.Constraints {
+				if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+					foreignKeys[table.GetNameForDiff()+"\x00"+fk.GetName().StringForDiff()] = true
+					referencedBy[fk.Ref.StringForDiff()] = append(referencedBy[fk.Ref.StringForDiff()], table.GetNameForDiff())
+				}
+			}
+		}
+	}
+
+	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	createOrder := func(stmt Stmt) int {
+		if after == nil {
+			return 0
+		}
+		for i, afterStmt := range after.Stmts {
+			if stmt == afterStmt {
+				return i
+			}
+		}
+		return len(after.Stmts)
+	}
+
+	sort.SliceStable(stmts, func(i, j int) bool {
+		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		switch {
+		case orderI != orderJ:
+			return orderI < orderJ
+		case orderI == orderDropTable:
+			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
+		case orderI == orderCreate:
+			return createOrder(stmts[i]) < createOrder(stmts[j])
+		default:
+			return false
+		}
+	})
+
+	return stmts
+}
+
+// dropTableOrders drops a table after the tables that reference it.
+func dropTableOrders(stmts []Stmt, referencedBy map[string][]string) map[string]int {
+	dropped := make(map[string]bool)
+	for _, stmt := range stmts {
+		if _, ok := stmt.(*DropTableStmt); ok {
+			dropped[stmt.GetNameForDiff()] = true
+		}
+	}
+
+	orders := make(map[string]int)
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		if !dropped[name] || visited[name] {
+			return
+		}
+		visited[name] = true
+		for _, referencing := range referencedBy[name] {
+			visit(referencing)
+		}
+		orders[name] = len(orders)
+	}
+	for _, stmt := range stmts {
+		visit(stmt.GetNameForDiff())
+	}
+
+	return orders
+}
+
+func stmtOrder(stmt Stmt, foreignKeys map[string]bool) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return orderDropIndex
+	case *DropTableStmt:
+		return orderDropTable
+	case *CreateTableStmt, *CreateIndexStmt:
+		return orderCreate
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *RenameTable:
+			return orderRename
+		case *DropConstraint:
+			if foreignKeys[s.GetNameForDiff()+"\x00"+action.Name.StringForDiff()] {
+				return orderDropForeignKey
+			}
+			return orderDropConstraint
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return orderAddForeignKey
+			}
+			return orderAddConstraint
+		}
+	}
+	return orderAlter
+}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..c5b2562 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, after, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, after, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/postgres/diff_order.go b/pkg/ddl/postgres/diff_order.go
new file mode 100644
index 0000000..334b277
--- /dev/null
+++ b/pkg/ddl/postgres/diff_order.go
@@ -0,0 +1,119 @@
+package postgres
+
+import (
+	"sort"
+)
+
+// Statements are executed one after another, so each of them has to find the objects it needs and nothing that needs the objects it drops.
+const (
+	orderRename = iota
+	orderDropForeignKey
+	orderDropIndex
+	orderDropConstraint
+	orderDropTable
+	orderAlter
+	orderAddConstraint
+	orderCreate
+	orderAddForeignKey
+)
+
+// sortStmts sorts the statements that change before into after by their dependencies.
+func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
+	foreignKeys := make(map[string]bool)
+	referencedBy := make(map[string][]string) // referenced table => referencing tables
+	for _, stmt := range before.Stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range table.Constraints {
+				if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+					foreignKeys[table.GetNameForDiff()+"\x00"+fk.GetName().StringForDiff()] = true
+					referencedBy[fk.Ref.StringForDiff()] = append(referencedBy[fk.Ref.StringForDiff()], table.GetNameForDiff())
+				}
+			}
+		}
+	}
+
+	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	createOrder := func(stmt Stmt) int {
+		if after == nil {
+			return 0
+		}
+		for i, afterStmt := range after.Stmts {
+			if stmt == afterStmt {
+				return i
+			}
+		}
+		return len(after.Stmts)
+	}
+
+	sort.SliceStable(stmts, func(i, j int) bool {
+		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		switch {
+		case orderI != orderJ:
+			return orderI < orderJ
+		case orderI == orderDropTable:
+			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
+		case orderI == orderCreate:
+			return createOrder(stmts[i]) < createOrder(stmts[j])
+		default:
+			return false
+		}
+	})
+
+	return stmts
+}
+
+// dropTableOrders drops a table after the tables that reference it.
+func dropTableOrders(stmts []Stmt, referencedBy map[string][]string) map[string]int {
+	dropped := make(map[string]bool)
+	for _, stmt := range stmts {
+		if _, ok := stmt.(*DropTableStmt); ok {
+			dropped[stmt.GetNameForDiff()] = true
+		}
+	}
+
+	orders := make(map[string]int)
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		if !dropped[name] || visited[name] {
+			return
+		}
+		visited[name] = true
+		for _, referencing := range referencedBy[name] {
+			visit(referencing)
+		}
+		orders[name] = len(orders)
+	}
+	for _, stmt := range stmts {
+		visit(stmt.GetNameForDiff())
+	}
+
+	return orders
+}
+
+func stmtOrder(stmt Stmt, foreignKeys map[string]bool) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return orderDropIndex
+	case *DropTableStmt:
+		return orderDropTable
+	case *CreateTableStmt, *CreateIndexStmt:
+		return orderCreate
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *RenameTable:
+			return orderRename
+		case *DropConstraint:
+			if foreignKeys[s.GetNameForDiff()+"\x00"+action.Name.StringForDiff()] {
+				return orderDropForeignKey
+			}
+			return orderDropConstraint
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return orderAddForeignKey
+			}
+			return orderAddConstraint
+		}
+	}
+	return orderAlter
+}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..b3ab98e 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -34,6 +34,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
 			}
 		}
+		result.Stmts = sortStmts(before, after, result.Stmts)
 		return result, nil
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
@@ -101,6 +102,8 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	result.Stmts = sortStmts(before, after, result.Stmts)
+
 	return result, nil
 }
 
diff --git a/pkg/ddl/spanner/diff_order.go b/pkg/ddl/spanner/diff_order.go
new file mode 100644
index 0000000..07bbd6f
--- /dev/null
+++ b/pkg/ddl/spanner/diff_order.go
@@ -0,0 +1,131 @@
+package spanner
+
+import (
+	"sort"
+	"strings"
+)
+
+// Statements are executed one after another, so each of them has to find the objects it needs and nothing that needs the objects it drops.
+const (
+	orderRename = iota
+	orderDropForeignKey
+	orderDropIndex
+	orderDropConstraint
+	orderDropTable
+	orderAlter
+	orderDropColumn
+	orderAddConstraint
+	orderCreate
+	orderAddForeignKey
+)
+
+// sortStmts sorts the statements that change before into after by their dependencies.
+func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
+	foreignKeys := make(map[string]bool)
+	referencedBy := make(map[string][]string) // referenced table => referencing tables
+	for _, stmt := range before.Stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			for _, constraint := range table.Constraints {
+				if fk, ok := constraint.(*ForeignKeyConstraint); ok {
+					foreignKeys[table.GetNameForDiff()+"\x00"+fk.GetName().StringForDiff()] = true
+					referencedBy[fk.Ref.StringForDiff()] = append(referencedBy[fk.Ref.StringForDiff()], table.GetNameForDiff())
+				}
+			}
+			for _, option := range table.Options {
+				if option.Name == "INTERLEAVE IN PARENT" {
+					parent := strings.Trim(option.Value.Idents[0].Raw, "`\"")
+					referencedBy[parent] = append(referencedBy[parent], table.GetNameForDiff())
+				}
+			}
+		}
+	}
+
+	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	createOrder := func(stmt Stmt) int {
+		if after == nil {
+			return 0
+		}
+		for i, afterStmt := range after.Stmts {
+			if stmt == afterStmt {
+				return i
+			}
+		}
+		return len(after.Stmts)
+	}
+
+	sort.SliceStable(stmts, func(i, j int) bool {
+		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		switch {
+		case orderI != orderJ:
+			return orderI < orderJ
+		case orderI == orderDropTable:
+			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
+		case orderI == orderCreate:
+			return createOrder(stmts[i]) < createOrder(stmts[j])
+		default:
+			return false
+		}
+	})
+
+	return stmts
+}
+
+// dropTableOrders drops a table after the tables that reference it.
+func dropTableOrders(stmts []Stmt, referencedBy map[string][]string) map[string]int {
+	dropped := make(map[string]bool)
+	for _, stmt := range stmts {
+		if _, ok := stmt.(*DropTableStmt); ok {
+			dropped[stmt.GetNameForDiff()] = true
+		}
+	}
+
+	orders := make(map[string]int)
+	visited := make(map[string]bool)
+	var visit func(name string)
+	visit = func(name string) {
+		if !dropped[name] || visited[name] {
+			return
+		}
+		visited[name] = true
+		for _, referencing := range referencedBy[name] {
+			visit(referencing)
+		}
+		orders[name] = len(orders)
+	}
+	for _, stmt := range stmts {
+		visit(stmt.GetNameForDiff())
+	}
+
+	return orders
+}
+
+func stmtOrder(stmt Stmt, foreignKeys map[string]bool) int {
+	switch s := stmt.(type) {
+	case *DropIndexStmt:
+		return orderDropIndex
+	case *DropTableStmt:
+		return orderDropTable
+	case *CreateTableStmt, *CreateIndexStmt:
+		return orderCreate
+	case *AlterTableStmt:
+		switch action := s.Action.(type) {
+		case *RenameTable:
+			return orderRename
+		case *DropRowDeletionPolicy:
+			return orderDropConstraint
+		case *DropColumn:
+			return orderDropColumn
+		case *DropConstraint:
+			if foreignKeys[s.GetNameForDiff()+"\x00"+action.Name.StringForDiff()] {
+				return orderDropForeignKey
+			}
+			return orderDropConstraint
+		case *AddConstraint:
+			if _, ok := action.Constraint.(*ForeignKeyConstraint); ok {
+				return orderAddForeignKey
+			}
+			return orderAddConstraint
+		}
+	}
+	return orderAlter
+}
-- 
2.43.0


From c7b9f2d6bdfe8af8cc04f4ff41d546d29655d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:28 +0000
Subject: [PATCH 23/92] fix: DiffCreateTable no longer writes the before schema
 name into the after table

---
 pkg/ddl/cockroachdb/diff_create_table.go | 9 ++++++---
 pkg/ddl/mysql/diff_create_table.go       | 9 ++++++---
 pkg/ddl/postgres/diff_create_table.go    | 9 ++++++---
 pkg/ddl/spanner/diff_create_table.go     | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..dbaf276 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		newName, renamed := *after.Name, *after
+		if newName.Schema == nil {
+			newName.Schema = before.Name.Schema
+		}
+		renamed.Name = &newName
+		after = &renamed // the caller's table is left as it is
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 3049f67..67f706a 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		newName, renamed := *after.Name, *after
+		if newName.Schema == nil {
+			newName.Schema = before.Name.Schema
+		}
+		renamed.Name = &newName
+		after = &renamed // the caller's table is left as it is
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..f1a5a94 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -59,12 +59,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		newName, renamed := *after.Name, *after
+		if newName.Schema == nil {
+			newName.Schema = before.Name.Schema
+		}
+		renamed.Name = &newName
+		after = &renamed // the caller's table is left as it is
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..f62f87d 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -67,12 +67,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		newName, renamed := *after.Name, *after
+		if newName.Schema == nil {
+			newName.Schema = before.Name.Schema
+		}
+		renamed.Name = &newName
+		after = &renamed // the caller's table is left as it is
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
-- 
2.43.0


From de22a0bda0994666b54d2f3a4e0e024f09571bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 24/92] fix: a carriage return in a literal no longer ends the
 comments of a diff

---
 pkg/ddl/cockroachdb/ddl_index_create.go | 2 +-
 pkg/ddl/cockroachdb/ddl_index_drop.go   | 2 +-
 pkg/ddl/cockroachdb/ddl_table_alter.go  | 2 +-
 pkg/ddl/cockroachdb/ddl_table_create.go | 2 +-
 pkg/ddl/cockroachdb/ddl_table_drop.go   | 2 +-
 pkg/ddl/mysql/ddl_index_create.go       | 2 +-
 pkg/ddl/mysql/ddl_index_drop.go         | 2 +-
 pkg/ddl/mysql/ddl_table_alter.go        | 2 +-
 pkg/ddl/mysql/ddl_table_create.go       | 2 +-
 pkg/ddl/mysql/ddl_table_drop.go         | 2 +-
 pkg/ddl/postgres/ddl_index_create.go    | 2 +-
 pkg/ddl/postgres/ddl_index_drop.go      | 2 +-
 pkg/ddl/postgres/ddl_table_alter.go     | 2 +-
 pkg/ddl/postgres/ddl_table_create.go    | 2 +-
 pkg/ddl/postgres/ddl_table_drop.go      | 2 +-
 pkg/ddl/spanner/ddl_index_create.go     | 2 +-
 pkg/ddl/spanner/ddl_index_drop.go       | 2 +-
 pkg/ddl/spanner/ddl_table_alter.go      | 2 +-
 pkg/ddl/spanner/ddl_table_create.go     | 2 +-
 pkg/ddl/spanner/ddl_table_drop.go       | 2 +-
 20 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_index_create.go b/pkg/ddl/cockroachdb/ddl_index_create.go
index 2c1b105..7a2a115 100644
--- a/pkg/ddl/cockroachdb/ddl_index_create.go
+++ b/pkg/ddl/cockroachdb/ddl_index_create.go
@@ -30,7 +30,7 @@ func (s *CreateIndexStmt) GetNameForDiff() string {
 func (s *CreateIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/cockroachdb/ddl_index_drop.go b/pkg/ddl/cockroachdb/ddl_index_drop.go
index e0b959f..a61a1c8 100644
--- a/pkg/ddl/cockroachdb/ddl_index_drop.go
+++ b/pkg/ddl/cockroachdb/ddl_index_drop.go
@@ -23,7 +23,7 @@ func (s *DropIndexStmt) GetNameForDiff() string {
 func (s *DropIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/cockroachdb/ddl_table_alter.go b/pkg/ddl/cockroachdb/ddl_table_alter.go
index 144d500..cd28d67 100644
--- a/pkg/ddl/cockroachdb/ddl_table_alter.go
+++ b/pkg/ddl/cockroachdb/ddl_table_alter.go
@@ -27,7 +27,7 @@ func (s *AlterTableStmt) GetNameForDiff() string {
 func (s *AlterTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/cockroachdb/ddl_table_create.go b/pkg/ddl/cockroachdb/ddl_table_create.go
index bb1847c..cc2b706 100644
--- a/pkg/ddl/cockroachdb/ddl_table_create.go
+++ b/pkg/ddl/cockroachdb/ddl_table_create.go
@@ -28,7 +28,7 @@ func (s *CreateTableStmt) GetNameForDiff() string {
 func (s *CreateTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/cockroachdb/ddl_table_drop.go b/pkg/ddl/cockroachdb/ddl_table_drop.go
index 882309b..858662d 100644
--- a/pkg/ddl/cockroachdb/ddl_table_drop.go
+++ b/pkg/ddl/cockroachdb/ddl_table_drop.go
@@ -23,7 +23,7 @@ func (s *DropTableStmt) GetNameForDiff() string {
 func (s *DropTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/mysql/ddl_index_create.go b/pkg/ddl/mysql/ddl_index_create.go
index 04f124d..91787c3 100644
--- a/pkg/ddl/mysql/ddl_index_create.go
+++ b/pkg/ddl/mysql/ddl_index_create.go
@@ -30,7 +30,7 @@ func (s *CreateIndexStmt) GetNameForDiff() string {
 func (s *CreateIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/mysql/ddl_index_drop.go b/pkg/ddl/mysql/ddl_index_drop.go
index 5bcc420..4b5a953 100644
--- a/pkg/ddl/mysql/ddl_index_drop.go
+++ b/pkg/ddl/mysql/ddl_index_drop.go
@@ -23,7 +23,7 @@ func (s *DropIndexStmt) GetNameForDiff() string {
 func (s *DropIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/mysql/ddl_table_alter.go b/pkg/ddl/mysql/ddl_table_alter.go
index cb648b0..2003aa1 100644
--- a/pkg/ddl/mysql/ddl_table_alter.go
+++ b/pkg/ddl/mysql/ddl_table_alter.go
@@ -28,7 +28,7 @@ func (s *AlterTableStmt) GetNameForDiff() string {
 func (s *AlterTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/mysql/ddl_table_create.go b/pkg/ddl/mysql/ddl_table_create.go
index 57ca772..5bf3c28 100644
--- a/pkg/ddl/mysql/ddl_table_create.go
+++ b/pkg/ddl/mysql/ddl_table_create.go
@@ -28,7 +28,7 @@ func (s *CreateTableStmt) GetNameForDiff() string {
 func (s *CreateTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/mysql/ddl_table_drop.go b/pkg/ddl/mysql/ddl_table_drop.go
index 7b07bb3..ebf3319 100644
--- a/pkg/ddl/mysql/ddl_table_drop.go
+++ b/pkg/ddl/mysql/ddl_table_drop.go
@@ -23,7 +23,7 @@ func (s *DropTableStmt) GetNameForDiff() string {
 func (s *DropTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index e36aeaa..b3695bf 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -29,7 +29,7 @@ func (s *CreateIndexStmt) GetNameForDiff() string {
 func (s *CreateIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/postgres/ddl_index_drop.go b/pkg/ddl/postgres/ddl_index_drop.go
index c386629..c8461e5 100644
--- a/pkg/ddl/postgres/ddl_index_drop.go
+++ b/pkg/ddl/postgres/ddl_index_drop.go
@@ -23,7 +23,7 @@ func (s *DropIndexStmt) GetNameForDiff() string {
 func (s *DropIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/postgres/ddl_table_alter.go b/pkg/ddl/postgres/ddl_table_alter.go
index c6ae02f..2fa5002 100644
--- a/pkg/ddl/postgres/ddl_table_alter.go
+++ b/pkg/ddl/postgres/ddl_table_alter.go
@@ -27,7 +27,7 @@ func (s *AlterTableStmt) GetNameForDiff() string {
 func (s *AlterTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/postgres/ddl_table_create.go b/pkg/ddl/postgres/ddl_table_create.go
index 3f9d63e..948b952 100644
--- a/pkg/ddl/postgres/ddl_table_create.go
+++ b/pkg/ddl/postgres/ddl_table_create.go
@@ -28,7 +28,7 @@ func (s *CreateTableStmt) GetNameForDiff() string {
 func (s *CreateTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/postgres/ddl_table_drop.go b/pkg/ddl/postgres/ddl_table_drop.go
index 68978ba..fb325a2 100644
--- a/pkg/ddl/postgres/ddl_table_drop.go
+++ b/pkg/ddl/postgres/ddl_table_drop.go
@@ -23,7 +23,7 @@ func (s *DropTableStmt) GetNameForDiff() string {
 func (s *DropTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/spanner/ddl_index_create.go b/pkg/ddl/spanner/ddl_index_create.go
index 22ec886..b41a226 100644
--- a/pkg/ddl/spanner/ddl_index_create.go
+++ b/pkg/ddl/spanner/ddl_index_create.go
@@ -29,7 +29,7 @@ func (s *CreateIndexStmt) GetNameForDiff() string {
 func (s *CreateIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/spanner/ddl_index_drop.go b/pkg/ddl/spanner/ddl_index_drop.go
index 8289901..3c53873 100644
--- a/pkg/ddl/spanner/ddl_index_drop.go
+++ b/pkg/ddl/spanner/ddl_index_drop.go
@@ -23,7 +23,7 @@ func (s *DropIndexStmt) GetNameForDiff() string {
 func (s *DropIndexStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/spanner/ddl_table_alter.go b/pkg/ddl/spanner/ddl_table_alter.go
index 90c568b..fe545d7 100644
--- a/pkg/ddl/spanner/ddl_table_alter.go
+++ b/pkg/ddl/spanner/ddl_table_alter.go
@@ -27,7 +27,7 @@ func (s *AlterTableStmt) GetNameForDiff() string {
 func (s *AlterTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/spanner/ddl_table_create.go b/pkg/ddl/spanner/ddl_table_create.go
index 5856a2b..f7d9f66 100644
--- a/pkg/ddl/spanner/ddl_table_create.go
+++ b/pkg/ddl/spanner/ddl_table_create.go
@@ -29,7 +29,7 @@ func (s *CreateTableStmt) GetNameForDiff() string {
 func (s *CreateTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
diff --git a/pkg/ddl/spanner/ddl_table_drop.go b/pkg/ddl/spanner/ddl_table_drop.go
index 1f979ae..9809ad5 100644
--- a/pkg/ddl/spanner/ddl_table_drop.go
+++ b/pkg/ddl/spanner/ddl_table_drop.go
@@ -23,7 +23,7 @@ func (s *DropTableStmt) GetNameForDiff() string {
 func (s *DropTableStmt) String() string {
 	var str string
 	if s.Comment != "" {
-		comments := strings.Split(s.Comment, "\n")
+		comments := strings.Split(strings.ReplaceAll(s.Comment, "\r", "\n"), "\n")
 		for i := range comments {
 			if comments[i] != "" {
 				str += CommentPrefix + comments[i] + "\n"
-- 
2.43.0


From 4dc1517a3665f8e07d25eb6dd41050ad2d517bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 25/92] fix: mysql, spanner: a string literal is not the
 identifier or keyword of the same spelling

---
 pkg/ddl/mysql/ddl.go         | 16 +++++++++++++++-
 pkg/ddl/mysql/ddl_table.go   |  6 +++---
 pkg/ddl/spanner/ddl.go       | 13 ++++++++++++-
 pkg/ddl/spanner/ddl_table.go |  4 ++--
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..f7980a3 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -1,6 +1,8 @@
 package mysql
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,18 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// exprStringForDiff keeps the quotes of a string literal, which is not the identifier or keyword of the same spelling.
+func (i *Ident) exprStringForDiff() string {
+	if i == nil || (i.QuotationMark != "'" && i.QuotationMark != `"`) || len(i.Raw) < 2 { //nolint:mnd
+		return i.StringForDiff()
+	}
+	if i.Name != "" && strings.Trim(i.Name, "-.0123456789") == "" {
+		return i.Name // MySQL shows DEFAULT 0 as DEFAULT '0'
+	}
+	content := strings.ReplaceAll(i.Raw[1:len(i.Raw)-1], i.QuotationMark+i.QuotationMark, i.QuotationMark)
+	return "'" + strings.ReplaceAll(content, "'", "''") + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
@@ -145,7 +159,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.exprStringForDiff()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index e31aaae..6a777ad 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -213,7 +213,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.exprStringForDiff()
 	}
 	return str
 }
@@ -337,7 +337,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.exprStringForDiff()
 		}
 		return str
 	}
@@ -395,7 +395,7 @@ func (o *Option) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.exprStringForDiff()
 	}
 	return o.Name + "=" + str
 }
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..ee93669 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,8 @@
 package spanner
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -79,6 +81,15 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// exprStringForDiff keeps the quotes of a string literal, which is not the identifier or keyword of the same spelling.
+func (i *Ident) exprStringForDiff() string {
+	if i == nil || (i.QuotationMark != "'" && i.QuotationMark != `"`) || len(i.Raw) < 2 { //nolint:mnd
+		return i.StringForDiff()
+	}
+	content := strings.ReplaceAll(i.Raw[1:len(i.Raw)-1], i.QuotationMark+i.QuotationMark, i.QuotationMark)
+	return "'" + strings.ReplaceAll(content, "'", "''") + "'"
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
@@ -141,7 +152,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += ident.exprStringForDiff()
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 578642c..1def09b 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -120,7 +120,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.exprStringForDiff()
 	}
 	return str
 }
@@ -261,7 +261,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.exprStringForDiff()
 		}
 		str += ")"
 		return str
-- 
2.43.0


From e1b7389eb772982877974e20727990a247ecd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 26/92] fix: postgres, cockroachdb: unquoted identifiers are
 folded before they are compared

---
 pkg/ddl/cockroachdb/parser.go | 7 ++++++-
 pkg/ddl/postgres/parser.go    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index f122774..0c512a0 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -32,8 +32,13 @@ func NewRawIdent(raw string) *Ident {
 		}
 	}
 
+	name := raw
+	if !strings.ContainsAny(raw, `'"`) {
+		name = strings.ToLower(raw) // unquoted identifiers are folded to lower case
+	}
+
 	return &Ident{
-		Name:          raw,
+		Name:          name,
 		QuotationMark: "",
 		Raw:           raw,
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index ff8b375..9ef207d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -32,8 +32,13 @@ func NewRawIdent(raw string) *Ident {
 		}
 	}
 
+	name := raw
+	if !strings.ContainsAny(raw, `'"`) {
+		name = strings.ToLower(raw) // unquoted identifiers are folded to lower case
+	}
+
 	return &Ident{
-		Name:          raw,
+		Name:          name,
 		QuotationMark: "",
 		Raw:           raw,
 	}
-- 
2.43.0


From 525613fbd37099168655be410eea833e8cfd56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 27/92] fix: reject a DEFAULT without value, a second DEFAULT,
 CREATE UNIQUE without INDEX and conflicting nullability instead of dropping
 them

---
 pkg/ddl/cockroachdb/parser.go | 13 +++++++++++++
 pkg/ddl/mysql/parser.go       | 10 ++++++++++
 pkg/ddl/postgres/parser.go    | 13 +++++++++++++
 pkg/ddl/spanner/parser.go     | 13 +++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 0c512a0..97055bf 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -256,6 +256,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
+		if err := p.checkPeekToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
 		p.nextToken() // current = INDEX
 	}
 
@@ -368,8 +371,14 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
 				}
 			case TOKEN_NULL:
+				if column.NotNull {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				column.NotNull = false
 			case TOKEN_DEFAULT:
+				if column.Default != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = DEFAULT
 				def, err := p.parseColumnDefault()
 				if err != nil {
@@ -451,6 +460,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 865a0c0..2534546 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -316,6 +316,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
+		if err := p.checkPeekToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
 		p.nextToken() // current = INDEX
 	}
 
@@ -415,6 +418,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 			case TOKEN_NULL:
 				column.NotNull = false
 			case TOKEN_DEFAULT:
+				if column.Default != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = default_value
 				def, err := p.parseColumnDefault()
 				if err != nil {
@@ -522,6 +528,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 9ef207d..299e53f 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -254,6 +254,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
+		if err := p.checkPeekToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
 		p.nextToken() // current = INDEX
 	}
 
@@ -351,8 +354,14 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				p.nextToken() // current = NULL
 				column.NotNull = true
 			case TOKEN_NULL:
+				if column.NotNull {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				column.NotNull = false
 			case TOKEN_DEFAULT:
+				if column.Default != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = DEFAULT
 				def, err := p.parseColumnDefault()
 				if err != nil {
@@ -426,6 +435,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index aabb134..d9b8512 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -386,6 +386,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
+		if err := p.checkPeekToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
 		p.nextToken() // current = INDEX
 	}
 
@@ -483,8 +486,14 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				p.nextToken() // current = NULL
 				column.NotNull = true
 			case TOKEN_NULL:
+				if column.NotNull {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				column.NotNull = false
 			case TOKEN_DEFAULT: // current = DEFAULT
+				if column.Default != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = value
 				def, err := p.parseColumnDefault()
 				if err != nil {
@@ -569,6 +578,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
-- 
2.43.0


From 141bf169425bcefa26cfe69eaeccd142e227021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 28/92] fix: reject a second primary key and a second ON of a
 mysql column instead of keeping the last one

---
 pkg/ddl/cockroachdb/parser.go | 20 ++++++++++++++++++++
 pkg/ddl/mysql/parser.go       | 23 +++++++++++++++++++++++
 pkg/ddl/postgres/parser.go    | 20 ++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 97055bf..097f030 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -63,6 +63,20 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+func isPrimaryKey(constraint Constraint) bool {
+	_, ok := constraint.(*PrimaryKeyConstraint)
+	return ok
+}
+
+func (constraints Constraints) hasPrimaryKey() bool {
+	for _, c := range constraints {
+		if isPrimaryKey(c) {
+			return true
+		}
+	}
+	return false
+}
+
 // appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
 func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
 	taken := func(name string) bool {
@@ -216,6 +230,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
+					if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(c) {
+						return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+					}
 					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
@@ -225,6 +242,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
+			if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(constraint) {
+				return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			if isDerived {
 				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
 			} else {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 2534546..7f52af2 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -57,6 +57,20 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+func isPrimaryKey(constraint Constraint) bool {
+	_, ok := constraint.(*PrimaryKeyConstraint)
+	return ok
+}
+
+func (constraints Constraints) hasPrimaryKey() bool {
+	for _, c := range constraints {
+		if isPrimaryKey(c) {
+			return true
+		}
+	}
+	return false
+}
+
 // appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
 func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
 	taken := func(name string) bool {
@@ -210,6 +224,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
+					if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(c) {
+						return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+					}
 					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
@@ -219,6 +236,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
+			if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(constraint) {
+				return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			if isDerived {
 				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
 			} else {
@@ -429,6 +449,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				column.Default = def
 				continue
 			case TOKEN_ON:
+				if column.OnAction != "" {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				column.OnAction = "ON"
 				p.nextToken() // current = UPDATE or DELETE
 				if err := p.checkCurrentToken(TOKEN_UPDATE, TOKEN_DELETE); err != nil {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 299e53f..9442895 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -63,6 +63,20 @@ func newDerivedIdent(name string) *Ident {
 	return NewRawIdent(name)
 }
 
+func isPrimaryKey(constraint Constraint) bool {
+	_, ok := constraint.(*PrimaryKeyConstraint)
+	return ok
+}
+
+func (constraints Constraints) hasPrimaryKey() bool {
+	for _, c := range constraints {
+		if isPrimaryKey(c) {
+			return true
+		}
+	}
+	return false
+}
+
 // appendDerived appends constraint, whose name is derived, giving the name a numeric suffix if it is already taken.
 func (constraints Constraints) appendDerived(constraint Constraint) Constraints {
 	taken := func(name string) bool {
@@ -216,6 +230,9 @@ LabelColumns:
 			createTableStmt.Columns = append(createTableStmt.Columns, column)
 			if len(constraints) > 0 {
 				for _, c := range constraints {
+					if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(c) {
+						return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+					}
 					createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(c)
 				}
 			}
@@ -225,6 +242,9 @@ LabelColumns:
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
+			if createTableStmt.Constraints.hasPrimaryKey() && isPrimaryKey(constraint) {
+				return nil, apperr.Errorf(errFmtPrefix+"multiple primary keys: currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			if isDerived {
 				createTableStmt.Constraints = createTableStmt.Constraints.appendDerived(constraint)
 			} else {
-- 
2.43.0


From 40808228d5c744bf3572ef53253b7cb4f6e0ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 29/92] fix: apply cuts statements at comment prefixes,
 semicolons and blank lines inside quoted text

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 19 ++----
 pkg/internal/util/remove_comment.go   | 34 -----------
 pkg/internal/util/split_statements.go | 84 +++++++++++++++++++++++++++
 3 files changed, 88 insertions(+), 49 deletions(-)
 delete mode 100644 pkg/internal/util/remove_comment.go
 create mode 100644 pkg/internal/util/split_statements.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..bea8861 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -118,7 +117,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, true, false),
 			func(err error) bool {
 				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
 			},
@@ -130,7 +129,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, false, false),
 			func(_ error) bool { return false }, // TODO: handle error
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
@@ -152,12 +151,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range util.SplitStatements("--", ddlStr, true, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -195,20 +189,15 @@ func splitExec(
 	db interface {
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
-	ddlStr string,
+	ddls []string,
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
deleted file mode 100644
index bcfb28e..0000000
--- a/pkg/internal/util/remove_comment.go
+++ /dev/null
@@ -1,34 +0,0 @@
-package util
-
-import (
-	"bufio"
-	"strings"
-)
-
-func RemoveCommentsAndEmptyLines(prefix, input string) string {
-	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
-
-	for scanner.Scan() {
-		line := scanner.Text()
-		trimmedLine := strings.TrimSpace(line)
-
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
-			continue
-		}
-
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
-	}
-
-	return result.String()
-}
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
new file mode 100644
index 0000000..4c66831
--- /dev/null
+++ b/pkg/internal/util/split_statements.go
@@ -0,0 +1,84 @@
+package util
+
+import (
+	"strings"
+)
+
+// SplitStatements splits input into its SQL statements (without the trailing semicolons) and drops the line comments.
+//
+// The text within quotes (string literals and quoted identifiers) is kept as it is, even if it contains semicolons, line breaks or the comment prefix.
+// If backslashEscapes is true, a backslash within a string literal escapes the next character, otherwise only within E'...'.
+// If tripleQuotes is true, three quotes delimit a string literal as well.
+func SplitStatements(commentPrefix, input string, backslashEscapes, tripleQuotes bool) []string {
+	var (
+		statements []string
+		statement  strings.Builder
+	)
+
+	flush := func() {
+		if s := strings.TrimSpace(statement.String()); s != "" {
+			statements = append(statements, s)
+		}
+		statement.Reset()
+	}
+
+	for i := 0; i < len(input); {
+		switch c := input[i]; {
+		case strings.HasPrefix(input[i:], commentPrefix):
+			if n := strings.IndexByte(input[i:], '\n'); n >= 0 {
+				i += n // keep the line break
+			} else {
+				i = len(input)
+			}
+		case c == ';':
+			flush()
+			i++
+		case c == '\'', c == '"', c == '`':
+			escapes := backslashEscapes
+			if !escapes && c == '\'' {
+				escapes = isEscapeStringPrefix(input[:i])
+			}
+			closing := string(c)
+			if triple := strings.Repeat(closing, 3); tripleQuotes && strings.HasPrefix(input[i:], triple) {
+				closing = triple
+			}
+			n := quotedLen(input[i:], closing, escapes && c != '`')
+			statement.WriteString(input[i : i+n])
+			i += n
+		default:
+			statement.WriteByte(c)
+			i++
+		}
+	}
+	flush()
+
+	return statements
+}
+
+// quotedLen returns the length of the quoted text at the beginning of s, including the quotes.
+func quotedLen(s, closing string, backslashEscapes bool) int {
+	for i := len(closing); i < len(s); {
+		switch {
+		case backslashEscapes && s[i] == '\\':
+			i += 2
+		case strings.HasPrefix(s[i:], closing):
+			return i + len(closing)
+		default:
+			i++
+		}
+	}
+
+	return len(s)
+}
+
+// isEscapeStringPrefix reports whether s ends with the prefix of an escape string constant such as E'...'.
+func isEscapeStringPrefix(s string) bool {
+	if s == "" || (s[len(s)-1] != 'E' && s[len(s)-1] != 'e') {
+		return false
+	}
+	if len(s) == 1 {
+		return true
+	}
+	c := s[len(s)-2]
+	return !(c == '_' || c == '$' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c >= 0x80)
+}
-- 
2.43.0


From 60bc051025812aa26d02552c5c4263ad40f2a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 30/92] fix: apply executes statements that have already
 succeeded again when it retries

---
 pkg/ddlctl/apply/ddlctl_apply.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index bea8861..1bc539e 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -196,7 +196,10 @@ func splitExec(
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
-		var outerErr error
+		var (
+			outerErr error
+			failed   []string
+		)
 		for _, q := range ddls {
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
@@ -206,6 +209,7 @@ func splitExec(
 
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
 				outerErr = err
+				failed = append(failed, q)
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
 					continue
@@ -216,6 +220,8 @@ func splitExec(
 			}
 		}
 		if outerErr != nil {
+			// retry only the failed DDLs. The others have already been executed;
+			ddls = failed
 			return outerErr
 		}
 		return nil
-- 
2.43.0


From 9e8650b6dd678fcbd4dde37bfcd3c3920fdb644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:39 +0000
Subject: [PATCH 31/92] fix: apply loses the error of closing the connection

---
 pkg/ddlctl/apply/ddlctl_apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 1bc539e..29ad026 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -92,7 +92,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
-- 
2.43.0


From 8275cb0b81b655ad14a9fabb05a3afd429d24c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:44 +0000
Subject: [PATCH 32/92] fix: apply uses the error text as a format string

---
 pkg/ddlctl/apply/ddlctl_apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 29ad026..49afe82 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -216,7 +216,7 @@ func splitExec(
 				}
 
 				// If the error is not one of the above, error and log. go to the next DDL;
-				logs.Warn.Printf(err.Error())
+				logs.Warn.Print(err.Error())
 			}
 		}
 		if outerErr != nil {
-- 
2.43.0


From 0fb947f3466753b235df9e62baed3e8ae8eeb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 33/92] fix: show of spanner prints the columns of all indexes
 of the table in each index

---
 pkg/show/spanner/show_create_all_tables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..b358530 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -128,8 +128,10 @@ INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
     i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
     i.TABLE_NAME = ? 
+    AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
 ORDER BY
@@ -268,7 +270,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
-- 
2.43.0


From 9dc7a2d61b8d3a8adc3715f5adc1fd46eabe1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:18 +0000
Subject: [PATCH 34/92] fix: show of spanner drops the DESC order of primary
 key and index columns

---
 pkg/show/spanner/show_create_all_tables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index b358530..df379be 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -239,6 +239,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -283,6 +286,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
 				d += idx.ColumnName
+				if idx.ColumnOrdering == "DESC" {
+					d += " DESC"
+				}
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From df95b789499321e582ee64dbc4b27d573e077cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:02 +0000
Subject: [PATCH 35/92] fix: diff of cockroachdb and mysql drops and recreates
 indexes the database shows inside the table

---
 pkg/ddl/cockroachdb/diff.go | 62 +++++++++++++++++++++++++++++++++++++
 pkg/ddl/mysql/diff.go       | 60 +++++++++++++++++++++++++++++++++++
 2 files changed, 122 insertions(+)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 3aafa0e..579c449 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -40,6 +40,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	// The same index may be declared in the CREATE TABLE statement on one side and by CREATE INDEX on the other side.
+	after = inlineIndexes(after, before)
+	before = inlineIndexes(before, after)
+
 	// DROP TABLE table_name;
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
@@ -127,3 +131,61 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+// inlineIndexes returns target with its CREATE INDEX statements whose index the other side declares in the CREATE TABLE statement
+// (as the database shows it) moved into its own CREATE TABLE statement. target itself is left as it is.
+func inlineIndexes(target, other *DDL) *DDL {
+	result := &DDL{Stmts: append([]Stmt(nil), target.Stmts...)}
+
+	for _, stmt := range target.Stmts {
+		indexStmt, ok := stmt.(*CreateIndexStmt)
+		if !ok || findStmtByTypeAndName(indexStmt, other.Stmts) != nil {
+			continue
+		}
+		constraint := &IndexConstraint{
+			Name:             indexStmt.Name,
+			Unique:           indexStmt.Unique,
+			UsingPreColumns:  indexStmt.UsingPreColumns,
+			Columns:          indexStmt.Columns,
+			UsingPostColumns: indexStmt.UsingPostColumns,
+		}
+		table := findTable(indexStmt.TableName, result.Stmts)
+		otherTable := findTable(indexStmt.TableName, other.Stmts)
+		if table == nil || findIndexConstraint(constraint, table) != nil || otherTable == nil || findIndexConstraint(constraint, otherTable) == nil {
+			continue
+		}
+
+		inlined := *table
+		inlined.Constraints = append(append(Constraints(nil), table.Constraints...), constraint)
+		stmts := make([]Stmt, 0, len(result.Stmts))
+		for _, s := range result.Stmts {
+			switch {
+			case s == Stmt(table):
+				stmts = append(stmts, &inlined)
+			case s != stmt:
+				stmts = append(stmts, s)
+			}
+		}
+		result.Stmts = stmts
+	}
+
+	return result
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && s.Name.StringForDiff() == name.StringForDiff() {
+			return s
+		}
+	}
+	return nil
+}
+
+func findIndexConstraint(index *IndexConstraint, table *CreateTableStmt) *IndexConstraint {
+	for _, constraint := range table.Constraints {
+		if c, ok := constraint.(*IndexConstraint); ok && c.Name.StringForDiff() == index.Name.StringForDiff() {
+			return c
+		}
+	}
+	return nil
+}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 1a60c79..58dea8d 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -40,6 +40,10 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
+	// The same index may be declared in the CREATE TABLE statement on one side and by CREATE INDEX on the other side.
+	after = inlineIndexes(after, before)
+	before = inlineIndexes(before, after)
+
 	// DROP TABLE table_name;
 	for _, stmt := range onlyLeftStmt(before, after) {
 		switch beforeStmt := stmt.(type) {
@@ -127,3 +131,59 @@ func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	}
 	return nil
 }
+
+// inlineIndexes returns target with its CREATE INDEX statements whose index the other side declares in the CREATE TABLE statement
+// (as the database shows it) moved into its own CREATE TABLE statement. target itself is left as it is.
+func inlineIndexes(target, other *DDL) *DDL {
+	result := &DDL{Stmts: append([]Stmt(nil), target.Stmts...)}
+
+	for _, stmt := range target.Stmts {
+		indexStmt, ok := stmt.(*CreateIndexStmt)
+		if !ok || findStmtByTypeAndName(indexStmt, other.Stmts) != nil {
+			continue
+		}
+		constraint := &IndexConstraint{
+			Name:    indexStmt.Name.Name,
+			Unique:  indexStmt.Unique,
+			Columns: indexStmt.Columns,
+		}
+		table := findTable(indexStmt.TableName, result.Stmts)
+		otherTable := findTable(indexStmt.TableName, other.Stmts)
+		if table == nil || findIndexConstraint(constraint, table) != nil || otherTable == nil || findIndexConstraint(constraint, otherTable) == nil {
+			continue
+		}
+
+		inlined := *table
+		inlined.Constraints = append(append(Constraints(nil), table.Constraints...), constraint)
+		stmts := make([]Stmt, 0, len(result.Stmts))
+		for _, s := range result.Stmts {
+			switch {
+			case s == Stmt(table):
+				stmts = append(stmts, &inlined)
+			case s != stmt:
+				stmts = append(stmts, s)
+			}
+		}
+		result.Stmts = stmts
+	}
+
+	return result
+}
+
+func findTable(name *ObjectName, stmts []Stmt) *CreateTableStmt {
+	for _, stmt := range stmts {
+		if s, ok := stmt.(*CreateTableStmt); ok && s.Name.StringForDiff() == name.StringForDiff() {
+			return s
+		}
+	}
+	return nil
+}
+
+func findIndexConstraint(index *IndexConstraint, table *CreateTableStmt) *IndexConstraint {
+	for _, constraint := range table.Constraints {
+		if c, ok := constraint.(*IndexConstraint); ok && c.Name.StringForDiff() == index.Name.StringForDiff() {
+			return c
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 6761f0d2d97b80aa06f9e1884592a2c4b70a2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:22 +0000
Subject: [PATCH 36/92] fix: show of spanner prints names without quotes

---
 pkg/show/spanner/show_create_all_tables.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index df379be..3729299 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -47,7 +47,7 @@ type informationSchemaColumn struct {
 }
 
 func (c *informationSchemaColumn) String() string {
-	d := fmt.Sprintf("%s %s", c.ColumnName, c.SpannerType)
+	d := fmt.Sprintf("`%s` %s", c.ColumnName, c.SpannerType)
 	if c.ColumnDefault != nil {
 		d += fmt.Sprintf(" DEFAULT (%s)", *c.ColumnDefault)
 	}
@@ -187,7 +187,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	tablesLastIndex := len(tables) - 1
 	for tblIdx, tbl := range tables {
 		// TABLE
-		d := fmt.Sprintf("CREATE TABLE %s (\n", tbl.TableName)
+		d := fmt.Sprintf("CREATE TABLE `%s` (\n", tbl.TableName)
 
 		columns := make([]*informationSchemaColumn, 0)
 		if err := dbz.QueryContext(ctx, &columns, queryShowCreateAllTables, tbl.TableName); err != nil {
@@ -238,7 +238,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += " PRIMARY KEY ("
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
-				d += pk.ColumnName
+				d += "`" + pk.ColumnName + "`"
 				if pk.ColumnOrdering == "DESC" {
 					d += " DESC"
 				}
@@ -281,11 +281,11 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			if indexName.IsUnique {
 				d += "UNIQUE "
 			}
-			d += fmt.Sprintf("INDEX %s ON %s (", indexName.IndexName, tbl.TableName)
+			d += fmt.Sprintf("INDEX `%s` ON `%s` (", indexName.IndexName, tbl.TableName)
 
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
-				d += idx.ColumnName
+				d += "`" + idx.ColumnName + "`"
 				if idx.ColumnOrdering == "DESC" {
 					d += " DESC"
 				}
-- 
2.43.0


From ab1b1de8bebc775a0d35de53d8544927b1879e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:05 +0000
Subject: [PATCH 37/92] fix: show of postgres prints names without quotes

---
 pkg/show/postgres/show_create_all_tables.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..6aa38ee 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -17,7 +17,7 @@ type sqlQueryerContext = interface {
 const (
 	formatShowCreateAllTables = `-- CREATE TABLE
 SELECT
-    'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\n' || '  ' ||
+    'CREATE TABLE ' || quote_ident(clmn.table_schema) || '.' || quote_ident(clmn.table_name) || ' (' || E'\n' || '  ' ||
     clmn.column_defs ||
     (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\n' || ');' AS create_statement
 FROM
@@ -27,7 +27,7 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
@@ -47,7 +47,7 @@ LEFT JOIN
             tc.table_schema,
             tc.table_name,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
+                'CONSTRAINT ' || quote_ident(tc.constraint_name) || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
                 (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
                 (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
                 ',' || E'\n' || '  '
@@ -61,7 +61,7 @@ LEFT JOIN
                     kcu.table_schema,
                     kcu.table_name,
                     kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
+                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
                 FROM
                     information_schema.key_column_usage kcu
                 GROUP BY
-- 
2.43.0


From dcd5d72baf6366115a1e5170f1a886b1b4c53b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 38/92] fix: show of postgres drops the precision and scale of
 numeric columns

---
 pkg/show/postgres/show_create_all_tables.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 6aa38ee..ccc9e2a 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -29,6 +29,7 @@ FROM
             string_agg(
                 quote_ident(c.column_name) || ' ' || c.data_type ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
+                (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
                 ',' || E'\n' || '  ' ORDER BY c.ordinal_position
-- 
2.43.0


From 282cc76361d367caef1f205a1163683183a5b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 39/92] fix: show prints the views of mysql, postgres and
 spanner as tables

---
 pkg/show/mysql/show_create_all_tables.go    | 2 +-
 pkg/show/postgres/show_create_all_tables.go | 2 ++
 pkg/show/spanner/show_create_all_tables.go  | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..6c1c942 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index ccc9e2a..589edbe 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -36,6 +36,8 @@ FROM
             ) AS column_defs
         FROM
             information_schema.columns c
+        JOIN
+            information_schema.tables t ON c.table_schema = t.table_schema AND c.table_name = t.table_name AND t.table_type = 'BASE TABLE'
         WHERE
             c.table_schema = '%s'
         GROUP BY
diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 3729299..28bf239 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -18,7 +18,7 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
-- 
2.43.0


From 5e4d7a6563c32ffccdf7e0210040fb3269b6fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:11 +0000
Subject: [PATCH 40/92] fix: show of postgres leaves out indexes that have the
 name of a check or foreign key constraint

---
 pkg/show/postgres/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 589edbe..f8bab74 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -104,7 +104,7 @@ WHERE
     schemaname = '%s' AND indexname NOT IN (
         SELECT constraint_name
         FROM information_schema.table_constraints
-        WHERE table_schema = '%s'
+        WHERE constraint_type IN ('PRIMARY KEY', 'UNIQUE') AND table_schema = '%s'
     )
 ;
 `
-- 
2.43.0


From e82eff279e250e2bad202a0aeacc1adf0590e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 41/92] fix: show of mysql fails on a table with a backtick in
 its name

---
 pkg/show/mysql/show_create_all_tables.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index 6c1c942..24c648e 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
+	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 
@@ -66,7 +67,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 	for _, tn := range *tableNames {
 		showCreateTable := new(ShowCreateTable)
-		showCreateTableQuery := fmt.Sprintf("SHOW CREATE TABLE `%s`", tn.TableName)
+		showCreateTableQuery := fmt.Sprintf("SHOW CREATE TABLE `%s`", strings.ReplaceAll(tn.TableName, "`", "``"))
 		if err := dbz.QueryContext(ctx, showCreateTable, showCreateTableQuery); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", showCreateTableQuery, err)
 		}
-- 
2.43.0


From 776b6a35cba49fef5d6e2a0e59fa349efe401b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 42/92] fix: show of mysql quotes the database option as a
 column name and shows tables of the current database

---
 pkg/show/mysql/show_create_all_tables.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index 24c648e..12d0e8e 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -3,7 +3,6 @@ package mysql
 import (
 	"context"
 	"database/sql"
-	"fmt"
 	"strings"
 
 	sqlz "github.com/kunitsucom/util.go/database/sql"
@@ -41,20 +40,20 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 		opt.apply(cfg)
 	}
 
-	databaseQuoted := func() string {
-		if cfg.database != "" {
-			return fmt.Sprintf("`%s`", cfg.database)
-		}
-		return "database()"
-	}()
+	quote := func(name string) string { return "`" + strings.ReplaceAll(name, "`", "``") + "`" }
+
+	databaseCondition, databasePrefix, args := "database()", "", []interface{}(nil)
+	if cfg.database != "" {
+		databaseCondition, databasePrefix, args = "?", quote(cfg.database)+".", []interface{}{cfg.database}
+	}
 
 	type TableName struct {
 		TableName string `db:"TABLE_NAME"`
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
-	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseCondition
+	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery, args...); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
 
@@ -67,7 +66,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 	for _, tn := range *tableNames {
 		showCreateTable := new(ShowCreateTable)
-		showCreateTableQuery := fmt.Sprintf("SHOW CREATE TABLE `%s`", strings.ReplaceAll(tn.TableName, "`", "``"))
+		showCreateTableQuery := "SHOW CREATE TABLE " + databasePrefix + quote(tn.TableName)
 		if err := dbz.QueryContext(ctx, showCreateTable, showCreateTableQuery); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", showCreateTableQuery, err)
 		}
-- 
2.43.0


From b815e7e3ce8d7c2a957debad6322f0d788b44ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:25 +0000
Subject: [PATCH 43/92] fix: show of spanner mixes tables of the same name in
 other schemas

---
 pkg/show/spanner/show_create_all_tables.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 28bf239..21a281a 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -35,7 +35,7 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 }
 
 const (
-	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
+	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
 
 type informationSchemaColumn struct {
@@ -58,7 +58,7 @@ func (c *informationSchemaColumn) String() string {
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ?;`
 )
 
 type informationSchemaColumnOption struct {
@@ -84,9 +84,11 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ?
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
     AND i.INDEX_TYPE = "PRIMARY_KEY"
     AND ic.INDEX_TYPE = "PRIMARY_KEY"
 ORDER BY
@@ -106,7 +108,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
 )
 
 type informationSchemaIndexName struct {
@@ -127,10 +129,12 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
     AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
-    i.TABLE_NAME = ? 
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ? 
     AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
-- 
2.43.0


From e0fb6ec6188352d88de495cff589b534715055cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:30 +0000
Subject: [PATCH 44/92] fix: postgres rejects TIMESTAMP WITHOUT TIME ZONE,
 which is how show prints TIMESTAMP columns

---
 pkg/ddl/postgres/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 9442895..47d6b23 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -428,6 +428,8 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
+		case TOKEN_WITH, TOKEN_TIME, TOKEN_ZONE: // NOTE: ::TIMESTAMP WITH TIME ZONE //diff:ignore-line-postgres-cockroach
+			def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str)) //diff:ignore-line-postgres-cockroach
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
@@ -748,8 +750,10 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE  //diff:ignore-line-postgres-cockroach
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
-		if p.isPeekToken(TOKEN_WITH) {
-			p.nextToken() // current = WITH
+		// NOTE: TIMESTAMP WITHOUT TIME ZONE is how the database itself spells TIMESTAMP.
+		without := p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT") //diff:ignore-line-postgres-cockroach
+		if p.isPeekToken(TOKEN_WITH) || without {                                                      //diff:ignore-line-postgres-cockroach
+			p.nextToken() // current = WITH or WITHOUT
 			dataType.Name += " " + p.currentToken.Literal.String()
 			if err := p.checkPeekToken(TOKEN_TIME); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -762,6 +766,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			p.nextToken() // current = ZONE
 			dataType.Name += " " + p.currentToken.Literal.String()
 			dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE //diff:ignore-line-postgres-cockroach
+			if without {                                   //diff:ignore-line-postgres-cockroach
+				dataType.Type = TOKEN_TIMESTAMP //diff:ignore-line-postgres-cockroach
+			} //diff:ignore-line-postgres-cockroach
 		} else {
 			dataType.Type = TOKEN_TIMESTAMP
 		}
-- 
2.43.0


From 394a0e9cb4b969521ae76025f5051f686ea03013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 45/92] fix: diff reports synonymous numeric types as a
 difference

---
 pkg/ddl/cockroachdb/parser.go | 6 ++++++
 pkg/ddl/mysql/parser.go       | 6 ++++++
 pkg/ddl/postgres/parser.go    | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 097f030..7d36a3a 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -896,6 +896,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_VARCHAR //diff:ignore-line-postgres-cockroach
+	case TOKEN_NUMERIC: // NOTE: NUMERIC is a synonym for DECIMAL. //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_DECIMAL                   //diff:ignore-line-postgres-cockroach
+	case TOKEN_REAL: // NOTE: REAL is a synonym for FLOAT4. //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_FLOAT4                    //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7f52af2..8302c82 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -866,6 +866,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	case TOKEN_ENUM:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = TOKEN_ENUM
+	case TOKEN_NUMERIC: // NOTE: NUMERIC is a synonym for DECIMAL.
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL
+	case TOKEN_REAL: // NOTE: REAL is a synonym for DOUBLE.
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DOUBLE
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 47d6b23..6cc2ed6 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -791,6 +791,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	case TOKEN_VARYING: //diff:ignore-line-postgres-cockroach
 		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
 		dataType.Type = TOKEN_CHARACTER_VARYING         //diff:ignore-line-postgres-cockroach
+	case TOKEN_DECIMAL: // NOTE: DECIMAL is a synonym for NUMERIC. //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_NUMERIC                   //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From e5464b630718c76af47c56aa3ac20577c1c3dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 46/92] fix: postgres and cockroachdb reject qualified names
 with quoted parts, which is how show prints them

---
 pkg/ddl/cockroachdb/ddl_table.go | 12 ++++++++++++
 pkg/ddl/cockroachdb/lexar.go     | 28 ++++++++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    | 27 +++++++++++++++++++++++++++
 pkg/ddl/postgres/ddl_table.go    | 12 ++++++++++++
 pkg/ddl/postgres/lexar.go        | 28 ++++++++++++++++++++++++++++
 pkg/ddl/postgres/parser.go       | 27 +++++++++++++++++++++++++++
 6 files changed, 134 insertions(+)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 5262902..0134daf 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -235,6 +235,13 @@ func NewObjectName(name string) *ObjectName {
 
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
+	if parts := splitQualifiedName(name); len(parts) == hasSchema {
+		// CREATE TABLE "schema"."table"
+		objName.Schema = NewRawIdent(parts[0])
+		objName.Name = NewRawIdent(parts[1])
+		objName.separated = true
+		return objName
+	}
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
@@ -251,12 +258,17 @@ func NewObjectName(name string) *ObjectName {
 type ObjectName struct {
 	Schema *Ident
 	Name   *Ident
+
+	separated bool // the parts are quoted on their own
 }
 
 func (t *ObjectName) String() string {
 	if t == nil {
 		return ""
 	}
+	if t.Schema != nil && t.separated {
+		return t.Schema.String() + "." + t.Name.String()
+	}
 	if t.Schema != nil {
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index b50acff..b71b054 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -328,6 +328,10 @@ func (l *Lexer) NextToken() Token {
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
+		if strings.HasPrefix(literal, `"`) && l.peekChar() == '.' {
+			l.readChar() // current = .
+			return l.readQualifiedName(literal)
+		}
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: literal}
 	case '|':
@@ -379,6 +383,9 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if strings.HasSuffix(lit, ".") && l.ch == '"' {
+				return l.readQualifiedName(lit)
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -410,6 +417,27 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	return l.input[position : l.position+1], true
 }
 
+// readQualifiedName は schema."table" や "schema"."table" のような修飾名の prefix に続く部分を読み込みます。
+func (l *Lexer) readQualifiedName(prefix string) Token {
+	name := prefix
+	for isLiteral(l.ch) || l.ch == '"' && strings.HasSuffix(name, ".") {
+		if l.ch != '"' {
+			name += l.readIdentifier()
+			continue
+		}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		name += literal
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: name}}
+		}
+		l.readChar()
+		if l.ch != '.' {
+			break
+		}
+	}
+	return Token{Type: TOKEN_IDENT, Literal: Literal{Str: name}}
+}
+
 // isEOF は入力の終端に達しているかどうかを返します。
 func (l *Lexer) isEOF() bool {
 	return l.position >= len(l.input)
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 7d36a3a..be1e56a 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -22,6 +22,13 @@ import (
 var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
+	if parts := splitQualifiedName(raw); len(parts) > 1 {
+		for i, part := range parts {
+			parts[i] = NewRawIdent(part).Name
+		}
+		return &Ident{Name: strings.Join(parts, "."), QuotationMark: "", Raw: raw}
+	}
+
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
@@ -44,6 +51,26 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// splitQualifiedName splits a name whose parts are quoted on their own, such as schema."table" and "schema"."table".
+func splitQualifiedName(raw string) []string {
+	if strings.HasPrefix(raw, `'`) || !strings.Contains(raw, `".`) && !strings.Contains(raw, `."`) {
+		return []string{raw}
+	}
+	parts, start, quoted := []string{}, 0, false
+	for i := range raw {
+		switch raw[i] {
+		case '"':
+			quoted = !quoted
+		case '.':
+			if !quoted {
+				parts = append(parts, raw[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(parts, raw[start:])
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index c81dfd2..d7d7fd3 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -204,6 +204,13 @@ func NewObjectName(name string) *ObjectName {
 
 	tableName := NewRawIdent(name)
 	const hasSchema = 2
+	if parts := splitQualifiedName(name); len(parts) == hasSchema {
+		// CREATE TABLE "schema"."table"
+		objName.Schema = NewRawIdent(parts[0])
+		objName.Name = NewRawIdent(parts[1])
+		objName.separated = true
+		return objName
+	}
 	switch name := strings.Split(tableName.Name, "."); len(name) { //nolint:exhaustive
 	case hasSchema:
 		// CREATE TABLE "schema.table"
@@ -220,12 +227,17 @@ func NewObjectName(name string) *ObjectName {
 type ObjectName struct {
 	Schema *Ident
 	Name   *Ident
+
+	separated bool // the parts are quoted on their own
 }
 
 func (t *ObjectName) String() string {
 	if t == nil {
 		return ""
 	}
+	if t.Schema != nil && t.separated {
+		return t.Schema.String() + "." + t.Name.String()
+	}
 	if t.Schema != nil {
 		return t.Name.QuotationMark + t.Schema.StringForDiff() + "." + t.Name.StringForDiff() + t.Name.QuotationMark
 	}
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index c2420c8..2178b23 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -307,6 +307,10 @@ func (l *Lexer) NextToken() Token {
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
+		if strings.HasPrefix(literal, `"`) && l.peekChar() == '.' {
+			l.readChar() // current = .
+			return l.readQualifiedName(literal)
+		}
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: literal}
 	case '|':
@@ -353,6 +357,9 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if strings.HasSuffix(lit, ".") && l.ch == '"' {
+				return l.readQualifiedName(lit)
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -384,6 +391,27 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 	return l.input[position : l.position+1], true
 }
 
+// readQualifiedName は schema."table" や "schema"."table" のような修飾名の prefix に続く部分を読み込みます。
+func (l *Lexer) readQualifiedName(prefix string) Token {
+	name := prefix
+	for isLiteral(l.ch) || l.ch == '"' && strings.HasSuffix(name, ".") {
+		if l.ch != '"' {
+			name += l.readIdentifier()
+			continue
+		}
+		literal, ok := l.readQuotedLiteral(l.ch)
+		name += literal
+		if !ok {
+			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: name}}
+		}
+		l.readChar()
+		if l.ch != '.' {
+			break
+		}
+	}
+	return Token{Type: TOKEN_IDENT, Literal: Literal{Str: name}}
+}
+
 // isEOF は入力の終端に達しているかどうかを返します。
 func (l *Lexer) isEOF() bool {
 	return l.position >= len(l.input)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 6cc2ed6..593eb8d 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -22,6 +22,13 @@ import (
 var quotationMarks = []string{`"`}
 
 func NewRawIdent(raw string) *Ident {
+	if parts := splitQualifiedName(raw); len(parts) > 1 {
+		for i, part := range parts {
+			parts[i] = NewRawIdent(part).Name
+		}
+		return &Ident{Name: strings.Join(parts, "."), QuotationMark: "", Raw: raw}
+	}
+
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
@@ -44,6 +51,26 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+// splitQualifiedName splits a name whose parts are quoted on their own, such as schema."table" and "schema"."table".
+func splitQualifiedName(raw string) []string {
+	if strings.HasPrefix(raw, `'`) || !strings.Contains(raw, `".`) && !strings.Contains(raw, `."`) {
+		return []string{raw}
+	}
+	parts, start, quoted := []string{}, 0, false
+	for i := range raw {
+		switch raw[i] {
+		case '"':
+			quoted = !quoted
+		case '.':
+			if !quoted {
+				parts = append(parts, raw[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(parts, raw[start:])
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
-- 
2.43.0


From 3c770bb2f9d4efe87177e37421f2a34f3f7a5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:41 +0000
Subject: [PATCH 47/92] fix: show of postgres prints foreign keys without the
 table and columns they reference

---
 pkg/show/postgres/show_create_all_tables.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index f8bab74..0686fae 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -51,8 +51,9 @@ LEFT JOIN
             tc.table_name,
             string_agg(
                 'CONSTRAINT ' || quote_ident(tc.constraint_name) || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
+                (CASE WHEN kcu.ref_column_names IS NOT NULL THEN ' REFERENCES ' || kcu.ref_table_name || ' (' || kcu.ref_column_names || ')' ELSE '' END) ||
+                (CASE WHEN rc.update_rule <> 'NO ACTION' THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
+                (CASE WHEN rc.delete_rule <> 'NO ACTION' THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
                 ',' || E'\n' || '  '
             ) AS constraint_defs
         FROM
@@ -64,14 +65,20 @@ LEFT JOIN
                     kcu.table_schema,
                     kcu.table_name,
                     kcu.constraint_name,
-                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
+                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names,
+                    MAX(quote_ident(ref.table_schema) || '.' || quote_ident(ref.table_name)) AS ref_table_name,
+                    string_agg(quote_ident(ref.column_name), ', ' ORDER BY kcu.ordinal_position) AS ref_column_names
                 FROM
                     information_schema.key_column_usage kcu
+                LEFT JOIN
+                    information_schema.referential_constraints rc ON kcu.position_in_unique_constraint IS NOT NULL AND kcu.constraint_schema = rc.constraint_schema AND kcu.constraint_name = rc.constraint_name
+                LEFT JOIN
+                    information_schema.key_column_usage ref ON rc.unique_constraint_schema = ref.constraint_schema AND rc.unique_constraint_name = ref.constraint_name AND kcu.position_in_unique_constraint = ref.ordinal_position
                 GROUP BY
                     kcu.table_schema, kcu.table_name, kcu.constraint_name
             ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
         LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            information_schema.referential_constraints rc ON tc.constraint_type = 'FOREIGN KEY' AND tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name
         WHERE
             tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
         GROUP BY
-- 
2.43.0


From d032a356f75b6ca61ba83537a58e9a2fdb693777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 48/92] fix: show of spanner leaves out INTERLEAVE IN PARENT,
 so that diff recreates interleaved tables

---
 pkg/show/spanner/show_create_all_tables.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index 21a281a..4125a56 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -34,6 +34,15 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 	RowDeletionPolicyExpression string `db:"ROW_DELETION_POLICY_EXPRESSION"`
 }
 
+const (
+	querySelectTableInterleave = `SELECT PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND PARENT_TABLE_NAME != '';`
+)
+
+type informationSchemaTableInterleave struct {
+	ParentTableName string  `db:"PARENT_TABLE_NAME"`
+	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
+}
+
 const (
 	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
@@ -253,6 +262,18 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += ")"
 		}
 
+		tableInterleaves := make([]*informationSchemaTableInterleave, 0)
+		if err := dbz.QueryContext(ctx, &tableInterleaves, querySelectTableInterleave, tbl.TableName); err != nil {
+			return "", apperr.Errorf("dbz.QueryContext: %w", err)
+		}
+
+		for _, interleave := range tableInterleaves {
+			d += fmt.Sprintf(",\nINTERLEAVE IN PARENT `%s`", interleave.ParentTableName)
+			if interleave.OnDeleteAction != nil && *interleave.OnDeleteAction == "CASCADE" {
+				d += " ON DELETE CASCADE"
+			}
+		}
+
 		tableOptionRowDeletionPolicy := make([]*informationSchemaTableOptionRowDeletionPolicy, 0)
 		if err := dbz.QueryContext(ctx, &tableOptionRowDeletionPolicy, querySelectTableOptionRowDeletionPolicy, tbl.TableName); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
-- 
2.43.0


From 5feb52cb3122fd86cce38de12e8290e9c89896bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 49/92] fix: spanner recreates interleaved tables when one
 schema spells out ON DELETE NO ACTION

---
 pkg/ddl/spanner/ddl_table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 1def09b..14baf97 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -303,6 +303,10 @@ func (o *Option) StringForDiff() string {
 		return ""
 	}
 	value := o.Value
+	if last := len(value.Idents) - 1; o.Name == "INTERLEAVE IN PARENT" && strings.EqualFold(value.Idents[last].Raw, "ON DELETE NO ACTION") {
+		// NO ACTION is the default action
+		value = &Expr{Idents: value.Idents[:last]}
+	}
 	if o.Name == "PRIMARY KEY" {
 		// ASC is the default order
 		value = &Expr{}
-- 
2.43.0


From 03f75d9fdb0776fec7c4157c30294c8625af437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 50/92] fix: mysql recreates foreign keys whose actions are
 written in another order

---
 pkg/ddl/mysql/ddl_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 6a777ad..6847b32 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -134,7 +134,12 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + strings.ToUpper(c.OnAction)
+		onAction := strings.ToUpper(c.OnAction)
+		if i := strings.Index(onAction, " ON DELETE "); i >= 0 {
+			// the order of the actions has no meaning
+			onAction = onAction[i+1:] + " " + onAction[:i]
+		}
+		str += " " + onAction
 	}
 	return str
 }
-- 
2.43.0


From 4ca5e8b6ee7879b07a7e9d4fc49848e9b2ebec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:52 +0000
Subject: [PATCH 51/92] fix: reject a second CHARACTER SET, COLLATE or AS of a
 column instead of keeping the last one

---
 pkg/ddl/cockroachdb/parser.go | 3 +++
 pkg/ddl/mysql/parser.go       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index be1e56a..5d07597 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -434,6 +434,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				column.Default = def
 				continue
 			case TOKEN_AS:
+				if column.As != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = AS
 				as, err := p.parseColumnAs()
 				if err != nil {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 8302c82..7db2975 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -466,6 +466,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 				}
 			case TOKEN_CHARACTER:
+				if column.CharacterSet != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = SET
 				if err := p.checkCurrentToken(TOKEN_SET); err != nil {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
@@ -473,6 +476,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				p.nextToken() // current = charset_value
 				column.CharacterSet = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_COLLATE:
+				if column.Collate != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+				}
 				p.nextToken() // current = collate_value
 				column.Collate = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_AUTO_INCREMENT:
-- 
2.43.0


From aeff65868e2dbadfc0445e274fb5cf3a0b2682d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:00 +0000
Subject: [PATCH 52/92] fix: reject a constraint name before an index, a second
 USING or WITH and AS without an expression instead of dropping them

---
 pkg/ddl/cockroachdb/parser.go | 12 ++++++++++++
 pkg/ddl/mysql/parser.go       |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 5d07597..7f393ab 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -534,6 +534,9 @@ LabelAs:
 			as.Value = as.Value.Append(ids...)
 			continue
 		case TOKEN_STORED, TOKEN_VIRTUAL:
+			if as.Value == nil || as.Type != "" {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			as.Type = typ
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelAs
@@ -573,6 +576,9 @@ LabelAs:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_USING:
+			if using.Value != nil {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			p.nextToken() // current = using_def
 			continue
 		case TOKEN_IDENT:
@@ -583,6 +589,9 @@ LabelAs:
 			if err != nil {
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
+			if using.With != nil {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+			}
 			using.With = &With{&Expr{with}}
 			continue
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_OPEN_PAREN, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
@@ -833,6 +842,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}, nil
 
 	case TOKEN_UNIQUE, TOKEN_INDEX: //diff:ignore-line-postgres-cockroach
+		if constraintName != nil { // an index has no other name than its own
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
 		c := &IndexConstraint{}             //diff:ignore-line-postgres-cockroach
 		if p.isCurrentToken(TOKEN_UNIQUE) { //diff:ignore-line-postgres-cockroach
 			c.Unique = true                                       //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7db2975..57988b1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -787,6 +787,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}, nil
 
 	case TOKEN_UNIQUE, TOKEN_INDEX, TOKEN_KEY:
+		if constraintName != nil && !p.isCurrentToken(TOKEN_UNIQUE) { // an index has no other name than its own
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		}
 		c := &IndexConstraint{}
 		if p.isCurrentToken(TOKEN_UNIQUE) {
 			c.Unique = true
-- 
2.43.0


From 68154a50a594ddfcedd8ac4b0f1fb588c45a4039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:58 +0000
Subject: [PATCH 53/92] fix: generate panics on struct fields without a tag and
 on embedded fields

---
 pkg/internal/lang/go/parse.go | 44 +++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..1464f7e 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -159,16 +159,16 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			for _, field := range r.StructType.Fields.List {
 				column := &generator.CreateTableColumn{}
 
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+				tag := structTag(field)
 
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
 				case "-":
-					createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo()))
+					createTableStmt.Comments = append(createTableStmt.Comments, fmt.Sprintf("NOTE: the \"%s\" struct's \"%s\" field has a tag for column name (`%s:\"-\"`), so the field is ignored.", r.TypeSpec.Name, fieldName(field), config.ColumnTagGo()))
 					continue
 				case "":
-					name := field.Names[0].Name
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, field.Names[0], config.ColumnTagGo(), name))
+					name := fieldName(field)
+					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the \"%s\" struct's \"%s\" field does not have a tag for column name (`%s:\"<ColumnName>\"`), so the field name \"%s\" is used as the column name.", r.TypeSpec.Name, name, config.ColumnTagGo(), name))
 					column.ColumnName = name
 				default:
 					column.ColumnName = columnName
@@ -192,7 +192,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				case "", "-":
 					// do nothing
 				default:
-					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", field.Names[0], config.PKTagGo()))
+					column.Comments = append(column.Comments, fmt.Sprintf("WARN: the field \"%s\" does not have valid primary key tag (`%s:\"true\"`), so the column is not used as primary key.", fieldName(field), config.PKTagGo()))
 				}
 
 				// comments
@@ -232,6 +232,40 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// structTag returns the tag of the field. It is empty if the field has no tag.
+func structTag(field *ast.Field) reflect.StructTag {
+	if field.Tag == nil {
+		return ""
+	}
+
+	return reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+}
+
+// fieldName returns the name of the field. The name of an embedded field is the name of its type.
+func fieldName(field *ast.Field) string {
+	if len(field.Names) > 0 {
+		return field.Names[0].Name
+	}
+
+	expr := field.Type
+	for {
+		switch t := expr.(type) {
+		case *ast.StarExpr:
+			expr = t.X
+		case *ast.IndexExpr:
+			expr = t.X
+		case *ast.IndexListExpr:
+			expr = t.X
+		case *ast.SelectorExpr:
+			return t.Sel.Name
+		case *ast.Ident:
+			return t.Name
+		default:
+			return ""
+		}
+	}
+}
+
 func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, sub string) *ast.Comment {
 	for _, commentLine := range commentGroup.List {
 		if strings.Contains(commentLine.Text, sub) {
-- 
2.43.0


From 6cef3b46af201116ea06b4af958c4532dd2b91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 54/92] fix: generate ignores struct tags that are written as
 interpreted string literals

---
 pkg/internal/lang/go/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 1464f7e..bbd7f84 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -238,7 +239,12 @@ func structTag(field *ast.Field) reflect.StructTag {
 		return ""
 	}
 
-	return reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+
+	return reflect.StructTag(tag)
 }
 
 // fieldName returns the name of the field. The name of an embedded field is the name of its type.
-- 
2.43.0


From f7783c3713f741e427d00efe9f10bc2a83832e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 55/92] fix: generate takes prose and the annotations of other
 tags for its own

---
 pkg/internal/lang/go/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index bbd7f84..205f552 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -118,6 +118,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			// NOTE: only the annotations of the configured tag are for us, other comment lines are kept as they are
+			if !DDLTagGoCommentLineRegex().MatchString(comment) {
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-- 
2.43.0


From 79f0b630162f0126c403c5924357d08a528b9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:58 +0000
Subject: [PATCH 56/92] fix: generate prints the second and following lines of
 a block comment as statements and does not read the annotations in it

---
 pkg/internal/lang/go/extract_source.go | 41 ++++++++++++++++++++++++--
 pkg/internal/lang/go/parse.go          | 10 ++-----
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..23a3d0e 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,7 +6,9 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"strings"
 	"sync"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 
@@ -53,12 +55,12 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 	for commentedNode, commentGroups := range ast.NewCommentMap(fset, f, f.Comments) {
 		for _, commentGroup := range commentGroups {
 		CommentGroupLoop:
-			for _, commentLine := range commentGroup.List {
+			for _, commentLine := range commentLines(fset, commentGroup) {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
 				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
 					s := &ddlSource{
-						Position:     fset.Position(commentLine.Pos()),
+						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
 					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
@@ -88,3 +90,38 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 
 	return ddlSrc, nil
 }
+
+type commentLine struct {
+	Text     string
+	Position token.Position
+}
+
+// commentLines returns the lines of the comment group without the comment markers. A block comment has a line for each of its lines.
+func commentLines(fset *token.FileSet, commentGroup *ast.CommentGroup) []commentLine {
+	lines := make([]commentLine, 0, len(commentGroup.List))
+
+	for _, comment := range commentGroup.List {
+		position := fset.Position(comment.Pos())
+
+		if !strings.HasPrefix(comment.Text, "/*") {
+			lines = append(lines, commentLine{
+				Text:     strings.TrimLeftFunc(strings.TrimPrefix(comment.Text, "//"), unicode.IsSpace),
+				Position: position,
+			})
+			continue
+		}
+
+		block := strings.Split(strings.TrimSuffix(strings.TrimPrefix(comment.Text, "/*"), "*/"), "\n")
+		for i, line := range block {
+			line = strings.TrimSpace(line)
+			if isEdge := i == 0 || i == len(block)-1; isEdge && line == "" {
+				continue // NOTE: the line has nothing but the comment marker
+			}
+			linePosition := position
+			linePosition.Line += i
+			lines = append(lines, commentLine{Text: line, Position: linePosition})
+		}
+	}
+
+	return lines
+}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 205f552..d4ed2a0 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -13,10 +13,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -112,10 +110,8 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
-		for _, comment := range comments {
+		for _, line := range commentLines(fset, r.CommentGroup) {
+			comment := line.Text
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
 			// NOTE: only the annotations of the configured tag are for us, other comment lines are kept as they are
@@ -127,7 +123,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-				source := fset.Position(extractContainingCommentFromCommentGroup(r.CommentGroup, commentMatchedCreateIndex).Pos())
+				source := line.Position
 				createIndexStmt := &generator.CreateIndexStmt{
 					Comments:   []string{commentMatchedCreateIndex},
 					SourceFile: source.Filename,
-- 
2.43.0


From 4a44ad8d74382ee9afa2440832faee6c88a1b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:58 +0000
Subject: [PATCH 57/92] fix: generate drops the first word of an annotation
 that repeats the kind of the annotation

---
 pkg/internal/lang/util/regex.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/internal/lang/util/regex.go b/pkg/internal/lang/util/regex.go
index 435e85d..a9598c7 100644
--- a/pkg/internal/lang/util/regex.go
+++ b/pkg/internal/lang/util/regex.go
@@ -10,19 +10,19 @@ type StmtRegex struct {
 //nolint:gochecknoglobals
 var (
 	StmtRegexCreateTable = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*table(s)?\s*[: ]\s*((CREATE\s+TABLE\s+)?\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*table(s)?\s*[: ]\s*((CREATE\s+TABLE\s+)?\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is CREATE TABLE name
 	}
 	StmtRegexCreateTableConstraint = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*constraint(s)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*constraint(s)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is CONSTRAINT
 	}
 	StmtRegexCreateTableOptions = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*option(s)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*option(s)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is OPTION
 	}
 	StmtRegexCreateIndex = StmtRegex{
-		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?\S+\s*:\s*index(es)?\s*[: ]\s*(\S+.*)`),
+		Regex: regexp.MustCompile(`^\s*(//+\s*|/\*\s*)?[^\s:]+\s*:\s*index(es)?\s*[: ]\s*(\S+.*)`),
 		Index: 3, //nolint:mnd // Index 3 is INDEX name
 	}
 )
-- 
2.43.0


From a53d920e145484395e176c9a0c4fb3b57e301102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:03 +0000
Subject: [PATCH 58/92] fix: generate makes a second table of the struct next
 to a standalone index annotation

---
 pkg/internal/lang/go/extract_source.go | 3 +++
 pkg/internal/lang/go/parse.go          | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 23a3d0e..1a93857 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -24,6 +24,8 @@ type ddlSource struct {
 	// StructType is used to determine the column name. If the tag specified by --go-column-tag is not found, the field name is used.
 	StructType   *ast.StructType
 	CommentGroup *ast.CommentGroup
+	// IsDoc is true if the comment group is directly above the node that it is associated with.
+	IsDoc bool
 }
 
 //nolint:gochecknoglobals
@@ -62,6 +64,7 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 					s := &ddlSource{
 						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
+						IsDoc:        fset.Position(commentGroup.End()).Line+1 == fset.Position(commentedNode.Pos()).Line,
 					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
 						switch n := node.(type) {
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index d4ed2a0..d70a3a4 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -110,6 +110,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
+		hasCreateIndex := false
 		for _, line := range commentLines(fset, r.CommentGroup) {
 			comment := line.Text
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
@@ -131,6 +132,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 				}
 				createIndexStmt.SetCreateIndex(matches[langutil.StmtRegexCreateIndex.Index])
 				stmts = append(stmts, createIndexStmt)
+				hasCreateIndex = true
 				continue
 			}
 
@@ -149,6 +151,11 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			createTableStmt.Comments = append(createTableStmt.Comments, comment)
 		}
 
+		// NOTE: only CREATE INDEX is annotated apart from the struct, so the struct next to it is not a table of this comment
+		if hasTable := createTableStmt.CreateTable != "" || len(createTableStmt.Constraints) > 0 || len(createTableStmt.Options) > 0; hasCreateIndex && !hasTable && !r.IsDoc {
+			continue
+		}
+
 		// CREATE TABLE (default: struct name)
 		if r.TypeSpec != nil && createTableStmt.CreateTable == "" {
 			name := r.TypeSpec.Name.String()
-- 
2.43.0


From c419c34a02643fc19fba36f666b9a25fe33abe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 59/92] fix: generate drops all but the first column of fields
 that share a type and a tag

---
 pkg/internal/lang/go/parse.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index d70a3a4..8897195 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -166,7 +166,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range splitFields(r.StructType.Fields.List) {
 				column := &generator.CreateTableColumn{}
 
 				tag := structTag(field)
@@ -242,6 +242,26 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// splitFields returns the fields with a field for each name of `A, B string`, as long as the tag does not name the column itself.
+func splitFields(list []*ast.Field) []*ast.Field {
+	fields := make([]*ast.Field, 0, len(list))
+
+	for _, field := range list {
+		if len(field.Names) <= 1 || structTag(field).Get(config.ColumnTagGo()) != "" {
+			fields = append(fields, field)
+			continue
+		}
+
+		for _, name := range field.Names {
+			split := *field
+			split.Names = []*ast.Ident{name}
+			fields = append(fields, &split)
+		}
+	}
+
+	return fields
+}
+
 // structTag returns the tag of the field. It is empty if the field has no tag.
 func structTag(field *ast.Field) reflect.StructTag {
 	if field.Tag == nil {
-- 
2.43.0


From 7a9cfde747280002cbe624d1c2cd02c1e9bc805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:08 +0000
Subject: [PATCH 60/92] fix: generate takes the tag for a regular expression

---
 pkg/internal/lang/go/extract_source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 1a93857..8641983 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -44,7 +44,7 @@ const (
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, config.DDLTagGo()))
+		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(config.DDLTagGo())))
 	})
 	return _DDLTagGoCommentLineRegex
 }
-- 
2.43.0


From 3c10fd1a0ce5430ee28c37d00dee02c72476d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:43 +0000
Subject: [PATCH 61/92] fix: generate and show panic when arguments are missing

---
 pkg/apperr/errors.go                   | 1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 4 ++++
 pkg/ddlctl/show/ddlctl_show.go         | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..7c8a458 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -22,6 +22,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) < 2 { //nolint:mnd
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..509d4c8 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) < 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From 94c46a6668f5c4b68e75425db13c32ae3079df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 62/92] fix: generate empties the destination file when it
 fails

---
 pkg/ddlctl/generate/ddlctl_generate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index 7c8a458..fbb9ac0 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -40,14 +41,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// NOTE: generate before the destination is opened (and truncated), so that it is left as it is if the source is invalid
+	var buf bytes.Buffer
+	if err := Generate(ctx, &buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, buf.Bytes(), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From dbc9930c1dc56952cb92e558612ad1e00721eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:49 +0000
Subject: [PATCH 63/92] fix: an unknown command exits with status 0

---
 pkg/apperr/errors.go | 1 +
 pkg/ddlctl/ddlctl.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index 0a59680..23c3c0f 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -12,6 +12,7 @@ var (
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
 	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
+	ErrUnknownCommand                     = errors.New("unknown command")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
 )
diff --git a/pkg/ddlctl/ddlctl.go b/pkg/ddlctl/ddlctl.go
index 657c4f7..9de0dd6 100644
--- a/pkg/ddlctl/ddlctl.go
+++ b/pkg/ddlctl/ddlctl.go
@@ -126,13 +126,16 @@ func DDLCtl(ctx context.Context) error {
 				Default:     cliz.Default(false),
 			},
 		},
-		RunFunc: func(ctx context.Context, _ []string) error {
+		RunFunc: func(ctx context.Context, args []string) error {
 			cmd, err := cliz.FromContext(ctx)
 			if err != nil {
 				return apperr.Errorf("cliz.FromContext: %w", err)
 			}
 
 			cmd.ShowUsage()
+			if len(args) > 0 {
+				return apperr.Errorf("args=%v: %w", args, apperr.ErrUnknownCommand)
+			}
 			return cliz.ErrHelp
 		},
 	}
-- 
2.43.0


From cb49d262a178f75c81e15f4a4be986b081ef56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:23 +0000
Subject: [PATCH 64/92] fix: mysql: table options separated by commas, as
 generate writes them, are not read

---
 pkg/ddl/mysql/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 57988b1..6ff706a 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -325,6 +325,10 @@ LabelTableOptions:
 		}
 		createTableStmt.Options = append(createTableStmt.Options, opt)
 		p.nextToken()
+		// NOTE: table options may be separated by commas
+		if p.isCurrentToken(TOKEN_COMMA) && !p.isPeekToken(TOKEN_SEMICOLON, TOKEN_EOF) {
+			p.nextToken()
+		}
 	}
 
 	return createTableStmt, nil
-- 
2.43.0


From e665557935faf508a9b74ce2ac99b5431b8a1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:26 +0000
Subject: [PATCH 65/92] fix: generate prints annotations that share a line in a
 random order

---
 pkg/internal/lang/go/extract_source.go | 4 ++++
 pkg/internal/lang/go/parse.go          | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 8641983..e4f6d72 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"unicode"
@@ -87,6 +88,9 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 		}
 	}
 
+	// NOTE: the comment map has no order
+	sort.SliceStable(ddlSrc, func(i, j int) bool { return ddlSrc[i].CommentGroup.Pos() < ddlSrc[j].CommentGroup.Pos() })
+
 	if len(ddlSrc) == 0 {
 		return nil, apperr.Errorf("go-ddl-tag=%s: %w", config.DDLTagGo(), apperr.ErrDDLTagGoAnnotationNotFoundInSource)
 	}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 8897195..c12d2ac 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -231,7 +231,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
+	sort.SliceStable(stmts, func(i, j int) bool {
 		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
 	})
 
-- 
2.43.0


From a71bb1d4acb22405d26b798157a9c2e35f11d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:29 +0000
Subject: [PATCH 66/92] fix: generate takes a block comment with carriage
 returns above a struct for a standalone annotation

---
 pkg/internal/lang/go/extract_source.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index e4f6d72..1e29d54 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -65,7 +65,7 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 					s := &ddlSource{
 						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
-						IsDoc:        fset.Position(commentGroup.End()).Line+1 == fset.Position(commentedNode.Pos()).Line,
+						IsDoc:        isDoc(commentGroup, commentedNode),
 					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
 						switch n := node.(type) {
@@ -98,6 +98,18 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 	return ddlSrc, nil
 }
 
+// isDoc returns true if the comment group is directly above the node.
+func isDoc(commentGroup *ast.CommentGroup, node ast.Node) bool {
+	switch n := node.(type) {
+	case *ast.GenDecl:
+		return n.Doc == commentGroup
+	case *ast.TypeSpec:
+		return n.Doc == commentGroup
+	default:
+		return false
+	}
+}
+
 type commentLine struct {
 	Text     string
 	Position token.Position
-- 
2.43.0


From 65715789bb798f0cb39fc6ece1ac462127dbcc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 67/92] fix: generate and show ignore arguments that are too
 many, so that generate may overwrite a source

---
 pkg/ddlctl/generate/ddlctl_generate.go | 3 ++-
 pkg/ddlctl/show/ddlctl_show.go         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index fbb9ac0..44fe410 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -23,7 +23,8 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
-	if len(args) < 2 { //nolint:mnd
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
 		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
 	}
 
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 509d4c8..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,7 +26,7 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
-	if len(args) < 1 {
+	if len(args) != 1 {
 		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
 	}
 
-- 
2.43.0


From a85a403d60d691812d0cfed7b16e7810547ae2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 68/92] fix: cockroachdb reads a table that ends with a
 semicolon before it is closed

---
 pkg/ddl/cockroachdb/parser.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 7f393ab..9a940ad 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -280,8 +280,6 @@ LabelColumns:
 		case p.isCurrentToken(TOKEN_COMMA):
 			p.nextToken()
 			continue
-		case p.isCurrentToken(TOKEN_SEMICOLON):
-			break LabelColumns
 		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
 			switch p.peekToken.Type { //nolint:exhaustive
 			case TOKEN_SEMICOLON, TOKEN_EOF:
-- 
2.43.0


From ae2e70610fb56b9ce3f005b351cb19c2d1cd44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:35 +0000
Subject: [PATCH 69/92] fix: generate panics when the DDL tag is not valid
 UTF-8

---
 pkg/internal/lang/go/extract_source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 1e29d54..c4d0dd6 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -45,7 +45,7 @@ const (
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(config.DDLTagGo())))
+		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(strings.ToValidUTF8(config.DDLTagGo(), "\uFFFD"))))
 	})
 	return _DDLTagGoCommentLineRegex
 }
-- 
2.43.0


From c08cd52070acc99d642a3f19041904d715676173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:02 +0000
Subject: [PATCH 70/92] fix: foreign keys are recreated when one schema spells
 out the default NO ACTION

---
 pkg/ddl/cockroachdb/diff_create_table.go | 17 ++++++++++++++++-
 pkg/ddl/mysql/diff_create_table.go       | 16 +++++++++++++++-
 pkg/ddl/postgres/diff_create_table.go    | 17 ++++++++++++++++-
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index dbaf276..2c5c13e 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -2,6 +2,8 @@ package cockroachdb
 
 import (
 	"reflect"
+	"regexp"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -33,6 +35,19 @@ func (o *diffCreateTableConfigUseConstraintNotValid) apply(c *DiffCreateTableCon
 	c.UseAlterTableAddConstraintNotValid = o.useAlterTableAddConstraintNotValid
 }
 
+var regexNoAction = regexp.MustCompile(`(?i) ?\bON (?:DELETE|UPDATE) NO ACTION\b`)
+
+// constraintForDiff returns the text by which a constraint is compared: for a FOREIGN KEY, NO ACTION is the default action.
+func constraintForDiff(c Constraint) string {
+	fk, ok := c.(*ForeignKeyConstraint)
+	if !ok {
+		return c.StringForDiff()
+	}
+	compared := *fk
+	compared.OnAction = strings.TrimSpace(regexNoAction.ReplaceAllString(fk.OnAction, ""))
+	return compared.StringForDiff()
+}
+
 //nolint:funlen,cyclop
 func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOption) (*DDL, error) {
 	config := &DiffCreateTableConfig{}
@@ -105,7 +120,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 67f706a..562b60b 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"reflect"
+	"regexp"
 	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
@@ -33,6 +34,19 @@ func (o *diffCreateTableConfigUseConstraintNotValid) apply(c *DiffCreateTableCon
 	c.UseAlterTableAddConstraintNotValid = o.useAlterTableAddConstraintNotValid
 }
 
+var regexNoAction = regexp.MustCompile(`(?i) ?\bON (?:DELETE|UPDATE) NO ACTION\b`)
+
+// constraintForDiff returns the text by which a constraint is compared: for a FOREIGN KEY, NO ACTION is the default action.
+func constraintForDiff(c Constraint) string {
+	fk, ok := c.(*ForeignKeyConstraint)
+	if !ok {
+		return c.StringForDiff()
+	}
+	compared := *fk
+	compared.OnAction = strings.TrimSpace(regexNoAction.ReplaceAllString(fk.OnAction, ""))
+	return compared.StringForDiff()
+}
+
 //nolint:funlen,cyclop,gocognit
 func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOption) (*DDL, error) {
 	config := &DiffCreateTableConfig{}
@@ -108,7 +122,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) {
 				case *IndexConstraint:
 					// DROP INDEX index_name;
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index f1a5a94..46c3a57 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -2,6 +2,8 @@ package postgres
 
 import (
 	"reflect"
+	"regexp"
+	"strings"
 
 	"github.com/kunitsucom/util.go/exp/diff/simplediff"
 
@@ -32,6 +34,19 @@ func (o *diffCreateTableConfigUseConstraintNotValid) apply(c *DiffCreateTableCon
 	c.UseAlterTableAddConstraintNotValid = o.useAlterTableAddConstraintNotValid
 }
 
+var regexNoAction = regexp.MustCompile(`(?i) ?\bON (?:DELETE|UPDATE) NO ACTION\b`)
+
+// constraintForDiff returns the text by which a constraint is compared: for a FOREIGN KEY, NO ACTION is the default action.
+func constraintForDiff(c Constraint) string {
+	fk, ok := c.(*ForeignKeyConstraint)
+	if !ok {
+		return c.StringForDiff()
+	}
+	compared := *fk
+	compared.OnAction = strings.TrimSpace(regexNoAction.ReplaceAllString(fk.OnAction, ""))
+	return compared.StringForDiff()
+}
+
 //nolint:funlen,cyclop
 func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOption) (*DDL, error) {
 	config := &DiffCreateTableConfig{}
@@ -95,7 +110,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
 		if afterConstraint != nil {
-			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
+			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
 				result.Stmts = append(
-- 
2.43.0


From df0fda6ea38686ede6a799545215f4a7a9d5ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:02 +0000
Subject: [PATCH 71/92] fix: NOT VALID is written after constraints that cannot
 be NOT VALID

---
 pkg/ddl/cockroachdb/ddl_table_alter.go | 12 +++++++++++-
 pkg/ddl/postgres/ddl_table_alter.go    | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table_alter.go b/pkg/ddl/cockroachdb/ddl_table_alter.go
index cd28d67..03ae0d3 100644
--- a/pkg/ddl/cockroachdb/ddl_table_alter.go
+++ b/pkg/ddl/cockroachdb/ddl_table_alter.go
@@ -60,7 +60,7 @@ func (s *AlterTableStmt) String() string {
 		str += "ALTER COLUMN " + a.Name.String() + " DROP NOT NULL"
 	case *AddConstraint:
 		str += "ADD " + a.Constraint.String()
-		if a.NotValid {
+		if a.NotValid && canBeNotValid(a.Constraint) {
 			str += " NOT VALID"
 		}
 	case *DropConstraint:
@@ -193,6 +193,16 @@ func (*AddConstraint) isAlterTableAction() {}
 
 func (s *AddConstraint) GoString() string { return internal.GoString(*s) }
 
+// canBeNotValid reports whether the database accepts NOT VALID for the constraint: only for FOREIGN KEY and CHECK.
+func canBeNotValid(c Constraint) bool {
+	switch c.(type) {
+	case *ForeignKeyConstraint, *CheckConstraint:
+		return true
+	default:
+		return false
+	}
+}
+
 // DropConstraint represents ALTER TABLE table_name DROP CONSTRAINT.
 type DropConstraint struct {
 	Name *Ident
diff --git a/pkg/ddl/postgres/ddl_table_alter.go b/pkg/ddl/postgres/ddl_table_alter.go
index 2fa5002..bd41667 100644
--- a/pkg/ddl/postgres/ddl_table_alter.go
+++ b/pkg/ddl/postgres/ddl_table_alter.go
@@ -60,7 +60,7 @@ func (s *AlterTableStmt) String() string {
 		str += "ALTER COLUMN " + a.Name.String() + " DROP NOT NULL"
 	case *AddConstraint:
 		str += "ADD " + a.Constraint.String()
-		if a.NotValid {
+		if a.NotValid && canBeNotValid(a.Constraint) {
 			str += " NOT VALID"
 		}
 	case *DropConstraint:
@@ -193,6 +193,16 @@ func (*AddConstraint) isAlterTableAction() {}
 
 func (s *AddConstraint) GoString() string { return internal.GoString(*s) }
 
+// canBeNotValid reports whether the database accepts NOT VALID for the constraint: only for FOREIGN KEY and CHECK.
+func canBeNotValid(c Constraint) bool {
+	switch c.(type) {
+	case *ForeignKeyConstraint, *CheckConstraint:
+		return true
+	default:
+		return false
+	}
+}
+
 // DropConstraint represents ALTER TABLE table_name DROP CONSTRAINT.
 type DropConstraint struct {
 	Name *Ident
-- 
2.43.0


From bc0ddf3a6b1ce34f9e09b24e79147ef091261e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:42 +0000
Subject: [PATCH 72/92] fix: spanner does not tell a string in column options
 from the keyword of the same spelling

---
 pkg/ddl/spanner/ddl_table.go         | 14 ++++++++++++++
 pkg/ddl/spanner/diff_create_table.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 14baf97..5756c5d 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -239,6 +239,20 @@ func (d *Expr) StringForDiff() string {
 	return str
 }
 
+// valuesForDiff is StringForDiff with string literals told apart from the keywords of the same spelling.
+func (d *Expr) valuesForDiff() string {
+	if d == nil {
+		return ""
+	}
+
+	values := make([]string, len(d.Idents))
+	for i, v := range d.Idents {
+		values[i] = v.exprStringForDiff()
+	}
+
+	return strings.Join(values, " ")
+}
+
 func (d *Default) GoString() string { return internal.GoString(*d) }
 
 func (d *Default) String() string {
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index f62f87d..eea6a2e 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -240,7 +240,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case afterColumn.Options != nil && beforeColumn.Options.StringForDiff() != afterColumn.Options.StringForDiff():
+		case afterColumn.Options != nil && beforeColumn.Options.valuesForDiff() != afterColumn.Options.valuesForDiff():
 			// ALTER TABLE table_name ALTER COLUMN column_name SET OPTIONS (option_name = option_value);
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
-- 
2.43.0


From 1b9eb0d334f356da1a0eeaaa595d646d67601988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:49 +0000
Subject: [PATCH 73/92] fix: a directory given as a symbolic link is read as an
 empty schema

---
 pkg/internal/lang/go/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index c12d2ac..5558c15 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -42,7 +42,8 @@ func Parse(ctx context.Context, src string) (*generator.DDL, error) {
 	ddl := generator.NewDDL(ctx)
 
 	if info.IsDir() {
-		if err := filepath.WalkDir(sourceAbs, walkDirFn(ctx, ddl)); err != nil {
+		// NOTE: the separator makes WalkDir follow sourceAbs itself if it is a symbolic link to a directory
+		if err := filepath.WalkDir(sourceAbs+string(filepath.Separator), walkDirFn(ctx, ddl)); err != nil {
 			return nil, apperr.Errorf("filepath.WalkDir: %w", err)
 		}
 
-- 
2.43.0


From f0c2bd9c7370f5a11f834dba9d0be320c932c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 74/92] fix: millions of consecutive comment lines overflow the
 stack

---
 pkg/ddl/cockroachdb/lexar.go | 4 ++--
 pkg/ddl/mysql/lexar.go       | 4 ++--
 pkg/ddl/postgres/lexar.go    | 4 ++--
 pkg/ddl/spanner/lexar.go     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index b71b054..e07a647 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -317,9 +317,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 331bf6f..ab18ac9 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -340,9 +340,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 2178b23..387c59d 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -296,9 +296,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index e202a9f..a44cad7 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -296,9 +296,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
-- 
2.43.0


From da2cd4f6329e5e95b2e910304278d1387a4434a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:56 +0000
Subject: [PATCH 75/92] fix: deeply nested parentheses overflow the stack

---
 pkg/ddl/cockroachdb/parser.go | 16 ++++++++--------
 pkg/ddl/mysql/parser.go       | 16 ++++++++--------
 pkg/ddl/postgres/parser.go    | 16 ++++++++--------
 pkg/ddl/spanner/parser.go     | 16 ++++++++--------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 9a940ad..4c31dd1 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -614,20 +614,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // NOTE: nested parentheses are counted, as deep as they may be
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
+			depth++
 		case TOKEN_CLOSE_PAREN:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			depth--
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 6ff706a..f60bb78 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -578,20 +578,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // NOTE: nested parentheses are counted, as deep as they may be
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
+			depth++
 		case TOKEN_CLOSE_PAREN:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			depth--
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 593eb8d..d4c3502 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -501,20 +501,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // NOTE: nested parentheses are counted, as deep as they may be
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
+			depth++
 		case TOKEN_CLOSE_PAREN:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			depth--
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index d9b8512..0b81746 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,20 +595,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // NOTE: nested parentheses are counted, as deep as they may be
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
+			depth++
 		case TOKEN_CLOSE_PAREN:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			depth--
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
-- 
2.43.0


From d6b16fb2b284f0591bdf8cbd60873a6e83ffa2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:06 +0000
Subject: [PATCH 76/92] fix: names that begin or end with a quotation mark are
 taken for the names without it

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/mysql/parser.go       | 4 ++--
 pkg/ddl/postgres/parser.go    | 4 ++--
 pkg/ddl/spanner/parser.go     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 4c31dd1..81e353c 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -30,9 +30,9 @@ func NewRawIdent(raw string) *Ident {
 	}
 
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) > len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index f60bb78..68754da 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -22,9 +22,9 @@ var quotationMarks = []string{`"`, "`", "'"}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) > len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d4c3502..7fb7cac 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -30,9 +30,9 @@ func NewRawIdent(raw string) *Ident {
 	}
 
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) > len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 0b81746..5ed6755 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -22,9 +22,9 @@ var quotationMarks = []string{`"`, "`", "'"}
 
 func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
-		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
+		if len(raw) > len(q) && strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          raw[len(q) : len(raw)-len(q)],
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From 52ad860730991f38b0526c13216a81383ecae7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 77/92] fix: quotation marks in column names are not escaped in
 the generated DDL

---
 pkg/internal/generator/dialect/mysql/create_table.go    | 4 ++--
 pkg/internal/generator/dialect/mysql/mysql.go           | 6 ++++++
 pkg/internal/generator/dialect/postgres/create_table.go | 4 ++--
 pkg/internal/generator/dialect/postgres/postgres.go     | 6 ++++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/internal/generator/dialect/mysql/create_table.go b/pkg/internal/generator/dialect/mysql/create_table.go
index 1aa70ad..3056c8a 100644
--- a/pkg/internal/generator/dialect/mysql/create_table.go
+++ b/pkg/internal/generator/dialect/mysql/create_table.go
@@ -36,7 +36,7 @@ func fprintCreateTable(buf *string, indent string, stmt *ddlast.CreateTableStmt)
 		if len(stmt.PrimaryKey) > 0 {
 			*buf += indent + "PRIMARY KEY ("
 			for i, primaryKey := range stmt.PrimaryKey {
-				*buf += Quotation + primaryKey + Quotation
+				*buf += quote(primaryKey)
 				if lastPrimaryKeyIndex := len(stmt.PrimaryKey) - 1; i != lastPrimaryKeyIndex {
 					*buf += ", "
 				}
@@ -90,7 +90,7 @@ func fprintCreateTableColumn(buf *string, indent string, columns []*ddlast.Creat
 			fprintComment(buf, indent, comment)
 		}
 
-		*buf += indent + fmt.Sprintf(columnNameFormat, Quotation+column.ColumnName+Quotation) + " " + column.TypeConstraint
+		*buf += indent + fmt.Sprintf(columnNameFormat, quote(column.ColumnName)) + " " + column.TypeConstraint
 
 		if lastColumn := len(columns) - 1; i == lastColumn && !tailComma {
 			*buf += "\n"
diff --git a/pkg/internal/generator/dialect/mysql/mysql.go b/pkg/internal/generator/dialect/mysql/mysql.go
index 8ac5ee0..d9cbffe 100644
--- a/pkg/internal/generator/dialect/mysql/mysql.go
+++ b/pkg/internal/generator/dialect/mysql/mysql.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"io"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	ddlast "github.com/kunitsucom/ddlctl/pkg/internal/generator"
@@ -40,6 +41,11 @@ func Fprint(w io.Writer, ddl *ddlast.DDL) error {
 	return nil
 }
 
+// quote quotes a name, in which quotation marks are doubled.
+func quote(name string) string {
+	return Quotation + strings.ReplaceAll(name, Quotation, Quotation+Quotation) + Quotation
+}
+
 func fprintComment(buf *string, indent string, comment string) {
 	if comment == "" {
 		*buf += indent + CommentPrefix + "\n"
diff --git a/pkg/internal/generator/dialect/postgres/create_table.go b/pkg/internal/generator/dialect/postgres/create_table.go
index dd6c279..902222c 100644
--- a/pkg/internal/generator/dialect/postgres/create_table.go
+++ b/pkg/internal/generator/dialect/postgres/create_table.go
@@ -36,7 +36,7 @@ func fprintCreateTable(buf *string, indent string, stmt *ddlast.CreateTableStmt)
 		if len(stmt.PrimaryKey) > 0 {
 			*buf += indent + "PRIMARY KEY ("
 			for i, primaryKey := range stmt.PrimaryKey {
-				*buf += Quotation + primaryKey + Quotation
+				*buf += quote(primaryKey)
 				if lastPrimaryKeyIndex := len(stmt.PrimaryKey) - 1; i != lastPrimaryKeyIndex {
 					*buf += ", "
 				}
@@ -90,7 +90,7 @@ func fprintCreateTableColumn(buf *string, indent string, columns []*ddlast.Creat
 			fprintComment(buf, indent, comment)
 		}
 
-		*buf += indent + fmt.Sprintf(columnNameFormat, Quotation+column.ColumnName+Quotation) + " " + column.TypeConstraint
+		*buf += indent + fmt.Sprintf(columnNameFormat, quote(column.ColumnName)) + " " + column.TypeConstraint
 
 		if lastColumn := len(columns) - 1; i == lastColumn && !tailComma {
 			*buf += "\n"
diff --git a/pkg/internal/generator/dialect/postgres/postgres.go b/pkg/internal/generator/dialect/postgres/postgres.go
index b6a0428..a955aa0 100644
--- a/pkg/internal/generator/dialect/postgres/postgres.go
+++ b/pkg/internal/generator/dialect/postgres/postgres.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"io"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	ddlast "github.com/kunitsucom/ddlctl/pkg/internal/generator"
@@ -40,6 +41,11 @@ func Fprint(w io.Writer, ddl *ddlast.DDL) error {
 	return nil
 }
 
+// quote quotes a name, in which quotation marks are doubled.
+func quote(name string) string {
+	return Quotation + strings.ReplaceAll(name, Quotation, Quotation+Quotation) + Quotation
+}
+
 func fprintComment(buf *string, indent string, comment string) {
 	if comment == "" {
 		*buf += indent + CommentPrefix + "\n"
-- 
2.43.0


From ae1eb923a06d4cf9ba8d4e6091cdb4a373ecea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 78/92] fix: mysql: require a value after COLLATE, CHARACTER
 SET and COMMENT

---
 pkg/ddl/mysql/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 68754da..8790152 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -478,12 +478,18 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 				}
 				p.nextToken() // current = charset_value
+				if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+				}
 				column.CharacterSet = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_COLLATE:
 				if column.Collate != nil {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 				}
 				p.nextToken() // current = collate_value
+				if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+				}
 				column.Collate = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_AUTO_INCREMENT:
 				column.AutoIncrement = true
@@ -506,6 +512,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 
 		if p.isCurrentToken(TOKEN_COMMENT) {
 			p.nextToken() // current = comment_value
+			if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+				return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+			}
 			column.Comment = p.currentToken.Literal.String()
 			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
-- 
2.43.0


From e406136c45dd6182c56b20b75a977014646fe9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:03 +0000
Subject: [PATCH 79/92] fix: postgres, cockroachdb: require ACTION after ON
 DELETE/UPDATE NO of a table constraint

---
 pkg/ddl/cockroachdb/parser.go | 7 +++++--
 pkg/ddl/postgres/parser.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 81e353c..f0d4fc2 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -817,8 +817,11 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
 			p.nextToken() // current = any
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7fb7cac..c53b84f 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -703,8 +703,11 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
 			p.nextToken() // current = any
-- 
2.43.0


From 5d73e72ef2ca856d2d22c76c59dffbbb23c73cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:59 +0000
Subject: [PATCH 80/92] fix: postgres, cockroachdb: keep the case of quoted
 names in derived constraint names

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index f0d4fc2..52ad2f9 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -83,7 +83,7 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 func newDerivedIdent(name string) *Ident {
 	const quotationMark = `"`
 	for i, r := range name {
-		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+		if unicode.IsUpper(r) || r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
 			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
 		}
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c53b84f..86ee264 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -83,7 +83,7 @@ func NewIdent(name, quotationMark, raw string) *Ident {
 func newDerivedIdent(name string) *Ident {
 	const quotationMark = `"`
 	for i, r := range name {
-		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
+		if unicode.IsUpper(r) || r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
 			return NewIdent(name, quotationMark, quotationMark+name+quotationMark)
 		}
 	}
-- 
2.43.0


From a00dc007ec2c073559452547e7e10e0345e38fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 81/92] fix: mysql, cockroachdb: an index of the same name on
 another table is another index

---
 pkg/ddl/cockroachdb/diff.go | 12 +++++++++++-
 pkg/ddl/mysql/diff.go       | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 579c449..a44a42b 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -125,13 +125,23 @@ func onlyLeftStmt(left, right *DDL) []Stmt {
 
 func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	for _, s := range stmts {
-		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() {
+		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() && onSameTable(stmt, s) {
 			return s
 		}
 	}
 	return nil
 }
 
+// onSameTable reports whether two statements of the same type and name are about the same object: an index name is scoped to its table.
+func onSameTable(left, right Stmt) bool {
+	leftIndex, ok := left.(*CreateIndexStmt)
+	if !ok {
+		return true
+	}
+	rightIndex, ok := right.(*CreateIndexStmt)
+	return ok && leftIndex.TableName.StringForDiff() == rightIndex.TableName.StringForDiff()
+}
+
 // inlineIndexes returns target with its CREATE INDEX statements whose index the other side declares in the CREATE TABLE statement
 // (as the database shows it) moved into its own CREATE TABLE statement. target itself is left as it is.
 func inlineIndexes(target, other *DDL) *DDL {
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 58dea8d..15c4180 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -125,13 +125,23 @@ func onlyLeftStmt(left, right *DDL) []Stmt {
 
 func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
 	for _, s := range stmts {
-		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() {
+		if reflect.TypeOf(stmt) == reflect.TypeOf(s) && stmt.GetNameForDiff() == s.GetNameForDiff() && onSameTable(stmt, s) {
 			return s
 		}
 	}
 	return nil
 }
 
+// onSameTable reports whether two statements of the same type and name are about the same object: an index name is scoped to its table.
+func onSameTable(left, right Stmt) bool {
+	leftIndex, ok := left.(*CreateIndexStmt)
+	if !ok {
+		return true
+	}
+	rightIndex, ok := right.(*CreateIndexStmt)
+	return ok && leftIndex.TableName.StringForDiff() == rightIndex.TableName.StringForDiff()
+}
+
 // inlineIndexes returns target with its CREATE INDEX statements whose index the other side declares in the CREATE TABLE statement
 // (as the database shows it) moved into its own CREATE TABLE statement. target itself is left as it is.
 func inlineIndexes(target, other *DDL) *DDL {
-- 
2.43.0


From 64072ec2310590fa479c9826bdc62b8fcc7da0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:17 +0000
Subject: [PATCH 82/92] fix: mysql, cockroachdb: an index and another
 constraint of the same name are dropped and created as what they are

---
 pkg/ddl/cockroachdb/diff_create_table.go | 16 +++++++++++++---
 pkg/ddl/mysql/diff_create_table.go       | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 2c5c13e..9c08c91 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -92,7 +92,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	}
 
 	for _, beforeConstraint := range before.Constraints {
-		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
+		afterConstraint := findSameConstraint(beforeConstraint, after.Constraints)
 		if afterConstraint == nil {
 			switch bc := beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
 			case *IndexConstraint: //diff:ignore-line-postgres-cockroach
@@ -118,7 +118,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	config.diffCreateTableColumn(result, before, after)
 
 	for _, beforeConstraint := range before.Constraints {
-		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
+		afterConstraint := findSameConstraint(beforeConstraint, after.Constraints)
 		if afterConstraint != nil {
 			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) { //diff:ignore-line-postgres-cockroach
@@ -312,7 +312,7 @@ func findColumnByName(name string, columns []*Column) *Column {
 func onlyLeftConstraint(left, right Constraints) []Constraint {
 	onlyLeftConstraints := make(Constraints, 0)
 	for _, leftConstraint := range left {
-		foundConstraintByRight := findConstraintByName(leftConstraint.GetName().Name, right)
+		foundConstraintByRight := findSameConstraint(leftConstraint, right)
 		if foundConstraintByRight == nil {
 			onlyLeftConstraints = onlyLeftConstraints.Append(leftConstraint)
 		}
@@ -320,6 +320,16 @@ func onlyLeftConstraint(left, right Constraints) []Constraint {
 	return onlyLeftConstraints
 }
 
+// findSameConstraint returns the constraint of the same name. An index does not become another kind of constraint nor the other way around.
+func findSameConstraint(constraint Constraint, constraints []Constraint) Constraint { //nolint:ireturn
+	found := findConstraintByName(constraint.GetName().Name, constraints)
+	_, isIndex := constraint.(*IndexConstraint)
+	if _, foundIsIndex := found.(*IndexConstraint); found == nil || foundIsIndex != isIndex {
+		return nil
+	}
+	return found
+}
+
 func findConstraintByName(name string, constraints []Constraint) Constraint { //nolint:ireturn
 	for _, constraint := range constraints {
 		if constraint.GetName().Name == name {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 562b60b..fc7bffe 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -91,7 +91,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	}
 
 	for _, beforeConstraint := range before.Constraints {
-		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
+		afterConstraint := findSameConstraint(beforeConstraint, after.Constraints)
 		if afterConstraint == nil {
 			switch bc := beforeConstraint.(type) {
 			case *IndexConstraint:
@@ -120,7 +120,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	config.diffCreateTableColumn(result, before, after)
 
 	for _, beforeConstraint := range before.Constraints {
-		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
+		afterConstraint := findSameConstraint(beforeConstraint, after.Constraints)
 		if afterConstraint != nil {
 			if constraintForDiff(beforeConstraint) != constraintForDiff(afterConstraint) {
 				switch ac := afterConstraint.(type) {
@@ -336,7 +336,7 @@ func findColumnByName(name string, columns []*Column) *Column {
 func onlyLeftConstraint(left, right Constraints) []Constraint {
 	onlyLeftConstraints := make(Constraints, 0)
 	for _, leftConstraint := range left {
-		foundConstraintByRight := findConstraintByName(leftConstraint.GetName().Name, right)
+		foundConstraintByRight := findSameConstraint(leftConstraint, right)
 		if foundConstraintByRight == nil {
 			onlyLeftConstraints = onlyLeftConstraints.Append(leftConstraint)
 		}
@@ -344,6 +344,16 @@ func onlyLeftConstraint(left, right Constraints) []Constraint {
 	return onlyLeftConstraints
 }
 
+// findSameConstraint returns the constraint of the same name. An index does not become another kind of constraint nor the other way around.
+func findSameConstraint(constraint Constraint, constraints []Constraint) Constraint { //nolint:ireturn
+	found := findConstraintByName(constraint.GetName().Name, constraints)
+	_, isIndex := constraint.(*IndexConstraint)
+	if _, foundIsIndex := found.(*IndexConstraint); found == nil || foundIsIndex != isIndex {
+		return nil
+	}
+	return found
+}
+
 func findConstraintByName(name string, constraints []Constraint) Constraint { //nolint:ireturn
 	for _, constraint := range constraints {
 		if constraint.GetName().Name == name {
-- 
2.43.0


From b4a565c1475dd485953642be9fb419625e0d2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 83/92] fix: postgres, spanner: a comment ends at a carriage
 return, too

---
 pkg/ddl/postgres/lexar.go | 2 +-
 pkg/ddl/spanner/lexar.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 387c59d..f28b0b9 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -457,7 +457,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && !l.isEOF() {
+	for l.ch != '\n' && l.ch != '\r' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index a44cad7..b1432d2 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -439,7 +439,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && !l.isEOF() {
+	for l.ch != '\n' && l.ch != '\r' && !l.isEOF() {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 48d2f535c29455e29e40a23af6b1c9a8a934922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:20 +0000
Subject: [PATCH 84/92] fix: postgres, cockroachdb, mysql: the columns of a
 primary key are NOT NULL

---
 pkg/ddl/cockroachdb/diff_create_table.go | 26 ++++++++++++++++++++++--
 pkg/ddl/mysql/parser.go                  | 16 +++++++++++++++
 pkg/ddl/postgres/diff_create_table.go    | 21 +++++++++++++++++--
 3 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 9c08c91..58726fe 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -256,7 +256,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -265,7 +265,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -278,6 +278,11 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 
 	for _, afterColumn := range onlyLeftColumn(after.Columns, before.Columns) {
+		if after.isNotNull(afterColumn) && !afterColumn.NotNull {
+			notNullColumn := *afterColumn
+			notNullColumn.NotNull = true // NOTE: a nullable column cannot be added to the primary key
+			afterColumn = &notNullColumn
+		}
 		// ALTER TABLE table_name ADD COLUMN column_name data_type;
 		ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff("", afterColumn.String()).String(),
@@ -289,6 +294,23 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// isNotNull reports whether column is NOT NULL, as the columns of the primary key always are.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range s.Constraints {
+		if primaryKey, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, columnIdent := range primaryKey.Columns {
+				if columnIdent.Ident.Name == column.Name.Name {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 8790152..7838397 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -62,6 +62,21 @@ func isPrimaryKey(constraint Constraint) bool {
 	return ok
 }
 
+// setPrimaryKeyNotNull makes the columns of the primary key NOT NULL, as the database does.
+func (s *CreateTableStmt) setPrimaryKeyNotNull() {
+	for _, constraint := range s.Constraints {
+		primaryKey, ok := constraint.(*PrimaryKeyConstraint)
+		if !ok {
+			continue
+		}
+		for _, columnIdent := range primaryKey.Columns {
+			if column := findColumnByName(columnIdent.Ident.Name, s.Columns); column != nil {
+				column.NotNull = true
+			}
+		}
+	}
+}
+
 func (constraints Constraints) hasPrimaryKey() bool {
 	for _, c := range constraints {
 		if isPrimaryKey(c) {
@@ -249,6 +264,7 @@ LabelColumns:
 			continue
 		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
 			p.nextToken()
+			createTableStmt.setPrimaryKeyNotNull()
 			break LabelColumns
 		default:
 			return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 46c3a57..416c6ac 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -206,7 +206,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.NotNull && !afterColumn.NotNull:
+		case before.isNotNull(beforeColumn) && !after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -215,7 +215,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 					Name: afterColumn.Name,
 				},
 			})
-		case !beforeColumn.NotNull && afterColumn.NotNull:
+		case !before.isNotNull(beforeColumn) && after.isNotNull(afterColumn):
 			// ALTER TABLE table_name ALTER COLUMN column_name SET NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
@@ -239,6 +239,23 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// isNotNull reports whether column is NOT NULL, as the columns of the primary key always are.
+func (s *CreateTableStmt) isNotNull(column *Column) bool {
+	if column.NotNull {
+		return true
+	}
+	for _, constraint := range s.Constraints {
+		if primaryKey, ok := constraint.(*PrimaryKeyConstraint); ok {
+			for _, columnIdent := range primaryKey.Columns {
+				if columnIdent.Ident.Name == column.Name.Name {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From 9d841c34fce87cd11952ab659dccf7c6a573e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:24 +0000
Subject: [PATCH 85/92] fix: postgres, cockroachdb, mysql: DEFAULT NULL is no
 default

---
 pkg/ddl/cockroachdb/ddl_table.go         | 3 +++
 pkg/ddl/cockroachdb/diff_create_table.go | 2 +-
 pkg/ddl/mysql/ddl_table.go               | 3 +++
 pkg/ddl/mysql/diff_create_table.go       | 2 +-
 pkg/ddl/postgres/ddl_table.go            | 3 +++
 pkg/ddl/postgres/diff_create_table.go    | 2 +-
 6 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 0134daf..853c94e 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -354,6 +354,9 @@ func (d *Default) StringForDiff() string {
 	if d == nil {
 		return ""
 	}
+	if strings.EqualFold(d.Value.String(), "NULL") {
+		return "" // the same as no default
+	}
 	if e := d.Value; e != nil {
 		str := "DEFAULT "
 		for i, v := range d.Value.Idents {
diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 58726fe..d0d7999 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -234,7 +234,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.Default != nil && afterColumn.Default == nil:
+		case beforeColumn.Default.StringForDiff() != "" && afterColumn.Default == nil:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP DEFAULT;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 6847b32..3b0f55b 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -336,6 +336,9 @@ func (d *Default) StringForDiff() string {
 	if d == nil {
 		return ""
 	}
+	if strings.EqualFold(d.Value.String(), "NULL") {
+		return "" // the same as no default
+	}
 	if e := d.Value; e != nil {
 		str := "DEFAULT "
 		for i, v := range d.Value.Idents {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index fc7bffe..cd7637f 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,7 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			continue
 		}
 
-		dropDefault := beforeColumn.Default != nil && afterColumn.Default == nil
+		dropDefault := beforeColumn.Default.StringForDiff() != "" && afterColumn.Default == nil
 
 		if beforeColumn.DataType.StringForDiff() != afterColumn.DataType.StringForDiff() ||
 			beforeColumn.CharacterSet.StringForDiff() != afterColumn.CharacterSet.StringForDiff() ||
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index d7d7fd3..a4fcfed 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -320,6 +320,9 @@ func (d *Default) StringForDiff() string {
 	if d == nil {
 		return ""
 	}
+	if strings.EqualFold(d.Value.String(), "NULL") {
+		return "" // the same as no default
+	}
 	if e := d.Value; e != nil {
 		str := "DEFAULT "
 		for i, v := range d.Value.Idents {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 416c6ac..5da6fb4 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -184,7 +184,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 		}
 
 		switch {
-		case beforeColumn.Default != nil && afterColumn.Default == nil:
+		case beforeColumn.Default.StringForDiff() != "" && afterColumn.Default == nil:
 			// ALTER TABLE table_name ALTER COLUMN column_name DROP DEFAULT;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeColumn.String(), afterColumn.String()).String(),
-- 
2.43.0


From 0fb88a7cbf3cfea44ddef3c52a1fd038234d8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:28 +0000
Subject: [PATCH 86/92] fix: postgres, cockroachdb, mysql: a column default
 ends at the NULL that follows it

---
 pkg/ddl/cockroachdb/parser.go | 7 +++++++
 pkg/ddl/mysql/parser.go       | 5 ++++-
 pkg/ddl/postgres/parser.go    | 7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 52ad2f9..bcf8a4f 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -484,6 +484,9 @@ LabelDefault:
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
+			if p.isCurrentToken(TOKEN_NULL) && def.Value != nil {
+				break LabelDefault // NOTE: DEFAULT value NULL
+			}
 			if isReservedValue(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewIdent(string(p.currentToken.Type), "", p.currentToken.Literal.String()))
 				p.nextToken()
@@ -492,6 +495,10 @@ LabelDefault:
 			if isOperator(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
+				if p.isCurrentToken(TOKEN_NULL) { // NOTE: DEFAULT value || NULL
+					def.Value = def.Value.Append(NewIdent(string(p.currentToken.Type), "", p.currentToken.Literal.String()))
+					p.nextToken()
+				}
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 7838397..4f69b68 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -557,9 +557,12 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_ON, TOKEN_COMMENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_ON, TOKEN_COLLATE, TOKEN_COMMENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
+			if p.isCurrentToken(TOKEN_NULL) && def.Value != nil {
+				break LabelDefault // NOTE: DEFAULT value NULL
+			}
 			if isReservedValue(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewIdent(string(p.currentToken.Type), "", p.currentToken.Literal.String()))
 				p.nextToken()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 86ee264..abd9612 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -460,6 +460,9 @@ LabelDefault:
 		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
+			if p.isCurrentToken(TOKEN_NULL) && def.Value != nil {
+				break LabelDefault // NOTE: DEFAULT value NULL
+			}
 			if isReservedValue(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewIdent(string(p.currentToken.Type), "", p.currentToken.Literal.String()))
 				p.nextToken()
@@ -468,6 +471,10 @@ LabelDefault:
 			if isOperator(p.currentToken.Type) {
 				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
+				if p.isCurrentToken(TOKEN_NULL) { // NOTE: DEFAULT value || NULL
+					def.Value = def.Value.Append(NewIdent(string(p.currentToken.Type), "", p.currentToken.Literal.String()))
+					p.nextToken()
+				}
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-- 
2.43.0


From 0d133d1b28280bcde7b8912760b12dd0b3a340d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:42 +0000
Subject: [PATCH 87/92] fix: postgres, cockroachdb, mysql: keys are dropped
 after the tables that need them and created before

---
 pkg/ddl/cockroachdb/diff_order.go | 36 ++++++++++++++++++++++++++++---
 pkg/ddl/mysql/diff_order.go       | 36 ++++++++++++++++++++++++++++---
 pkg/ddl/postgres/diff_order.go    | 36 ++++++++++++++++++++++++++++---
 3 files changed, 99 insertions(+), 9 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_order.go b/pkg/ddl/cockroachdb/diff_order.go
index 3898fa3..5496ad2 100644
--- a/pkg/ddl/cockroachdb/diff_order.go
+++ b/pkg/ddl/cockroachdb/diff_order.go
@@ -8,11 +8,13 @@ import (
 const (
 	orderRename = iota
 	orderDropForeignKey
+	orderDropIndexOfDroppedTable
+	orderDropTable // NOTE: the foreign keys of the table go with it, and need their keys until then
 	orderDropIndex
 	orderDropConstraint
-	orderDropTable
 	orderAlter
 	orderAddConstraint
+	orderCreateIndex // NOTE: the foreign keys of a new table may need it
 	orderCreate
 	orderAddForeignKey
 )
@@ -33,6 +35,20 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 	}
 
 	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	droppedTableIndexes := make(map[string]bool)
+	for _, stmt := range before.Stmts {
+		if index, ok := stmt.(*CreateIndexStmt); ok {
+			if _, dropped := dropTableOrders[index.TableName.StringForDiff()]; dropped {
+				droppedTableIndexes[index.GetNameForDiff()] = true
+			}
+		}
+	}
+	created := make(map[string]bool)
+	for _, stmt := range stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			created[table.GetNameForDiff()] = true
+		}
+	}
 	createOrder := func(stmt Stmt) int {
 		if after == nil {
 			return 0
@@ -45,14 +61,28 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 		return len(after.Stmts)
 	}
 
+	order := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			if droppedTableIndexes[s.GetNameForDiff()] {
+				return orderDropIndexOfDroppedTable
+			}
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return orderCreateIndex
+			}
+		}
+		return stmtOrder(stmt, foreignKeys)
+	}
+
 	sort.SliceStable(stmts, func(i, j int) bool {
-		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		orderI, orderJ := order(stmts[i]), order(stmts[j])
 		switch {
 		case orderI != orderJ:
 			return orderI < orderJ
 		case orderI == orderDropTable:
 			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
-		case orderI == orderCreate:
+		case orderI == orderCreate, orderI == orderCreateIndex:
 			return createOrder(stmts[i]) < createOrder(stmts[j])
 		default:
 			return false
diff --git a/pkg/ddl/mysql/diff_order.go b/pkg/ddl/mysql/diff_order.go
index 9b939e5..40dba0a 100644
--- a/pkg/ddl/mysql/diff_order.go
+++ b/pkg/ddl/mysql/diff_order.go
@@ -8,11 +8,13 @@ import (
 const (
 	orderRename = iota
 	orderDropForeignKey
+	orderDropIndexOfDroppedTable
+	orderDropTable // NOTE: the foreign keys of the table go with it, and need their keys until then
 	orderDropIndex
 	orderDropConstraint
-	orderDropTable
 	orderAlter
 	orderAddConstraint
+	orderCreateIndex // NOTE: the foreign keys of a new table may need it
 	orderCreate
 	orderAddForeignKey
 )
@@ -33,6 +35,20 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 	}
 
 	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	droppedTableIndexes := make(map[string]bool)
+	for _, stmt := range before.Stmts {
+		if index, ok := stmt.(*CreateIndexStmt); ok {
+			if _, dropped := dropTableOrders[index.TableName.StringForDiff()]; dropped {
+				droppedTableIndexes[index.GetNameForDiff()] = true
+			}
+		}
+	}
+	created := make(map[string]bool)
+	for _, stmt := range stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			created[table.GetNameForDiff()] = true
+		}
+	}
 	createOrder := func(stmt Stmt) int {
 		if after == nil {
 			return 0
@@ -45,14 +61,28 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 		return len(after.Stmts)
 	}
 
+	order := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			if droppedTableIndexes[s.GetNameForDiff()] {
+				return orderDropIndexOfDroppedTable
+			}
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return orderCreateIndex
+			}
+		}
+		return stmtOrder(stmt, foreignKeys)
+	}
+
 	sort.SliceStable(stmts, func(i, j int) bool {
-		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		orderI, orderJ := order(stmts[i]), order(stmts[j])
 		switch {
 		case orderI != orderJ:
 			return orderI < orderJ
 		case orderI == orderDropTable:
 			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
-		case orderI == orderCreate:
+		case orderI == orderCreate, orderI == orderCreateIndex:
 			return createOrder(stmts[i]) < createOrder(stmts[j])
 		default:
 			return false
diff --git a/pkg/ddl/postgres/diff_order.go b/pkg/ddl/postgres/diff_order.go
index 334b277..6a62bd1 100644
--- a/pkg/ddl/postgres/diff_order.go
+++ b/pkg/ddl/postgres/diff_order.go
@@ -8,11 +8,13 @@ import (
 const (
 	orderRename = iota
 	orderDropForeignKey
+	orderDropIndexOfDroppedTable
+	orderDropTable // NOTE: the foreign keys of the table go with it, and need their keys until then
 	orderDropIndex
 	orderDropConstraint
-	orderDropTable
 	orderAlter
 	orderAddConstraint
+	orderCreateIndex // NOTE: the foreign keys of a new table may need it
 	orderCreate
 	orderAddForeignKey
 )
@@ -33,6 +35,20 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 	}
 
 	dropTableOrders := dropTableOrders(stmts, referencedBy)
+	droppedTableIndexes := make(map[string]bool)
+	for _, stmt := range before.Stmts {
+		if index, ok := stmt.(*CreateIndexStmt); ok {
+			if _, dropped := dropTableOrders[index.TableName.StringForDiff()]; dropped {
+				droppedTableIndexes[index.GetNameForDiff()] = true
+			}
+		}
+	}
+	created := make(map[string]bool)
+	for _, stmt := range stmts {
+		if table, ok := stmt.(*CreateTableStmt); ok {
+			created[table.GetNameForDiff()] = true
+		}
+	}
 	createOrder := func(stmt Stmt) int {
 		if after == nil {
 			return 0
@@ -45,14 +61,28 @@ func sortStmts(before, after *DDL, stmts []Stmt) []Stmt {
 		return len(after.Stmts)
 	}
 
+	order := func(stmt Stmt) int {
+		switch s := stmt.(type) {
+		case *DropIndexStmt:
+			if droppedTableIndexes[s.GetNameForDiff()] {
+				return orderDropIndexOfDroppedTable
+			}
+		case *CreateIndexStmt:
+			if !created[s.TableName.StringForDiff()] {
+				return orderCreateIndex
+			}
+		}
+		return stmtOrder(stmt, foreignKeys)
+	}
+
 	sort.SliceStable(stmts, func(i, j int) bool {
-		orderI, orderJ := stmtOrder(stmts[i], foreignKeys), stmtOrder(stmts[j], foreignKeys)
+		orderI, orderJ := order(stmts[i]), order(stmts[j])
 		switch {
 		case orderI != orderJ:
 			return orderI < orderJ
 		case orderI == orderDropTable:
 			return dropTableOrders[stmts[i].GetNameForDiff()] < dropTableOrders[stmts[j].GetNameForDiff()]
-		case orderI == orderCreate:
+		case orderI == orderCreate, orderI == orderCreateIndex:
 			return createOrder(stmts[i]) < createOrder(stmts[j])
 		default:
 			return false
-- 
2.43.0


From 0b1ca7088dfed53c72e05eb00bc2e49aa3d01e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:52 +0000
Subject: [PATCH 88/92] fix: accept the precision of ON UPDATE
 CURRENT_TIMESTAMP(n) in mysql

---
 pkg/ddl/mysql/parser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4f69b68..962ea91 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -480,8 +480,22 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 				column.OnAction += " " + p.currentToken.Literal.String()
 				p.nextToken()                // current = CASCADE or RESTRICT or SET or ...
 				switch p.currentToken.Type { //nolint:exhaustive
-				case TOKEN_CASCADE, TOKEN_RESTRICT, TOKEN_CURRENT_TIMESTAMP:
+				case TOKEN_CASCADE, TOKEN_RESTRICT:
 					column.OnAction += " " + p.currentToken.Literal.String()
+				case TOKEN_CURRENT_TIMESTAMP:
+					column.OnAction += " " + p.currentToken.Literal.String()
+					if p.isPeekToken(TOKEN_OPEN_PAREN) { // NOTE: CURRENT_TIMESTAMP(fractional seconds precision)
+						p.nextToken() // current = (
+						p.nextToken() // current = precision
+						if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+							return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+						}
+						column.OnAction += "(" + p.currentToken.Literal.String() + ")"
+						p.nextToken() // current = )
+						if err := p.checkCurrentToken(TOKEN_CLOSE_PAREN); err != nil {
+							return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+						}
+					}
 				default:
 					return nil, nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 				}
-- 
2.43.0


From b1074badfc671b2a4bc4606fcc235c75b829a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:05 +0000
Subject: [PATCH 89/92] fix: keep operators of two or more characters in one
 piece in the expressions of generated statements

---
 pkg/ddl/cockroachdb/lexar.go  | 26 ++++++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go |  4 ++--
 pkg/ddl/mysql/lexar.go        | 26 ++++++++++++++++++++++++++
 pkg/ddl/mysql/parser.go       |  2 +-
 pkg/ddl/postgres/lexar.go     | 26 ++++++++++++++++++++++++++
 pkg/ddl/postgres/parser.go    |  4 ++--
 pkg/ddl/spanner/lexar.go      | 26 ++++++++++++++++++++++++++
 pkg/ddl/spanner/parser.go     |  2 +-
 8 files changed, 110 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index e07a647..d1a07a3 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -48,6 +48,7 @@ const (
 	TOKEN_MINUS           TokenType = "MINUS"           // -
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // other operators of two or more characters, such as !=
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
@@ -322,6 +323,10 @@ func (l *Lexer) NextToken() Token {
 		l.skipWhitespace()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -397,6 +402,27 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子のうち、専用の TokenType を持たないものを、長いものから順に並べたものです。
+//
+//nolint:gochecknoglobals
+var operators = []string{"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "-|-", "<->", "!=", "->", "#>", "#-", "@>", "<@", "@@", "?|", "?&", "&&", "&<", "&>", "~~", "~*", "!~"}
+
+// readOperator は operators のいずれかを読み込みます。
+func (l *Lexer) readOperator() string {
+	if l.isEOF() {
+		return ""
+	}
+	for _, operator := range operators {
+		if strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index bcf8a4f..8f311a3 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -1014,7 +1014,7 @@ LabelIdents:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_EOF, TOKEN_ILLEGAL, TOKEN_OPERATOR:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
@@ -1028,7 +1028,7 @@ LabelIdents:
 func isOperator(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
-		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
+		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH, TOKEN_OPERATOR,
 		TOKEN_TYPE_ANNOTATION, //diff:ignore-line-postgres-cockroach
 		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
 		return true
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index ab18ac9..db1d031 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -48,6 +48,7 @@ const (
 	TOKEN_MINUS           TokenType = "MINUS"           // -
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // other operators of two or more characters, such as !=
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // :::
@@ -345,6 +346,10 @@ func (l *Lexer) NextToken() Token {
 		l.skipWhitespace()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -414,6 +419,27 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子のうち、専用の TokenType を持たないものを、長いものから順に並べたものです。
+//
+//nolint:gochecknoglobals
+var operators = []string{"->>", "<=>", "->", "!=", "||", "&&"}
+
+// readOperator は operators のいずれかを読み込みます。
+func (l *Lexer) readOperator() string {
+	if l.isEOF() {
+		return ""
+	}
+	for _, operator := range operators {
+		if strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 962ea91..b371d72 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -1019,7 +1019,7 @@ LabelIdents:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_EOF, TOKEN_ILLEGAL, TOKEN_OPERATOR:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index f28b0b9..b1e4cee 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -48,6 +48,7 @@ const (
 	TOKEN_MINUS         TokenType = "MINUS"         // -
 	TOKEN_ASTERISK      TokenType = "ASTERISK"      // *
 	TOKEN_SLASH         TokenType = "SLASH"         // /
+	TOKEN_OPERATOR      TokenType = "OPERATOR"      // other operators of two or more characters, such as !=
 	TOKEN_STRING_CONCAT TokenType = "STRING_CONCAT" //nolint:gosec // ||
 	TOKEN_TYPECAST      TokenType = "TYPECAST"      // ::
 
@@ -301,6 +302,10 @@ func (l *Lexer) NextToken() Token {
 		l.skipWhitespace()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -371,6 +376,27 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子のうち、専用の TokenType を持たないものを、長いものから順に並べたものです。
+//
+//nolint:gochecknoglobals
+var operators = []string{"!~~*", "->>", "#>>", "!~~", "~~*", "!~*", "-|-", "<->", "!=", "->", "#>", "#-", "@>", "<@", "@@", "@?", "?|", "?&", "&&", "&<", "&>", "~~", "~*", "!~", "^@"}
+
+// readOperator は operators のいずれかを読み込みます。
+func (l *Lexer) readOperator() string {
+	if l.isEOF() {
+		return ""
+	}
+	for _, operator := range operators {
+		if strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index abd9612..c1755ca 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -885,7 +885,7 @@ LabelIdents:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_EOF, TOKEN_ILLEGAL, TOKEN_OPERATOR:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
@@ -899,7 +899,7 @@ LabelIdents:
 func isOperator(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
-		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
+		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH, TOKEN_OPERATOR,
 		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
 		return true
 	default:
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index b1432d2..42b16c9 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -48,6 +48,7 @@ const (
 	TOKEN_MINUS           TokenType = "MINUS"           // -
 	TOKEN_ASTERISK        TokenType = "ASTERISK"        // *
 	TOKEN_SLASH           TokenType = "SLASH"           // /
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // other operators of two or more characters, such as !=
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
@@ -301,6 +302,10 @@ func (l *Lexer) NextToken() Token {
 		l.skipWhitespace()
 	}
 
+	if operator := l.readOperator(); operator != "" {
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, ok := l.readQuotedLiteral(l.ch)
@@ -370,6 +375,27 @@ func (l *Lexer) NextToken() Token {
 	return tok
 }
 
+// operators は 2 文字以上の演算子のうち、専用の TokenType を持たないものを、長いものから順に並べたものです。
+//
+//nolint:gochecknoglobals
+var operators = []string{"!=", "||"}
+
+// readOperator は operators のいずれかを読み込みます。
+func (l *Lexer) readOperator() string {
+	if l.isEOF() {
+		return ""
+	}
+	for _, operator := range operators {
+		if strings.HasPrefix(l.input[l.position:], operator) {
+			for range operator {
+				l.readChar()
+			}
+			return operator
+		}
+	}
+	return ""
+}
+
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
 func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 5ed6755..82bbb73 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -826,7 +826,7 @@ LabelIdents:
 			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_EOF, TOKEN_ILLEGAL, TOKEN_OPERATOR:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.String()))
-- 
2.43.0


From f6b746e8c07039d7f42fd60ce5bb76da9dfa61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:20 +0000
Subject: [PATCH 90/92] fix: keep string literals with a prefix and numbers
 with a signed exponent in one piece

---
 pkg/ddl/cockroachdb/lexar.go | 41 +++++++++++++++++++++++++++++++++---
 pkg/ddl/mysql/lexar.go       | 31 +++++++++++++++++++++++++++
 pkg/ddl/postgres/lexar.go    | 41 +++++++++++++++++++++++++++++++++---
 pkg/ddl/spanner/lexar.go     | 31 +++++++++++++++++++++++++++
 4 files changed, 138 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index d1a07a3..b246f08 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -329,7 +329,7 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		literal, ok := l.readQuotedLiteral(l.ch)
+		literal, ok := l.readQuotedLiteral(l.ch, false)
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
@@ -388,6 +388,14 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, ok := l.readQuotedLiteral(l.ch, strings.EqualFold(lit, "b") || strings.EqualFold(lit, "e"))
+				if !ok {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: lit + literal}}
+				break
+			}
 			if strings.HasSuffix(lit, ".") && l.ch == '"' {
 				return l.readQualifiedName(lit)
 			}
@@ -425,7 +433,7 @@ func (l *Lexer) readOperator() string {
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
-func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
+func (l *Lexer) readQuotedLiteral(quote byte, escape bool) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
@@ -433,6 +441,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
+		if escape && l.ch == '\\' {
+			l.readChar() // エスケープされた文字を読み飛ばす
+			continue
+		}
 		if l.ch == quote {
 			if l.peekChar() != quote {
 				break
@@ -451,7 +463,7 @@ func (l *Lexer) readQualifiedName(prefix string) Token {
 			name += l.readIdentifier()
 			continue
 		}
-		literal, ok := l.readQuotedLiteral(l.ch)
+		literal, ok := l.readQuotedLiteral(l.ch, false)
 		name += literal
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: name}}
@@ -485,12 +497,35 @@ func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
 		l.readChar()
+		if (l.ch == '+' || l.ch == '-') && isDigit(l.peekChar()) && isExponentPrefix(l.input[position:l.position]) {
+			l.readChar() // 1e-3 の符号
+		}
 	}
 	str := l.input[position:l.position]
 
 	return str
 }
 
+// isExponentPrefix は 1.5e のような、指数の前までの数値かどうかを返します。
+func isExponentPrefix(str string) bool {
+	mantissa := strings.TrimRight(str, "eE")
+	return len(mantissa) == len(str)-1 && strings.ContainsAny(mantissa, "0123456789") && strings.Trim(mantissa, "0123456789.") == ""
+}
+
+func isDigit(ch byte) bool {
+	return '0' <= ch && ch <= '9'
+}
+
+// isLiteralPrefix は b'0' のような、文字列リテラルの一部となる prefix かどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToLower(str) {
+	case "b", "e", "x":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index db1d031..05b3adb 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -408,6 +408,14 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, ok := l.readQuotedLiteral(l.ch)
+				if !ok {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: lit + literal}}
+				break
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -485,12 +493,35 @@ func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
 		l.readChar()
+		if (l.ch == '+' || l.ch == '-') && isDigit(l.peekChar()) && isExponentPrefix(l.input[position:l.position]) {
+			l.readChar() // 1e-3 の符号
+		}
 	}
 	str := l.input[position:l.position]
 
 	return str
 }
 
+// isExponentPrefix は 1.5e のような、指数の前までの数値かどうかを返します。
+func isExponentPrefix(str string) bool {
+	mantissa := strings.TrimRight(str, "eE")
+	return len(mantissa) == len(str)-1 && strings.ContainsAny(mantissa, "0123456789") && strings.Trim(mantissa, "0123456789.") == ""
+}
+
+func isDigit(ch byte) bool {
+	return '0' <= ch && ch <= '9'
+}
+
+// isLiteralPrefix は b'0' のような、文字列リテラルの一部となる prefix かどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToLower(str) {
+	case "b", "n", "x":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index b1e4cee..99075a5 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -308,7 +308,7 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
-		literal, ok := l.readQuotedLiteral(l.ch)
+		literal, ok := l.readQuotedLiteral(l.ch, false)
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: literal}}
 		}
@@ -362,6 +362,14 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if l.ch == '\'' && isLiteralPrefix(lit) {
+				literal, ok := l.readQuotedLiteral(l.ch, strings.EqualFold(lit, "e"))
+				if !ok {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: lit + literal}}
+				break
+			}
 			if strings.HasSuffix(lit, ".") && l.ch == '"' {
 				return l.readQualifiedName(lit)
 			}
@@ -399,7 +407,7 @@ func (l *Lexer) readOperator() string {
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
 // クォーテーションが閉じられていない場合は ok = false を返します。
-func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
+func (l *Lexer) readQuotedLiteral(quote byte, escape bool) (literal string, ok bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
@@ -407,6 +415,10 @@ func (l *Lexer) readQuotedLiteral(quote byte) (literal string, ok bool) {
 		if l.isEOF() {
 			return l.input[position:], false
 		}
+		if escape && l.ch == '\\' {
+			l.readChar() // エスケープされた文字を読み飛ばす
+			continue
+		}
 		if l.ch == quote {
 			if l.peekChar() != quote {
 				break
@@ -425,7 +437,7 @@ func (l *Lexer) readQualifiedName(prefix string) Token {
 			name += l.readIdentifier()
 			continue
 		}
-		literal, ok := l.readQuotedLiteral(l.ch)
+		literal, ok := l.readQuotedLiteral(l.ch, false)
 		name += literal
 		if !ok {
 			return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: name}}
@@ -459,12 +471,35 @@ func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
 		l.readChar()
+		if (l.ch == '+' || l.ch == '-') && isDigit(l.peekChar()) && isExponentPrefix(l.input[position:l.position]) {
+			l.readChar() // 1e-3 の符号
+		}
 	}
 	str := l.input[position:l.position]
 
 	return str
 }
 
+// isExponentPrefix は 1.5e のような、指数の前までの数値かどうかを返します。
+func isExponentPrefix(str string) bool {
+	mantissa := strings.TrimRight(str, "eE")
+	return len(mantissa) == len(str)-1 && strings.ContainsAny(mantissa, "0123456789") && strings.Trim(mantissa, "0123456789.") == ""
+}
+
+func isDigit(ch byte) bool {
+	return '0' <= ch && ch <= '9'
+}
+
+// isLiteralPrefix は b'0' のような、文字列リテラルの一部となる prefix かどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToLower(str) {
+	case "b", "e", "n", "x":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 42b16c9..b3d0622 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -364,6 +364,14 @@ func (l *Lexer) NextToken() Token {
 		}
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
+			if (l.ch == '\'' || l.ch == '"') && isLiteralPrefix(lit) {
+				literal, ok := l.readQuotedLiteral(l.ch)
+				if !ok {
+					return Token{Type: TOKEN_ILLEGAL, Literal: Literal{Str: lit + literal}}
+				}
+				tok = Token{Type: TOKEN_IDENT, Literal: Literal{Str: lit + literal}}
+				break
+			}
 			tok.Type = lookupIdent(lit)
 			tok.Literal = Literal{Str: lit}
 			return tok
@@ -441,12 +449,35 @@ func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
 		l.readChar()
+		if (l.ch == '+' || l.ch == '-') && isDigit(l.peekChar()) && isExponentPrefix(l.input[position:l.position]) {
+			l.readChar() // 1e-3 の符号
+		}
 	}
 	str := l.input[position:l.position]
 
 	return str
 }
 
+// isExponentPrefix は 1.5e のような、指数の前までの数値かどうかを返します。
+func isExponentPrefix(str string) bool {
+	mantissa := strings.TrimRight(str, "eE")
+	return len(mantissa) == len(str)-1 && strings.ContainsAny(mantissa, "0123456789") && strings.Trim(mantissa, "0123456789.") == ""
+}
+
+func isDigit(ch byte) bool {
+	return '0' <= ch && ch <= '9'
+}
+
+// isLiteralPrefix は r'\d' のような、文字列リテラルの一部となる prefix かどうかを返します。
+func isLiteralPrefix(str string) bool {
+	switch strings.ToLower(str) {
+	case "b", "br", "r", "rb":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
-- 
2.43.0


From 9ea9d6c9a8f4f54e6b0c213af14da2461d4f00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:56 +0000
Subject: [PATCH 91/92] fix: read the precision of TIMESTAMP(n) WITH TIME ZONE
 where it stands, in postgres and cockroachdb

---
 pkg/ddl/cockroachdb/ddl.go    |  7 +++++--
 pkg/ddl/cockroachdb/parser.go | 10 +++++++++-
 pkg/ddl/postgres/ddl.go       |  9 +++++++--
 pkg/ddl/postgres/parser.go    | 10 +++++++++-
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index b7e9887..0ab8107 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -122,11 +122,14 @@ func (s *DataType) String() string {
 	if s == nil {
 		return ""
 	}
-	str := s.Name
+	str, zone := s.Name, ""
+	if i := strings.IndexByte(str, ' '); i >= 0 && strings.EqualFold(str[:i], string(TOKEN_TIMESTAMP)) {
+		str, zone = str[:i], str[i:]
+	}
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "(" + s.Expr.String() + ")"
 	}
-	return str
+	return str + zone
 }
 
 func (s *DataType) StringForDiff() string {
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 8f311a3..fd4b114 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -913,6 +913,14 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	switch p.currentToken.Type { //nolint:exhaustive
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
+		if p.isPeekToken(TOKEN_OPEN_PAREN) { // NOTE: the precision is before the time zone: TIMESTAMP(3) WITH TIME ZONE
+			p.nextToken() // current = (
+			idents, err := p.parseIdents()
+			if err != nil {
+				return nil, apperr.Errorf("parseIdents: %w", err)
+			}
+			dataType.Expr = dataType.Expr.Append(idents...)
+		}
 		if p.isPeekToken(TOKEN_WITH) {
 			p.nextToken() // current = WITH
 			dataType.Name += " " + p.currentToken.Literal.String()
@@ -957,7 +965,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = p.currentToken.Type
 	}
 
-	if p.isPeekToken(TOKEN_OPEN_PAREN) {
+	if p.isPeekToken(TOKEN_OPEN_PAREN) && dataType.Expr == nil {
 		p.nextToken() // current = (
 		idents, err := p.parseIdents()
 		if err != nil {
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..91d92ec 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -1,6 +1,8 @@
 package postgres
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -105,11 +107,14 @@ func (s *DataType) String() string {
 	if s == nil {
 		return ""
 	}
-	str := s.Name
+	str, zone := s.Name, ""
+	if i := strings.IndexByte(str, ' '); i >= 0 && strings.EqualFold(str[:i], string(TOKEN_TIMESTAMP)) {
+		str, zone = str[:i], str[i:]
+	}
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "(" + s.Expr.String() + ")"
 	}
-	return str
+	return str + zone
 }
 
 func (s *DataType) StringForDiff() string {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c1755ca..a4832d0 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -787,6 +787,14 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE  //diff:ignore-line-postgres-cockroach
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
+		if p.isPeekToken(TOKEN_OPEN_PAREN) { // NOTE: the precision is before the time zone: TIMESTAMP(3) WITH TIME ZONE
+			p.nextToken() // current = (
+			idents, err := p.parseIdents()
+			if err != nil {
+				return nil, apperr.Errorf("parseIdents: %w", err)
+			}
+			dataType.Expr = dataType.Expr.Append(idents...)
+		}
 		// NOTE: TIMESTAMP WITHOUT TIME ZONE is how the database itself spells TIMESTAMP.
 		without := p.isPeekToken(TOKEN_IDENT) && strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT") //diff:ignore-line-postgres-cockroach
 		if p.isPeekToken(TOKEN_WITH) || without {                                                      //diff:ignore-line-postgres-cockroach
@@ -836,7 +844,7 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		dataType.Type = p.currentToken.Type
 	}
 
-	if p.isPeekToken(TOKEN_OPEN_PAREN) {
+	if p.isPeekToken(TOKEN_OPEN_PAREN) && dataType.Expr == nil {
 		p.nextToken() // current = (
 		idents, err := p.parseIdents()
 		if err != nil {
-- 
2.43.0


From bd56b8f1beb1f263d8efb44dcbed48befe27e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:56 +0000
Subject: [PATCH 92/92] fix: show of postgres keeps the precision of timestamps

---
 pkg/show/postgres/show_create_all_tables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index 0686fae..cb0fc57 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -27,7 +27,9 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                quote_ident(c.column_name) || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' ||
+                -- 6 is the default precision
+                (CASE WHEN substr(c.data_type, 1, 9) = 'timestamp' AND c.datetime_precision <> 6 THEN 'timestamp(' || c.datetime_precision || ')' || substr(c.data_type, 10) ELSE c.data_type END) ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
-- 
2.43.0

