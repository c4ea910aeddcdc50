From ef02ed4d4f5f625e69cb17447b1c9b7fb3bc2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 01/67] fix: lex '<<<' as '<<' '<' instead of an unsigned right
 shift

---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..30430df 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -570,14 +570,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From 693b325ba539e5bf293d054982d1f3c2ed35a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 02/67] fix: correct the source text of the ?., != and %=
 tokens

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From 32d0e74d7e25b9ae04f79047ad1c5f224b75ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 03/67] fix: unreading at the end of input no longer moves the
 location

---
 ecmascript/lexer/scanner.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..a669a14 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,17 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		return
+	}
+
+	err := s.r.UnreadRune()
+
+	if err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From e48ca4860e3c118bcf56b3c3f7b639af67b119bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 04/67] fix: count line breaks in comments, end comments at
 '**/'

---
 ecmascript/lexer/lexer.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 30430df..1fca0ff 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -142,19 +142,14 @@ patternLoop:
 func (l *Lexer) consumeMultiLineComment() {
 	var r rune
 	for {
+		star := r == '*'
 		r = l.s.Read()
-		switch r {
-		case '*':
-			switch l.s.Read() {
-			case '/':
-				return
-			case EOFRune:
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      errors.New("unexpected EOF"),
-				})
-			}
-		case EOFRune:
+		switch {
+		case r == '/' && star:
+			return
+		case isLineTerm(r):
+			l.newLine = true
+		case r == EOFRune:
 			panic(&errs.SyntaxError{
 				Location: l.s.Location(),
 				Err:      errors.New("unexpected EOF"),
@@ -163,12 +158,13 @@ func (l *Lexer) consumeMultiLineComment() {
 	}
 }
 
-// Consumes a single-line comment, eating until after the next line term.
+// Consumes a single-line comment, eating until before the next line term.
 func (l *Lexer) consumeSingleLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
 		if isLineTerm(r) || r == EOFRune {
+			l.s.Unread()
 			return
 		}
 	}
-- 
2.43.0


From b5d4216c977160d4ab7e76fe11342c740b168ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 05/67] fix: reject line breaks inside string literals

---
 ecmascript/lexer/lexer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 1fca0ff..6b00d68 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -455,9 +455,23 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == quo {
 			break
 		}
+		if r == '\n' || r == '\r' {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unexpected line break in string literal"),
+			})
+		}
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// A carriage return and line feed continue the line as one.
+				if r = l.s.Read(); r == '\n' {
+					c = append(c, r)
+				} else {
+					l.s.Unread()
+				}
+			}
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 6bc00be7a98d5f16d49bb8c378d333f00e341d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 06/67] fix: keep escapes in regular expression patterns,
 reject line breaks

---
 ecmascript/lexer/lexer.go | 48 +++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 6b00d68..30dd2aa 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -63,7 +63,7 @@ func (l *Lexer) consumeRegex(t Token) ReToken {
 
 patternLoop:
 	for {
-		r := l.s.Read()
+		r := l.readRegexRune()
 		lit.WriteRune(r)
 
 		switch r {
@@ -76,41 +76,25 @@ patternLoop:
 			// allowed in a character class.
 			pat.WriteRune(r)
 			for {
-				r := l.s.Read()
+				r := l.readRegexRune()
 				lit.WriteRune(r)
 				pat.WriteRune(r)
 
 				if r == '\\' {
-					r := l.s.Read()
+					r := l.readRegexRune()
 					lit.WriteRune(r)
 					pat.WriteRune(r)
 				} else if r == ']' {
 					break
-				} else if r == EOFRune {
-					panic(&errs.SyntaxError{
-						Location: l.s.Location(),
-						Err:      errors.New("unexpected EOF"),
-					})
 				}
 			}
 
 		case '\\':
 			// Escape sequence.
-			r = l.s.Read()
+			pat.WriteRune(r)
+			r = l.readRegexRune()
 			lit.WriteRune(r)
-
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
-			}
-
-		case EOFRune:
-			panic(&errs.SyntaxError{
-				Location: l.s.Location(),
-				Err:      errors.New("unexpected EOF"),
-			})
+			pat.WriteRune(r)
 
 		default:
 			pat.WriteRune(r)
@@ -132,12 +116,32 @@ patternLoop:
 		Token: Token{
 			Type:    TokenLiteralRegExp,
 			Literal: lit.String(),
+			NewLine: t.NewLine,
 		},
 		Pattern: pat.String(),
 		Flags:   flg.String(),
 	}
 }
 
+// readRegexRune reads a rune of a regex pattern, which can not contain line
+// breaks.
+func (l *Lexer) readRegexRune() rune {
+	r := l.s.Read()
+	if r == EOFRune {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      errors.New("unexpected EOF"),
+		})
+	}
+	if isLineTerm(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      errors.New("unexpected line break in regular expression"),
+		})
+	}
+	return r
+}
+
 // Consumes a multi-line comment, eating until after the next */.
 func (l *Lexer) consumeMultiLineComment() {
 	var r rune
-- 
2.43.0


From c5f117bd1284340a2334b4e9a434d728e9338929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 07/67] fix: keep separators, fractions and exponents of
 numeric literals

---
 ecmascript/lexer/lexer.go | 110 +++++++++++++-------------------------
 1 file changed, 36 insertions(+), 74 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 30dd2aa..7da4a64 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -226,6 +226,7 @@ func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 		if isBinaryDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isBinaryDigit(r) {
 				lit.WriteRune(r)
@@ -264,6 +265,7 @@ func (l *Lexer) consumeOctalPart(lit *strings.Builder) string {
 		if isOctalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isOctalDigit(r) {
 				lit.WriteRune(r)
@@ -302,6 +304,7 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 		if isHexDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isHexDigit(r) {
 				lit.WriteRune(r)
@@ -320,10 +323,8 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
-func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
-	if lit == nil {
-		lit = &strings.Builder{}
-	}
+// Consumes decimal digits.
+func (l *Lexer) consumeDecimalDigits(lit *strings.Builder) {
 	r := l.s.Read()
 
 	if !isDecimalDigit(r) {
@@ -339,6 +340,7 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -348,65 +350,47 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 				})
 			}
-		} else if r == '.' {
-			lit.WriteRune(r)
-			return l.consumeFractionalPart(lit)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
-
-	return lit.String()
 }
 
-func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
+// Consumes a decimal literal, starting in its integer part.
+func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 	if lit == nil {
 		lit = &strings.Builder{}
 	}
-	r := l.s.Read()
+	l.consumeDecimalDigits(lit)
+	return l.consumeDecimalTail(lit)
+}
 
-	if isDecimalDigit(r) {
+// Consumes what can follow the integer part of a decimal literal.
+func (l *Lexer) consumeDecimalTail(lit *strings.Builder) string {
+	r := l.s.Read()
+	if r == '.' {
 		lit.WriteRune(r)
-	} else {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-		})
-	}
-
-	for {
 		r = l.s.Read()
+		l.s.Unread()
 		if isDecimalDigit(r) {
-			lit.WriteRune(r)
-		} else if isNumericLiteralSeparator(r) {
-			r = l.s.Read()
-			if isDecimalDigit(r) {
-				lit.WriteRune(r)
-			} else {
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-				})
-			}
-		} else {
-			l.s.Unread()
-			break
+			return l.consumeFractionalPart(lit)
 		}
+		return l.consumeExponentPart(lit)
 	}
+	l.s.Unread()
+	return l.consumeExponentPart(lit)
+}
 
-	r = l.s.Read()
+// Consumes the digits after a decimal point.
+func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
+	l.consumeDecimalDigits(lit)
+	return l.consumeExponentPart(lit)
+}
+
+// Consumes an exponent, if there is one.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
+	r := l.s.Read()
 	if !isExponentIndicator(r) {
 		l.s.Unread()
 		return lit.String()
@@ -414,34 +398,12 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	lit.WriteRune(r)
 
 	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
-		})
-	}
-	lit.WriteRune(r)
-
-	for {
-		r = l.s.Read()
-		if isDecimalDigit(r) {
-			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
-		} else {
-			l.s.Unread()
-			break
-		}
+	if r == '+' || r == '-' {
+		lit.WriteRune(r)
+	} else {
+		l.s.Unread()
 	}
+	l.consumeDecimalDigits(lit)
 
 	return lit.String()
 }
@@ -571,7 +533,7 @@ func (l *Lexer) consumeNextToken() Token {
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalTail(lit)}
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-- 
2.43.0


From 28e427f956f896ffe0905301108dfe7e92df1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 08/67] fix: reject identifiers and digits glued to a numeric
 literal

---
 ecmascript/lexer/lexer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 7da4a64..0273270 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -36,6 +36,18 @@ func NewLexer(s *Scanner) *Lexer {
 // Lex returns the next token by scanning the input stream.
 func (l *Lexer) Lex() Token {
 	t := l.consumeNextToken()
+	if t.Type == TokenLiteralNumber {
+		// A numeric literal can not be directly followed by an identifier or
+		// another digit.
+		r := l.s.Read()
+		l.s.Unread()
+		if isIdentifierStart(r) || isDecimalDigit(r) {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      fmt.Errorf("unexpected %q after numeric literal", r),
+			})
+		}
+	}
 	if l.newLine {
 		t.NewLine = true
 		l.newLine = false
-- 
2.43.0


From 5ab50e33a5e500a3f0d70809f61898b7d6410fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 09/67] fix: evaluate every numeric literal instead of
 panicking

---
 ecmascript/lexer/token.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..a222404 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,8 +1,11 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -388,12 +391,37 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	lit := strings.TrimSuffix(strings.ReplaceAll(t.Literal, "_", ""), "n")
+	base := 10
+	if len(lit) > 1 && lit[0] == '0' {
+		switch lit[1] {
+		case 'b', 'B':
+			lit, base = lit[2:], 2
+		case 'o', 'O':
+			lit, base = lit[2:], 8
+		case 'x', 'X':
+			lit, base = lit[2:], 16
+		default:
+			// Legacy octal literal, like 0777.
+			if strings.Trim(lit, "01234567") == "" {
+				base = 8
+			}
+		}
+	}
+	if base == 10 {
+		v, err := strconv.ParseFloat(lit, 64)
+		if err != nil && !errors.Is(err, strconv.ErrRange) {
+			panic(err)
+		}
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
-	if err != nil {
-		panic(err)
+	if v, err := strconv.ParseUint(lit, base, 64); err == nil {
+		return float64(v)
+	}
+	i, ok := new(big.Int).SetString(lit, base)
+	if !ok {
+		panic(fmt.Errorf("invalid number %q", t.Literal))
 	}
-	return float64(v)
+	v, _ := new(big.Float).SetInt(i).Float64()
+	return v
 }
-- 
2.43.0


From 48c867cab73aeeff0bc2ed872e8d6d43c019aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 10/67] fix: lex the optional chaining punctuator

---
 ecmascript/lexer/lexer.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 0273270..40783cc 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -21,11 +21,18 @@ type Lexer struct {
 	s         *Scanner
 	lastToken Token
 	newLine   bool
+
+	// dot is set when a . that belongs to the next token was already read.
+	dot bool
 }
 
 // Location returns the current source location of the lexer.
 func (l *Lexer) Location() ast.Location {
-	return l.s.Location()
+	loc := l.s.Location()
+	if l.dot {
+		loc.Column--
+	}
+	return loc
 }
 
 // NewLexer creates a new lexer.
@@ -468,7 +475,11 @@ func (l *Lexer) consumeStringLiteral() Token {
 func (l *Lexer) consumeNextToken() Token {
 	var r rune
 	for {
-		r = l.s.Read()
+		if l.dot {
+			r, l.dot = '.', false
+		} else {
+			r = l.s.Read()
+		}
 		if isLineTerm(r) {
 			l.newLine = true
 			continue
@@ -696,6 +707,15 @@ func (l *Lexer) consumeNextToken() Token {
 					l.s.Unread()
 					return Token{Type: TokenPunctuatorNullCoalesce}
 				}
+			case '.':
+				r = l.s.Read()
+				l.s.Unread()
+				if isDecimalDigit(r) {
+					// A conditional operator followed by a number like .5
+					l.dot = true
+					return Token{Type: TokenPunctuatorQuestionMark}
+				}
+				return Token{Type: TokenPunctuatorOptionalChain}
 			default:
 				l.s.Unread()
 				return Token{Type: TokenPunctuatorQuestionMark}
-- 
2.43.0


From 1e447163be4ab9c347fbc9dc0f0f6832d9bc0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 11/67] fix: record the location of every token read ahead

---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..2d13d46 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From 6a83a1efac7cdff37870c37c78b90283794ffa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:40 +0000
Subject: [PATCH 12/67] fix: report unsupported syntax as a parser error
 instead of panicking

---
 ecmascript/parser/expression.go |  2 +-
 ecmascript/parser/module.go     |  3 ++-
 ecmascript/parser/parser.go     | 15 +++++++++++++--
 ecmascript/parser/statement.go  |  6 ++++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..5090aec 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.unimplemented("template literal")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..9fdaf5f 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.unimplemented("export declaration")
+	return nil
 }
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..fac488b 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
@@ -62,10 +62,21 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ExpressionMode:
 		return p.parseExpression(exprOrderComma, 0), nil
 	default:
-		panic(fmt.Errorf("unexpected parse mode %d", opt.Mode))
+		return nil, &errs.ParserError{
+			Location: p.s.Location(),
+			Err:      fmt.Errorf("unexpected parse mode %d", opt.Mode),
+		}
 	}
 }
 
+// unimplemented panics with a parser error for syntax that is not supported.
+func (p *Parser) unimplemented(what string) {
+	panic(&errs.ParserError{
+		Location: p.s.Location(),
+		Err:      fmt.Errorf("unimplemented: %s", what),
+	})
+}
+
 // scanIdent expects an identifier.
 func (p *Parser) scanIdent(err string) string {
 	return p.expectIdent(p.s.Scan(), err)
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..7cab500 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.unimplemented("with statement")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.unimplemented("debugger statement")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From b1fb6e4005164a49bce7ac2849f79d51a45d373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 13/67] fix: reject source text after the end of a parsed
 expression

---
 ecmascript/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index fac488b..2cd5a06 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -60,7 +60,9 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ModuleMode:
 		return p.parseModule(), nil
 	case ExpressionMode:
-		return p.parseExpression(exprOrderComma, 0), nil
+		n := p.parseExpression(exprOrderComma, 0)
+		p.s.ScanExpect(lexer.TokenNone, "expected end of expression")
+		return n, nil
 	default:
 		return nil, &errs.ParserError{
 			Location: p.s.Location(),
-- 
2.43.0


From e8e5917c76c7910a117853fe45b18fad5a5d0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 14/67] fix: reject a control statement without the statement
 it controls

---
 ecmascript/parser/statement.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 7cab500..11c74e2 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -98,6 +98,16 @@ func (p *Parser) parseStatement() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses the statement another statement requires, such as
+// the body of a loop.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseExpressionStatement() ast.Node {
 	expr := p.parseExpression(exprOrderComma, 0)
 	n := ast.ExpressionStatement{Expression: expr}
@@ -362,10 +372,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -376,7 +386,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -394,7 +404,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -429,7 +439,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -441,7 +451,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -456,7 +466,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -636,6 +646,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From a1be6a1fd03c5a06504c3c56efd736153f6c0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 15/67] fix: stop instead of looping forever on unexpected
 tokens in a switch body

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 11c74e2..cd4f723 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -495,7 +495,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -510,7 +510,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -518,6 +518,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From 095416756d456fdaacdd916e6e43a89883caee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 16/67] fix: never insert the semicolons of a for header

---
 ecmascript/parser/statement.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index cd4f723..e90e537 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -421,7 +421,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
@@ -456,12 +456,12 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From dfb20650b05945b6d0c3005f99d0fcc351c2b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 17/67] fix: insert semicolons after do/while and after return
 at the end of input

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e90e537..760b3c2 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -391,7 +391,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// The semicolon after a do/while statement is always optional.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.s.Scan()
+	}
 	return n
 }
 
@@ -566,7 +569,7 @@ func (p *Parser) parseReturnStatement() ast.Node {
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
-	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
+	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace || t.Type == lexer.TokenNone {
 		p.expectSemicolon()
 		return n
 	}
-- 
2.43.0


From 4af756ba59a34e37c3d0376228fe10d386cdf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 18/67] fix: keep the line break before a contextual word used
 as an identifier

---
 ecmascript/parser/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..b7c0c2a 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -38,5 +38,6 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	token.Type = lexer.TokenIdentifier
+	return token
 }
-- 
2.43.0


From caff29a180114754828a41fc08a5eaaa5edad7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 19/67] fix: reject a catch clause whose parameter is not a
 binding

---
 ecmascript/parser/statement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 760b3c2..56b7e04 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -636,6 +636,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch clause: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From 92eafcc47f210c915cf29b06426c893dd6e31d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:08 +0000
Subject: [PATCH 20/67] fix: parse optional chains

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5090aec..aa981b9 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -342,7 +342,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorOptionalChain {
-			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `?.` operator")
+			p.s.ScanExpect(lexer.TokenPunctuatorOptionalChain, "expected `?.` operator")
 			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBracket {
 				p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
 				m := ast.MemberExpression{
-- 
2.43.0


From 6a43607874840cd29b3688c7f69921d817b9cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 21/67] fix: parse | as bitwise or

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index aa981b9..406002a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 950b7de2d27d8750fca79b248cfee70d29e39e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 22/67] fix: make ** right associative and reject a unary
 operand on its left

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 406002a..12dfe07 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -399,7 +399,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorExponent {
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unary operator before `**` must be parenthesized")
+			}
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From ea9ec793bb09eccdc722633c14e76be5e13e780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:11 +0000
Subject: [PATCH 23/67] fix: reject ?? mixed with || or && without parentheses

---
 ecmascript/parser/expression.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 12dfe07..1194b2c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -38,6 +38,18 @@ const (
 	exprFlagMaybeArrow
 )
 
+// isLogical returns true for an unparenthesized && or || expression.
+func isLogical(n ast.Node) bool {
+	b, ok := n.(ast.BinaryExpression)
+	return ok && (b.Operator == ast.BinaryLogicalAndOp || b.Operator == ast.BinaryLogicalOrOp)
+}
+
+// isCoalesce returns true for an unparenthesized ?? expression.
+func isCoalesce(n ast.Node) bool {
+	b, ok := n.(ast.BinaryExpression)
+	return ok && b.Operator == ast.BinaryCoalesceOp
+}
+
 // parseExpression parses an expression up to a certain level of operator
 // precedence.
 //
@@ -535,6 +547,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
+			if isCoalesce(n) {
+				p.s.SyntaxError("cannot mix `&&` with `??` without parentheses")
+			}
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
 		}
@@ -544,11 +559,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
+			if isCoalesce(n) {
+				p.s.SyntaxError("cannot mix `||` with `??` without parentheses")
+			}
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			if isLogical(n) {
+				p.s.SyntaxError("cannot mix `??` with `||` or `&&` without parentheses")
+			}
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
-- 
2.43.0


From fd46a52af5f99800270a63231e07a0396344e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:11 +0000
Subject: [PATCH 24/67] fix: do not take ++ or -- on the next line as a postfix
 operator

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1194b2c..1aed162 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -396,7 +396,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if t.Type == lexer.TokenPunctuatorIncrement {
+		if t.NewLine && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
+			// No line break is allowed before a postfix operator.
+			break
+		} else if t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-- 
2.43.0


From 0a2bd3b9d5b47101943e3b81a44ae1113d8208f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:12 +0000
Subject: [PATCH 25/67] fix: do not take operator expressions as assignment
 targets or postfix operands

---
 ecmascript/parser/expression.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1aed162..0a52533 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -38,6 +38,16 @@ const (
 	exprFlagMaybeArrow
 )
 
+// isLeftHandSide returns true unless the node is an unparenthesized operator
+// expression.
+func isLeftHandSide(n ast.Node) bool {
+	switch n.(type) {
+	case *ast.UnaryExpression, *ast.UpdateExpression, ast.BinaryExpression:
+		return false
+	}
+	return true
+}
+
 // isLogical returns true for an unparenthesized && or || expression.
 func isLogical(n ast.Node) bool {
 	b, ok := n.(ast.BinaryExpression)
@@ -103,7 +113,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	// Set once n is a conditional, assignment or sequence expression, which
+	// can not be an operand of anything but the comma operator.
+	complete := false
+
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
+		if !isLeftHandSide(n) {
+			p.s.SyntaxError("invalid assignment target")
+		}
+		complete = true
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -307,8 +325,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	for {
-		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+		if complete && t.Type != lexer.TokenPunctuatorComma {
+			break
+		}
+
+		// exprOrderLHSExpr
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
@@ -399,6 +421,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.NewLine && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
 			// No line break is allowed before a postfix operator.
 			break
+		} else if !isLeftHandSide(n) && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
+			p.s.SyntaxError("invalid operand of postfix operator")
 		} else if t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
@@ -583,12 +607,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorQuestionMark, "expected `?` operator in conditional expression")
 			a := p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` operator in conditional expression")
-			b := p.parseExpression(exprOrderAssign, 0)
+			b := p.parseExpression(exprOrderAssign, flags)
 			m := ast.ConditionalExpression{
 				Test:       n,
 				Consequent: a,
 				Alternate:  b,
 			}
+			complete = true
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
 			n = m
@@ -678,6 +703,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
 				n = seq
 			}
+			complete = true
 			continue
 		}
 		if order >= exprOrderComma {
-- 
2.43.0


From 5a544c1426f4b27dac10590298b3f67f792aa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:22 +0000
Subject: [PATCH 26/67] fix: reject an optional chain on new without arguments

---
 ecmascript/parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0a52533..3b4a695 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -376,6 +376,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorOptionalChain {
+			if m, ok := n.(ast.NewExpression); ok && m.Arguments == nil {
+				p.s.SyntaxError("unexpected optional chain after `new` without arguments")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorOptionalChain, "expected `?.` operator")
 			if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBracket {
 				p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected `[` operator")
-- 
2.43.0


From 998aaffe5fa0d2ba883ee11720c0c520eeab9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 27/67] fix: require commas between arguments and between array
 elements

---
 ecmascript/parser/expression.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3b4a695..263fc4f 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -880,12 +880,10 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
-		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
 		}
+		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
@@ -1169,8 +1167,8 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From 8c9bd244a893846cb0c9c17f6ca36ccc6f9f0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 28/67] fix: keep parameter list placeholders out of ordinary
 expressions

---
 ecmascript/ast/expressions.go        |  7 ++-
 ecmascript/ast/expressions_binary.go |  6 +++
 ecmascript/parser/expression.go      | 68 ++++++++++++++++++++++------
 3 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..7bb593e 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,10 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.DestructureInit != nil || prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..b5a4d08 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -270,6 +270,12 @@ type AssignmentExpression struct {
 	Right    Node
 }
 
+// ContainsTemporalNodes returns true if the node contains any temporal
+// children.
+func (n AssignmentExpression) ContainsTemporalNodes() bool {
+	return n.Left.ContainsTemporalNodes() || n.Right.ContainsTemporalNodes()
+}
+
 // ESTree returns the corresponding ESTree representation for this node.
 func (n AssignmentExpression) ESTree() interface{} {
 	return struct {
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 263fc4f..830fa83 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -35,7 +35,14 @@ type exprFlags int
 
 const (
 	exprFlagDisallowIn exprFlags = 1 << iota
+
+	// exprFlagMaybeArrow allows the productions of binding patterns inside of
+	// array and object literals.
 	exprFlagMaybeArrow
+
+	// exprFlagArrowHead allows the productions of parameter lists directly
+	// between the parentheses.
+	exprFlagArrowHead
 )
 
 // isLeftHandSide returns true unless the node is an unparenthesized operator
@@ -73,7 +80,7 @@ func isCoalesce(n ast.Node) bool {
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
-	if flags&exprFlagMaybeArrow != 0 {
+	if flags&exprFlagArrowHead != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
 			// This is a parameter list, not an expression.
@@ -82,11 +89,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
+				Identifier: p.scanIdent("expected rest parameter"),
 			}
 		}
 	}
 
+	// Operands can not be part of a parameter list.
+	listFlags := flags
+	flags &^= exprFlagMaybeArrow | exprFlagArrowHead
+
 	var n ast.Node
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
@@ -187,7 +198,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
-				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
@@ -228,9 +239,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralString:
 		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
 	case lexer.TokenPunctuatorOpenBracket:
-		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseArrayTail(s, listFlags&exprFlagMaybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
-		n = p.parseObjectTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseObjectTail(s, listFlags&exprFlagMaybeArrow)
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
@@ -271,7 +282,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// list of an arrow function. To avoid look-ahead, the parser will
 		// parse as an expression where possible, but also allow some invalid
 		// productions, and then it will be fixed up here.
-		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
@@ -320,6 +331,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	if n.ContainsTemporalNodes() {
+		// A binding pattern can only be followed by a default value or by the
+		// end of the element.
+		switch t := p.s.PeekAt(0); t.Type {
+		case lexer.TokenPunctuatorAssign, lexer.TokenPunctuatorComma, lexer.TokenPunctuatorCloseParen,
+			lexer.TokenPunctuatorCloseBracket, lexer.TokenPunctuatorCloseBrace:
+		default:
+			p.s.SyntaxError(fmt.Sprintf("unexpected token after binding pattern: %s", t.Source()))
+		}
+	}
+
 	if order >= exprOrderPrimaryExpr {
 		return n
 	}
@@ -697,13 +719,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.Type == lexer.TokenPunctuatorComma {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
 				seq.SetEnd(p.s.Location())
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
 				n = seq
 			}
 			complete = true
@@ -839,11 +861,29 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+	list := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		list = seq.Expressions
+	}
+
+	args := []ast.Node{}
+	for i, arg := range list {
+		switch t := arg.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No arguments, or a trailing comma.
+			if i != len(list)-1 {
+				p.s.SyntaxError("expected argument")
+			}
+			continue
+		case ast.TemporalFloatingRestElement:
+			arg = ast.SpreadElement{Argument: ast.Identifier{Name: t.Identifier}}
+		}
+		if arg.ContainsTemporalNodes() {
+			p.s.SyntaxError("expected `=>` operator")
+		}
+		args = append(args, arg)
 	}
+	return args
 }
 
 // Parses an array assuming a `[` was already consumed.
@@ -1025,7 +1065,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderComma, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -1054,7 +1094,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From 2b9327851d5ca0d05ec6d0414a4c1c3ba591f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 29/67] fix: keep every part of the parameters of an arrow
 function

---
 ecmascript/parser/expression.go | 171 ++++++++++++++------------------
 1 file changed, 73 insertions(+), 98 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 830fa83..b98d86c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -745,119 +745,94 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-	convarg := func(n ast.Node, params *ast.FormalParameters) {
-		switch t := n.(type) {
-		case ast.Identifier:
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: t.Name},
-			})
-			return
-
-		case ast.AssignmentExpression:
-			left, ok := t.Left.(ast.Identifier)
-			if !ok {
-				p.s.SyntaxError("expected identifier in argument list")
-			}
-			name := left.Name
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: name},
-				Init:  t.Right,
-			})
-			return
-
-		case ast.ArrayExpression:
-			pat := ast.ArrayBindingPattern{}
-			for _, e := range t.Elements {
-				elem := ast.BindingElement{}
-				switch e := e.(type) {
-				case nil:
-					break
-
-				case ast.Identifier:
-					elem.Value = ast.BindingPattern{Identifier: e.Name}
-
-				case ast.AssignmentExpression:
-					left, ok := e.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					name := left.Name
-					elem = ast.BindingElement{Value: ast.BindingPattern{Identifier: name}, Init: e.Right}
-
-				case ast.TemporalArrayRestElement:
-					pat.RestElement = e.BindingPattern
-					params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-					return
-
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in array destructuring: %T", e))
-				}
-				pat.Elements = append(pat.Elements, elem)
-			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-			return
-
-		case ast.ObjectExpression:
-			pat := ast.ObjectBindingPattern{}
-			for _, prop := range t.Properties {
-				if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
-					pat.RestElement = rest.Identifier
-					break
-				}
-				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
-				}
-				switch key := prop.Value.(type) {
-				case ast.Identifier:
-					binding.Value.Identifier = key.Name
-
-				case ast.AssignmentExpression:
-					left, ok := key.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					binding.Value.Identifier = left.Name
-					binding.Init = key.Right
+	if _, ok := inner.(ast.TemporalEmptyArrowHead); ok {
+		return params
+	}
 
-				case nil:
-					break
+	list := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		list = seq.Expressions
+	}
 
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in object destructuring: %T", key))
-				}
-				if prop.DestructureInit != nil {
-					binding.Init = prop.DestructureInit
-				}
-				pat.Properties = append(pat.Properties, binding)
+	for i, n := range list {
+		switch t := n.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// Trailing comma.
+			if i != len(list)-1 {
+				p.s.SyntaxError("expected parameter")
 			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ObjectPattern: &pat}})
-			return
 
 		case ast.TemporalFloatingRestElement:
+			if i != len(list)-1 {
+				p.s.SyntaxError("rest parameter must be the last parameter")
+			}
 			params.RestParameter = t.Identifier
-			return
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+			params.Parameters = append(params.Parameters, p.convertExprToBindingElement(n))
 		}
 	}
 
-	switch t := inner.(type) {
-	case ast.TemporalEmptyArrowHead:
-		break
+	return params
+}
 
-	case ast.SequenceExpression:
-		for _, e := range t.Expressions {
-			convarg(e, &params)
+// convertExprToBindingElement converts an expression that turned out to be
+// part of an arrow function head to a binding with an optional default value.
+func (p *Parser) convertExprToBindingElement(n ast.Node) ast.BindingElement {
+	if t, ok := n.(ast.AssignmentExpression); ok && t.Operator == ast.AssignmentOp {
+		return ast.BindingElement{
+			Value: p.convertExprToBindingPattern(t.Left),
+			Init:  t.Right,
 		}
-
-	default:
-		convarg(t, &params)
 	}
+	return ast.BindingElement{Value: p.convertExprToBindingPattern(n)}
+}
 
-	return params
+// convertExprToBindingPattern converts an expression that turned out to be
+// part of an arrow function head to a binding pattern.
+func (p *Parser) convertExprToBindingPattern(n ast.Node) ast.BindingPattern {
+	switch t := n.(type) {
+	case ast.Identifier:
+		return ast.BindingPattern{Identifier: t.Name}
+
+	case ast.ArrayExpression:
+		pat := ast.ArrayBindingPattern{}
+		for _, e := range t.Elements {
+			if rest, ok := e.(ast.TemporalArrayRestElement); ok {
+				pat.RestElement = rest.BindingPattern
+				break
+			}
+			elem := ast.BindingElement{}
+			if e != nil {
+				elem = p.convertExprToBindingElement(e)
+			}
+			pat.Elements = append(pat.Elements, elem)
+		}
+		return ast.BindingPattern{ArrayPattern: &pat}
+
+	case ast.ObjectExpression:
+		pat := ast.ObjectBindingPattern{}
+		for _, prop := range t.Properties {
+			if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
+				pat.RestElement = rest.Identifier
+				break
+			}
+			key, ok := prop.Key.(ast.Identifier)
+			if !ok || prop.Computed || prop.Method || prop.Kind != ast.InitProperty {
+				p.s.SyntaxError("unexpected property in object destructuring")
+			}
+			binding := ast.BindingProperty{PropertyName: key.Name, Init: prop.DestructureInit}
+			if prop.Value != nil {
+				elem := p.convertExprToBindingElement(prop.Value)
+				binding.Value = elem.Value
+				binding.Init = elem.Init
+			}
+			pat.Properties = append(pat.Properties, binding)
+		}
+		return ast.BindingPattern{ObjectPattern: &pat}
+	}
+	p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+	return ast.BindingPattern{}
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-- 
2.43.0


From 9e4051e49ea3b4e108c5024cd6bed12b09c5506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 30/67] fix: parse arrow functions as assignment expressions

---
 ecmascript/parser/expression.go | 49 +++++++++++++++++++--------------
 ecmascript/parser/statement.go  |  4 +--
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b98d86c..68eeb32 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -115,6 +115,22 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
+	// Set once n is an arrow function, conditional, assignment or sequence
+	// expression, which can only be an operand of the comma operator.
+	complete := false
+
+	// scanarrow scans the arrow of an arrow function.
+	scanarrow := func() {
+		a := p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+		if order > exprOrderAssign {
+			p.s.SyntaxError("unexpected arrow function")
+		}
+		if a.NewLine {
+			p.s.SyntaxError("illegal newline before `=>`")
+		}
+		complete = true
+	}
+
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
@@ -124,10 +140,6 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
-	// Set once n is a conditional, assignment or sequence expression, which
-	// can not be an operand of anything but the comma operator.
-	complete := false
-
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
 		if !isLeftHandSide(n) {
 			p.s.SyntaxError("invalid assignment target")
@@ -186,13 +198,16 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
-				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
+				scanarrow()
+				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
+					Body:   p.parseBlockOrShorthand(flags),
 					Arrow:  true,
 					Async:  true,
 				}
+				m.SetStart(s)
+				m.SetEnd(p.s.Location())
+				n = m
 			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
@@ -203,11 +218,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
-					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+					scanarrow()
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseBlockOrShorthand(),
+						Body:   p.parseBlockOrShorthand(flags),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -287,11 +302,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
-			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+			scanarrow()
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseBlockOrShorthand(),
+				Body:   p.parseBlockOrShorthand(flags),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -314,21 +329,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
-		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
-		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
-		}
+		scanarrow()
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   body,
+			Body:   p.parseBlockOrShorthand(flags),
 			Arrow:  true,
 		}
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
-		return m
+		n = m
 	}
 
 	if n.ContainsTemporalNodes() {
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 56b7e04..1ff7609 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -117,11 +117,11 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
+func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		return p.parseBlock()
 	} else {
-		return p.parseExpression(exprOrderConditional, 0)
+		return p.parseExpression(exprOrderAssign, flags)
 	}
 }
 
-- 
2.43.0


From 913a42c0f308c93df30d538bb2f1c566f658ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 31/67] fix: take async as a modifier only on the same line,
 keep it on functions

---
 ecmascript/parser/expression.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 68eeb32..6f9a707 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -190,12 +190,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
-			if peek.Type == lexer.TokenKeywordFunction {
+			ident := p.ctx.keywordToIdentifier(peek, false)
+			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
-			} else if ident.Type == lexer.TokenIdentifier {
+				n = p.parseFunctionExpressionTail(s, true)
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				scanarrow()
@@ -218,6 +218,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
+					if peek.NewLine {
+						p.s.SyntaxError("illegal newline after `async`")
+					}
 					scanarrow()
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
-- 
2.43.0


From ccef6408763857103ed9c905f40265ce070b1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:19 +0000
Subject: [PATCH 32/67] fix: parse the star of a generator expression before
 its name

---
 ecmascript/parser/expression.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 6f9a707..e4e4bad 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1136,12 +1136,8 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
-	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
+	ctx := p.ctx
+	t := p.s.Scan()
 
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
@@ -1149,16 +1145,24 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 		t = p.s.Scan()
 	}
 
+	// The name, parameters and body belong to the new function.
+	p.ctx.async = async
+	p.ctx.generator = generator
+
+	name := ""
+	t = p.ctx.keywordToIdentifier(t, false)
+	if t.Type == lexer.TokenIdentifier {
+		name = t.Literal
+		t = p.s.Scan()
+	}
+
 	if t.Type != lexer.TokenPunctuatorOpenParen {
 		p.s.SyntaxError("expected parameter list following function expression head")
 	}
 
 	params := p.parseParametersTail()
-
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
 	body := p.parseBlock()
-	p.ctx.generator = wasgen
+	p.ctx = ctx
 
 	m := ast.FunctionExpression{
 		ID:        name,
-- 
2.43.0


From 70ce8a4ed2dbd4091f3bf3c460deaffede43f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 33/67] fix: give every function its own async and generator
 context

---
 ecmascript/parser/declaration.go |  7 ++--
 ecmascript/parser/expression.go  | 58 ++++++++++++++------------------
 ecmascript/parser/statement.go   | 10 ++++++
 3 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..a0e47bc 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -23,9 +23,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: support eliding name when in `export default` context.
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
-	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
-	params := p.parseParametersTail()
-	body := p.parseBlock()
+	params, body := p.parseFunctionRest(false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -127,8 +125,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
-		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Params, fn.Body = p.parseFunctionRest(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index e4e4bad..d574781 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -201,7 +201,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				scanarrow()
 				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(flags),
+					Body:   p.parseArrowBody(flags, true),
 					Arrow:  true,
 					Async:  true,
 				}
@@ -225,7 +225,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseBlockOrShorthand(flags),
+						Body:   p.parseArrowBody(flags, true),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -309,7 +309,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseBlockOrShorthand(flags),
+				Body:   p.parseArrowBody(flags, false),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -335,7 +335,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		scanarrow()
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   p.parseBlockOrShorthand(flags),
+			Body:   p.parseArrowBody(flags, false),
 			Arrow:  true,
 		}
 		m.SetStart(s)
@@ -1065,8 +1065,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Params, fn.Body = p.parseFunctionRest(false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1085,25 +1084,18 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-			ctx := p.ctx
-			p.ctx.async = async
-			p.ctx.generator = generator
-
 			fn := ast.FunctionExpression{
 				Async:     async,
 				Generator: generator,
 			}
 
 			fn.SetStart(p.s.Location())
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Params, fn.Body = p.parseFunctionRest(async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
 			prop.Method = true
 
-			p.ctx = ctx
-
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
@@ -1136,34 +1128,24 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
-	ctx := p.ctx
-	t := p.s.Scan()
-
 	generator := false
-	if t.Type == lexer.TokenPunctuatorMult {
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorMult {
+		p.s.Scan()
 		generator = true
-		t = p.s.Scan()
 	}
 
-	// The name, parameters and body belong to the new function.
+	// The name of a function expression belongs to the function itself.
+	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = generator
-
 	name := ""
-	t = p.ctx.keywordToIdentifier(t, false)
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
-
-	if t.Type != lexer.TokenPunctuatorOpenParen {
-		p.s.SyntaxError("expected parameter list following function expression head")
+	if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
+		name = p.scanIdent("expected function name")
 	}
-
-	params := p.parseParametersTail()
-	body := p.parseBlock()
 	p.ctx = ctx
 
+	params, body := p.parseFunctionRest(async, generator)
+
 	m := ast.FunctionExpression{
 		ID:        name,
 		Params:    params,
@@ -1178,6 +1160,18 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 	return m
 }
 
+// parseFunctionRest parses the parameters and the body of a function in a
+// context of its own.
+func (p *Parser) parseFunctionRest(async, generator bool) (ast.FormalParameters, ast.BlockStatement) {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+	params := p.parseParameters()
+	body := p.parseBlock()
+	p.ctx = ctx
+	return params, body
+}
+
 // Parses arguments.
 func (p *Parser) parseArguments() []ast.Node {
 	n := []ast.Node{}
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 1ff7609..3cf5807 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -117,6 +117,16 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
+// parseArrowBody parses the body of an arrow function in a context of its own.
+func (p *Parser) parseArrowBody(flags exprFlags, async bool) ast.Node {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = false
+	body := p.parseBlockOrShorthand(flags)
+	p.ctx = ctx
+	return body
+}
+
 func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		return p.parseBlock()
-- 
2.43.0


From adfa08df493ff9970ee8ac134e5e9f6f70001b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 34/67] fix: apply strict mode directives to the function or
 script they begin, not to the code after it

---
 ecmascript/parser/declaration.go |  4 +-
 ecmascript/parser/expression.go  | 30 ++++++----
 ecmascript/parser/keyword.go     | 12 ++++
 ecmascript/parser/script.go      |  7 ++-
 ecmascript/parser/statement.go   | 98 +++++++++++++++++++++++++-------
 5 files changed, 115 insertions(+), 36 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index a0e47bc..83b5f6e 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -23,7 +23,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: support eliding name when in `export default` context.
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
-	params, body := p.parseFunctionRest(false, false)
+	params, body := p.parseFunctionRest(name, false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -125,7 +125,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
-		fn.Params, fn.Body = p.parseFunctionRest(false, false)
+		fn.Params, fn.Body = p.parseFunctionRest("", false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d574781..bc196c5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -199,9 +199,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				scanarrow()
+				params := bareParameter(ident.Literal)
 				m := ast.FunctionExpression{
-					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseArrowBody(flags, true),
+					Params: params,
+					Body:   p.parseArrowBody(params, flags, true),
 					Arrow:  true,
 					Async:  true,
 				}
@@ -225,7 +226,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseArrowBody(flags, true),
+						Body:   p.parseArrowBody(params, flags, true),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -309,7 +310,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseArrowBody(flags, false),
+				Body:   p.parseArrowBody(params, flags, false),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -333,9 +334,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		scanarrow()
+		params := bareParameter(i.Name)
 		m := ast.FunctionExpression{
-			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   p.parseArrowBody(flags, false),
+			Params: params,
+			Body:   p.parseArrowBody(params, flags, false),
 			Arrow:  true,
 		}
 		m.SetStart(s)
@@ -754,6 +756,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// bareParameter returns the parameters of an arrow function whose only
+// parameter is not parenthesized.
+func bareParameter(name string) ast.FormalParameters {
+	return ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: name}}}}
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
@@ -1065,7 +1073,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
-			fn.Params, fn.Body = p.parseFunctionRest(false, false)
+			fn.Params, fn.Body = p.parseFunctionRest("", false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1090,7 +1098,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			}
 
 			fn.SetStart(p.s.Location())
-			fn.Params, fn.Body = p.parseFunctionRest(async, generator)
+			fn.Params, fn.Body = p.parseFunctionRest("", async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1144,7 +1152,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 	}
 	p.ctx = ctx
 
-	params, body := p.parseFunctionRest(async, generator)
+	params, body := p.parseFunctionRest(name, async, generator)
 
 	m := ast.FunctionExpression{
 		ID:        name,
@@ -1162,12 +1170,12 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 // parseFunctionRest parses the parameters and the body of a function in a
 // context of its own.
-func (p *Parser) parseFunctionRest(async, generator bool) (ast.FormalParameters, ast.BlockStatement) {
+func (p *Parser) parseFunctionRest(name string, async, generator bool) (ast.FormalParameters, ast.BlockStatement) {
 	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = generator
 	params := p.parseParameters()
-	body := p.parseBlock()
+	body := p.parseFunctionBody(name, params)
 	p.ctx = ctx
 	return params, body
 }
diff --git a/ecmascript/parser/keyword.go b/ecmascript/parser/keyword.go
index 9742ea5..3f479e0 100644
--- a/ecmascript/parser/keyword.go
+++ b/ecmascript/parser/keyword.go
@@ -28,6 +28,18 @@ const (
 	reservedAlways
 )
 
+// strictNames are the spellings of the keywords reserved in strict contexts.
+var strictNames = map[string]bool{
+	"implements": true,
+	"interface":  true,
+	"let":        true,
+	"package":    true,
+	"private":    true,
+	"protected":  true,
+	"public":     true,
+	"static":     true,
+}
+
 // reservedWords specifies the reservation state for keyword tokens.
 var reservedWords = map[lexer.TokenType]reservedType{
 	lexer.TokenKeywordAs:     reservedNever,
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..3673349 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,11 +10,16 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		m.Body = append(m.Body, stmt)
 	}
 
 	return m
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3cf5807..52a2bd5 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -118,24 +118,73 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 }
 
 // parseArrowBody parses the body of an arrow function in a context of its own.
-func (p *Parser) parseArrowBody(flags exprFlags, async bool) ast.Node {
+func (p *Parser) parseArrowBody(params ast.FormalParameters, flags exprFlags, async bool) ast.Node {
 	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = false
-	body := p.parseBlockOrShorthand(flags)
+	body := p.parseBlockOrShorthand(params, flags)
 	p.ctx = ctx
 	return body
 }
 
-func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
+func (p *Parser) parseBlockOrShorthand(params ast.FormalParameters, flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
+		return p.parseFunctionBody("", params)
 	} else {
 		return p.parseExpression(exprOrderAssign, flags)
 	}
 }
 
 func (p *Parser) parseBlock() ast.BlockStatement {
+	return p.parseBlockItems(false)
+}
+
+// parseFunctionBody parses the body of a function with the given name and
+// parameters, including its directives. The strict mode it may turn on stays
+// on until the caller restores its context.
+func (p *Parser) parseFunctionBody(name string, params ast.FormalParameters) ast.BlockStatement {
+	strict := p.ctx.strictMode
+	body := p.parseBlockItems(true)
+	if p.ctx.strictMode && !strict {
+		// The directive also covers the names before it.
+		check := func(name string) {
+			if strictNames[name] {
+				p.s.SyntaxError(fmt.Sprintf("%s is reserved in strict mode", name))
+			}
+		}
+		check(name)
+		check(params.RestParameter)
+		for _, param := range params.Parameters {
+			forEachName(param.Value, check)
+		}
+	}
+	return body
+}
+
+// forEachName calls f with every name a binding pattern binds.
+func forEachName(b ast.BindingPattern, f func(name string)) {
+	if b.Identifier != "" {
+		f(b.Identifier)
+	}
+	if b.ArrayPattern != nil {
+		for _, elem := range b.ArrayPattern.Elements {
+			forEachName(elem.Value, f)
+		}
+		forEachName(b.ArrayPattern.RestElement, f)
+	}
+	if b.ObjectPattern != nil {
+		for _, prop := range b.ObjectPattern.Properties {
+			if prop.Value == (ast.BindingPattern{}) {
+				f(prop.PropertyName)
+			} else {
+				forEachName(prop.Value, f)
+			}
+		}
+		f(b.ObjectPattern.RestElement)
+	}
+}
+
+func (p *Parser) parseBlockItems(prologue bool) ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
@@ -148,34 +197,39 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 		return n
 	}
 
-	ctx := p.ctx
-
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
-		}
-		stmt = expr
-	}
-	n.Body = append(n.Body, stmt)
-
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
 			break
 		}
-		n.Body = append(n.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		n.Body = append(n.Body, stmt)
 	}
 
-	p.ctx = ctx
-
 	return n
 }
 
+// parseDirective marks a statement at the start of a script or function body
+// if it is a directive, and returns if more directives may follow.
+func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
+	expr, ok := stmt.(ast.ExpressionStatement)
+	if !ok {
+		return stmt, false
+	}
+	str, ok := expr.Expression.(ast.StringLiteral)
+	if !ok {
+		return stmt, false
+	}
+	expr.Directive = str.Value
+	if str.Value == "use strict" {
+		p.ctx.strictMode = true
+	}
+	return expr, true
+}
+
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon()
 	p.expectSemicolon()
-- 
2.43.0


From 8c66681e60306e328fc0d4b5a4baccfe2ad817c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 35/67] fix: take shorthand properties and rest bindings as
 names, not as property keys

---
 ecmascript/parser/expression.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index bc196c5..8f4e800 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -898,7 +898,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
-			switch p.s.PeekAt(0).Type {
+			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
 			case lexer.TokenPunctuatorOpenBracket:
@@ -906,7 +906,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 			case lexer.TokenPunctuatorOpenBrace:
 				rest.ObjectPattern = p.parseObjectBindingPattern()
 			case lexer.TokenIdentifier:
-				rest.Identifier = p.forceScanIdent("unexpected token")
+				rest.Identifier = p.scanIdent("unexpected token")
 			default:
 				p.s.SyntaxError("missing variable name")
 			}
@@ -949,13 +949,20 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			t == lexer.TokenPunctuatorOpenParen
 	}
 
+	// Shorthand properties are references, so reserved words are not allowed.
+	expectshorthand := func(t lexer.Token) {
+		if p.ctx.keywordToIdentifier(t, false).Type != lexer.TokenIdentifier {
+			p.s.SyntaxError(fmt.Sprintf("shorthand not allowed for property %s", t.Source()))
+		}
+	}
+
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
+		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-			rest.Identifier = p.forceScanIdent("unexpected token")
+			rest.Identifier = p.scanIdent("unexpected token")
 		default:
 			p.s.SyntaxError("missing variable name")
 		}
@@ -1034,6 +1041,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		}
 
 		// Next, handle identifier...
+		key := t
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
@@ -1088,6 +1096,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
+			expectshorthand(key)
+			if async || generator {
+				p.s.SyntaxError("expected method")
+			}
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
@@ -1107,10 +1119,8 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
-			// disallow this from happening with a computed property.
-			if prop.Computed {
-				p.s.SyntaxError("shorthand not allowed for computed property")
-			}
+			// disallow this for anything but an identifier reference.
+			expectshorthand(key)
 
 			// We also should not allow this when async/generator is specified.
 			if async || generator {
-- 
2.43.0


From 79374f7b97466e8f05ab2ffd46499e1ae6423d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 36/67] fix: reject await as a parameter of an async arrow
 function

---
 ecmascript/parser/expression.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 8f4e800..2659017 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -200,6 +200,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.Scan()
 				scanarrow()
 				params := bareParameter(ident.Literal)
+				p.checkAsyncParameters(params)
 				m := ast.FunctionExpression{
 					Params: params,
 					Body:   p.parseArrowBody(params, flags, true),
@@ -224,6 +225,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					}
 					scanarrow()
 					params := p.convertExprToArrowParams(inner)
+					p.checkAsyncParameters(params)
 					m := ast.FunctionExpression{
 						Params: params,
 						Body:   p.parseArrowBody(params, flags, true),
@@ -762,6 +764,20 @@ func bareParameter(name string) ast.FormalParameters {
 	return ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: name}}}}
 }
 
+// checkAsyncParameters rejects `await` as a parameter of an async arrow
+// function; only after its arrow is the function known to be one.
+func (p *Parser) checkAsyncParameters(params ast.FormalParameters) {
+	check := func(name string) {
+		if name == "await" {
+			p.s.SyntaxError("await is reserved in async functions")
+		}
+	}
+	check(params.RestParameter)
+	for _, param := range params.Parameters {
+		forEachName(param.Value, check)
+	}
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-- 
2.43.0


From bb176a5e26fe3a38299936a0f3083835163e68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 37/67] fix: accept every word as a property name in an object
 pattern

---
 ecmascript/parser/statement.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 52a2bd5..a127110 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -360,7 +360,13 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-		t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
+		t := p.s.Scan()
+		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorColon {
+			// Every word is a property name.
+			t = p.ctx.keywordToIdentifier(t, true)
+		} else {
+			t = p.ctx.keywordToIdentifier(t, false)
+		}
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			b.PropertyName = t.Literal
-- 
2.43.0


From 870521db7647b9bec8ab7abeacf32eeef697db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 38/67] fix: accept let and async as labels and let as an
 operand, reject let as a lexical name

---
 ecmascript/parser/declaration.go | 7 +++++++
 ecmascript/parser/statement.go   | 9 +++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 83b5f6e..5d29702 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -56,6 +56,13 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	default:
 		p.s.SyntaxError("expected lexical declaration")
 	}
+	for _, decl := range n.Declarations {
+		forEachName(decl.ID, func(name string) {
+			if name == "let" {
+				p.s.SyntaxError("let is reserved in lexical declarations")
+			}
+		})
+	}
 	return n
 }
 
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a127110..9789e5c 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -19,6 +19,10 @@ func (p *Parser) parseStatementItem() ast.Node {
 }
 
 func (p *Parser) parseStatement() ast.Node {
+	if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier &&
+		p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+		return p.parseLabelledStatement()
+	}
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
 		return p.parseBlock()
@@ -57,7 +61,7 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
@@ -89,9 +93,6 @@ func (p *Parser) parseStatement() ast.Node {
 		fallthrough
 	default:
 		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
-			if p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
-				return p.parseLabelledStatement()
-			}
 			return p.parseExpressionStatement()
 		}
 	}
-- 
2.43.0


From 2525e80cfea76d3c75b92683a43ec57871499c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 39/67] fix: treat classes as strict code and accept every word
 as a method name

---
 ecmascript/parser/declaration.go | 27 +++++++++++++++++++++------
 ecmascript/parser/expression.go  |  6 +++++-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 5d29702..404397c 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -72,6 +72,11 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
+
+	// All parts of a class are strict code.
+	strict := p.ctx.strictMode
+	p.ctx.strictMode = true
+
 	n.ID = p.scanIdent("expected class name")
 
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
@@ -80,6 +85,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	}
 
 	n.Body = p.parseClassBody()
+	p.ctx.strictMode = strict
 	return n
 }
 
@@ -98,8 +104,13 @@ func (p *Parser) parseClassBody() []ast.Node {
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
 
+		// A specifier followed by the parameters is the name of the method.
+		specifier := func() bool {
+			return p.s.PeekAt(1).Type != lexer.TokenPunctuatorOpenParen
+		}
+
 		// Static specifier
-		if peek.Type == lexer.TokenKeywordStatic {
+		if peek.Type == lexer.TokenKeywordStatic && specifier() {
 			p.s.Scan()
 			peek = p.s.PeekAt(0)
 			m.Static = true
@@ -108,16 +119,20 @@ func (p *Parser) parseClassBody() []ast.Node {
 		// Get/set specifier
 		switch peek.Type {
 		case lexer.TokenKeywordGet:
-			p.s.Scan()
-			m.Kind = ast.GetMethod
+			if specifier() {
+				p.s.Scan()
+				m.Kind = ast.GetMethod
+			}
 
 		case lexer.TokenKeywordSet:
-			p.s.Scan()
-			m.Kind = ast.SetMethod
+			if specifier() {
+				p.s.Scan()
+				m.Kind = ast.SetMethod
+			}
 		}
 
 		// Identifier (possibly computed)
-		t := p.s.Scan()
+		t := p.ctx.keywordToIdentifier(p.s.Scan(), true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			m.Key = ast.Identifier{Name: t.Literal}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 2659017..d0f4991 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -278,7 +278,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = m
 	case lexer.TokenKeywordClass:
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		// All parts of a class are strict code.
+		strict := p.ctx.strictMode
+		p.ctx.strictMode = true
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
@@ -286,6 +289,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
 		}
 		m.Body = p.parseClassBody()
+		p.ctx.strictMode = strict
 		n = m
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
-- 
2.43.0


From bff442f7132a44c96a6a164c3d974bf25a024438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 40/67] fix: reject unexpected tokens in an import list, accept
 every word before as

---
 ecmascript/parser/module.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 9fdaf5f..f1eaed0 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -87,8 +87,12 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			if t.Type == lexer.TokenPunctuatorCloseBrace {
 				break importList
 			}
-			item := ast.NamedImport{
-				Identifier: p.expectIdent(t, "expected import specifier in import list"),
+			item := ast.NamedImport{}
+			if p.s.PeekAt(0).Type == lexer.TokenKeywordAs {
+				// The name of the export is not a binding here.
+				item.Identifier = p.forceIdent(t, "expected import specifier in import list")
+			} else {
+				item.Identifier = p.expectIdent(t, "expected import specifier in import list")
 			}
 			t = p.s.Scan()
 			switch t.Type {
@@ -106,7 +110,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError("expected `,` or `}` in import list")
 				}
+			default:
+				p.s.SyntaxError("expected `,`, `}` or `as` in import list")
 			}
 		}
 
-- 
2.43.0


From ce6bd2164d4d0223fbe2785fbaa0c8b2fc19c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:23 +0000
Subject: [PATCH 41/67] fix: do not take in as an operator in the declarations
 of a for header

---
 ecmascript/parser/declaration.go |  8 ++++----
 ecmascript/parser/statement.go   | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 404397c..6d661de 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -35,23 +35,23 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 }
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
-	n := p.parseLexicalDeclarationNoSemicolon()
+	n := p.parseLexicalDeclarationNoSemicolon(0)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseLexicalDeclarationNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(flags)
 		n.Kind = ast.LetDeclaration
 	case lexer.TokenKeywordConst:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(flags)
 		n.Kind = ast.ConstDeclaration
 	default:
 		p.s.SyntaxError("expected lexical declaration")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 9789e5c..1d20752 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -232,26 +232,26 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 }
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
-	n := p.parseVariableStatementNoSemicolon()
+	n := p.parseVariableStatementNoSemicolon(0)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
-	n.Declarations = p.parseVariableDeclarations()
+	n.Declarations = p.parseVariableDeclarations(flags)
 	return n
 }
 
-func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
-		v = append(v, p.parseVariableDeclaration())
+		v = append(v, p.parseVariableDeclaration(flags))
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
@@ -260,7 +260,7 @@ func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	return v
 }
 
-func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarator {
 	v := ast.VariableDeclarator{}
 
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
@@ -277,7 +277,7 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
-		v.Init = p.parseExpression(exprOrderAssign, 0)
+		v.Init = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	return v
@@ -499,7 +499,10 @@ func (p *Parser) parseForStatement() ast.Node {
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
-			v = p.parseVariableStatementNoSemicolon()
+			v = p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
+		} else if t.Type == lexer.TokenKeywordLet && p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
+			// Array destructuring let, not a member expression.
+			v = p.parseLexicalDeclarationNoSemicolon(exprFlagDisallowIn)
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
 		}
-- 
2.43.0


From d8b83f008c3fc603c693695bdd6ab9d24a9ec84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 42/67] fix: convert ?? to a LogicalExpression

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index b5a4d08..945454f 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From 672e4b122221863ec795af8bb0a2526e6de93d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 43/67] fix: name the superClass field and encode empty bodies
 as arrays

---
 ecmascript/ast/declaration.go | 3 ++-
 ecmascript/ast/expressions.go | 3 ++-
 ecmascript/ast/module.go      | 1 +
 ecmascript/ast/script.go      | 1 +
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..4605d6f 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 7bb593e..4a90ed7 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -479,7 +479,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -491,6 +491,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..90f5a39 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
-- 
2.43.0


From c48398b5bd697e565aebf153f2b3be3f38c12049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 44/67] fix: report the constructor of a class as such

---
 ecmascript/ast/declaration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4605d6f..96897a2 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -118,6 +118,10 @@ type MethodDefinition struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
+	kind := estreeMethodKindMap[n.Kind]
+	if key, ok := n.Key.(Identifier); ok && key.Name == "constructor" && n.Kind == Method && !n.Computed && !n.Static {
+		kind = "constructor"
+	}
 	return struct {
 		Type     string      `json:"type"`
 		Key      interface{} `json:"key"`
@@ -130,7 +134,7 @@ func (n MethodDefinition) ESTree() interface{} {
 		Key:      estree(n.Key),
 		Computed: n.Computed,
 		Value:    estree(n.Value),
-		Kind:     estreeMethodKindMap[n.Kind],
+		Kind:     kind,
 		Static:   n.Static,
 	}
 }
-- 
2.43.0


From f84d4a7d293a285c05b4883f217d75ae4da57711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 45/67] fix: encode numbers too large for a float64

---
 ecmascript/ast/expressions_literal.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/expressions_literal.go b/ecmascript/ast/expressions_literal.go
index 4958638..f630f6b 100644
--- a/ecmascript/ast/expressions_literal.go
+++ b/ecmascript/ast/expressions_literal.go
@@ -1,5 +1,7 @@
 package ast
 
+import "math"
+
 // NullLiteral is a node containing a null literal.
 //
 // For example:
@@ -108,13 +110,18 @@ type NumberLiteral struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n NumberLiteral) ESTree() interface{} {
+	// JSON has no infinity; JavaScript encodes it as null.
+	var value interface{} = n.Value
+	if math.IsInf(n.Value, 0) {
+		value = nil
+	}
 	return struct {
-		Type  string  `json:"type"`
-		Value float64 `json:"value"`
-		Raw   string  `json:"raw"`
+		Type  string      `json:"type"`
+		Value interface{} `json:"value"`
+		Raw   string      `json:"raw"`
 	}{
 		Type:  "Literal",
-		Value: n.Value,
+		Value: value,
 		Raw:   n.Raw,
 	}
 }
-- 
2.43.0


From 589efa8bd323fb33e036bada1dbe2e0127a561e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 46/67] fix: convert import declarations to ESTree instead of
 panicking

---
 ecmascript/ast/module.go    | 46 ++++++++++++++++++++++++++++++++++++-
 ecmascript/parser/module.go |  7 +++---
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 90f5a39..177afd4 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -52,11 +52,55 @@ type ImportDeclNode struct {
 
 	// Module to import; string literal.
 	Module string
+
+	// Source text of the string literal.
+	Raw string
 }
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source:     StringLiteral{Value: n.Module, Raw: n.Raw}.ESTree(),
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, estreeSpecifier("ImportDefaultSpecifier", n.DefaultBinding.Identifier))
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, estreeSpecifier("ImportNamespaceSpecifier", n.NameSpace.Identifier))
+	}
+	for _, item := range n.NamedImports {
+		local := item.AsBinding
+		if local == "" {
+			local = item.Identifier
+		}
+		e.Specifiers = append(e.Specifiers, struct {
+			Type     string      `json:"type"`
+			Imported interface{} `json:"imported"`
+			Local    interface{} `json:"local"`
+		}{
+			Type:     "ImportSpecifier",
+			Imported: estreeIdent(item.Identifier),
+			Local:    estreeIdent(local),
+		})
+	}
+	return e
+}
+
+// estreeSpecifier returns an import specifier with only a local name.
+func estreeSpecifier(typ, local string) interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  typ,
+		Local: estreeIdent(local),
+	}
 }
 
 // ImportDefaultBinding contains the default import identifier.
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index f1eaed0..af23552 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -48,7 +48,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 	switch t.Type {
 	case lexer.TokenLiteralString:
-		n.Module = t.StringConstant()
+		n.Module, n.Raw = t.StringConstant(), t.Literal
 		p.expectSemicolon()
 		return n
 
@@ -64,7 +64,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 		case lexer.TokenKeywordFrom:
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
-			n.Module = t.StringConstant()
+			n.Module, n.Raw = t.StringConstant(), t.Literal
 			p.expectSemicolon()
 			return n
 
@@ -123,7 +123,8 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	}
 
 	p.s.ScanExpect(lexer.TokenKeywordFrom, "expected `from` clause in import declaration")
-	n.Module = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`").StringConstant()
+	t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
+	n.Module, n.Raw = t.StringConstant(), t.Literal
 
 	p.expectSemicolon()
 
-- 
2.43.0


From a7853ee1b58f1bf9f2101e370c03b8aa15afe4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 47/67] fix: mark arrow functions with an expression body

---
 ecmascript/ast/expressions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 4a90ed7..578fe01 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -119,6 +119,10 @@ func (n FunctionExpression) ESTree() interface{} {
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
 	}
+	expression := n.Expression
+	if _, ok := n.Body.(BlockStatement); !ok {
+		expression = true
+	}
 	return struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
@@ -133,7 +137,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
-- 
2.43.0


From e0c2bb0fdee1a8f5d3edd343234fafd3ef7ec096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 48/67] fix: keep default values of object pattern properties
 in ESTree

---
 ecmascript/ast/estree.go    | 13 +++++++++++++
 ecmascript/ast/statement.go | 13 ++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ecmascript/ast/estree.go b/ecmascript/ast/estree.go
index fae326a..4a6a6e8 100644
--- a/ecmascript/ast/estree.go
+++ b/ecmascript/ast/estree.go
@@ -16,6 +16,19 @@ func estreeIdent(ident string) interface{} {
 	}
 }
 
+// estreeAssignmentPattern returns a pattern with a default value.
+func estreeAssignmentPattern(left interface{}, init Node) interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Left  interface{} `json:"left"`
+		Right interface{} `json:"right"`
+	}{
+		Type:  "AssignmentPattern",
+		Left:  left,
+		Right: estree(init),
+	}
+}
+
 // estree returns the result of calling the ESTree method if the node is
 // non-nil, or nil otherwise. This is useful since nil nodes may appear in many
 // different structures.
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..a467827 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -239,6 +239,9 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = estreeAssignmentPattern(v, n.Init)
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
@@ -274,15 +277,7 @@ type BindingElement struct {
 func (n BindingElement) ESTree() interface{} {
 	e := n.Value.ESTree()
 	if n.Init != nil {
-		e = struct {
-			Type  string      `json:"type"`
-			Left  interface{} `json:"left"`
-			Right interface{} `json:"right"`
-		}{
-			Type:  "AssignmentPattern",
-			Left:  e,
-			Right: estree(n.Init),
-		}
+		e = estreeAssignmentPattern(e, n.Init)
 	}
 	return e
 }
-- 
2.43.0


From 82898b277def19857dce49d08f67dede1ee3c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 49/67] fix: convert optional chains to ChainExpression

---
 ecmascript/ast/estree.go      | 40 +++++++++++++++++++++++++++++++++++
 ecmascript/ast/expressions.go | 18 ++++++++++++----
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/estree.go b/ecmascript/ast/estree.go
index 4a6a6e8..0dadea2 100644
--- a/ecmascript/ast/estree.go
+++ b/ecmascript/ast/estree.go
@@ -29,6 +29,46 @@ func estreeAssignmentPattern(left interface{}, init Node) interface{} {
 	}
 }
 
+// chainElement is a member or call expression.
+type chainElement interface {
+	estreeChainElement() interface{}
+}
+
+// isOptionalChain returns true if any link of a chain is optional.
+func isOptionalChain(n Node) bool {
+	switch t := n.(type) {
+	case MemberExpression:
+		return t.Optional || isOptionalChain(t.Object)
+	case CallExpression:
+		return t.Optional || isOptionalChain(t.Callee)
+	}
+	return false
+}
+
+// estreeLink returns the representation of the object or callee of a member or
+// call expression, which belongs to the same chain.
+func estreeLink(n Node) interface{} {
+	if link, ok := n.(chainElement); ok {
+		return link.estreeChainElement()
+	}
+	return estree(n)
+}
+
+// estreeChain returns the representation of a whole chain of member and call
+// expressions.
+func estreeChain(n Node) interface{} {
+	if !isOptionalChain(n) {
+		return estreeLink(n)
+	}
+	return struct {
+		Type       string      `json:"type"`
+		Expression interface{} `json:"expression"`
+	}{
+		Type:       "ChainExpression",
+		Expression: estreeLink(n),
+	}
+}
+
 // estree returns the result of calling the ESTree method if the node is
 // non-nil, or nil otherwise. This is useful since nil nodes may appear in many
 // different structures.
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 578fe01..9c830ee 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -194,16 +194,21 @@ type MemberExpression struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MemberExpression) ESTree() interface{} {
+	return estreeChain(n)
+}
+
+// estreeChainElement returns the representation of a link of a chain.
+func (n MemberExpression) estreeChainElement() interface{} {
 	return struct {
 		Type     string      `json:"type"`
 		Computed bool        `json:"computed"`
 		Object   interface{} `json:"object"`
 		Property interface{} `json:"property"`
-		Optional bool        `json:"optional,omitempty"`
+		Optional bool        `json:"optional"`
 	}{
 		Type:     "MemberExpression",
 		Computed: n.Computed,
-		Object:   estree(n.Object),
+		Object:   estreeLink(n.Object),
 		Property: estree(n.Property),
 		Optional: n.Optional,
 	}
@@ -251,14 +256,19 @@ type CallExpression struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n CallExpression) ESTree() interface{} {
+	return estreeChain(n)
+}
+
+// estreeChainElement returns the representation of a link of a chain.
+func (n CallExpression) estreeChainElement() interface{} {
 	e := struct {
 		Type      string        `json:"type"`
 		Callee    interface{}   `json:"callee"`
-		Optional  bool          `json:"optional,omitempty"`
+		Optional  bool          `json:"optional"`
 		Arguments []interface{} `json:"arguments"`
 	}{
 		Type:      "CallExpression",
-		Callee:    estree(n.Callee),
+		Callee:    estreeLink(n.Callee),
 		Optional:  n.Optional,
 		Arguments: []interface{}{},
 	}
-- 
2.43.0


From 8b9afcfb9cd5835ee1706fe78e74fb473dabfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 50/67] fix: add the await field of ForOfStatement

---
 ecmascript/ast/statement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index a467827..2014043 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -476,11 +476,13 @@ type ForOfStatement struct {
 func (n ForOfStatement) ESTree() interface{} {
 	return struct {
 		Type  string      `json:"type"`
+		Await bool        `json:"await"`
 		Left  interface{} `json:"left"`
 		Right interface{} `json:"right"`
 		Body  interface{} `json:"body"`
 	}{
 		Type:  "ForOfStatement",
+		Await: false,
 		Left:  estree(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
-- 
2.43.0


From 6226ddaec4ee1f4e18ee9ebc3ed995c1e7d2de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 51/67] fix: convert the target of a destructuring assignment
 to a pattern

---
 ecmascript/ast/estree.go             | 42 ++++++++++++++++++++++++++++
 ecmascript/ast/expressions.go        |  8 +++++-
 ecmascript/ast/expressions_binary.go |  2 +-
 ecmascript/ast/statement.go          |  4 +--
 4 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/estree.go b/ecmascript/ast/estree.go
index 0dadea2..656bdde 100644
--- a/ecmascript/ast/estree.go
+++ b/ecmascript/ast/estree.go
@@ -29,6 +29,48 @@ func estreeAssignmentPattern(left interface{}, init Node) interface{} {
 	}
 }
 
+// estreePattern returns the representation of an assignment target, where
+// array and object literals are destructuring patterns.
+func estreePattern(n Node) interface{} {
+	switch t := n.(type) {
+	case ArrayExpression:
+		e := struct {
+			Type     string        `json:"type"`
+			Elements []interface{} `json:"elements"`
+		}{
+			Type:     "ArrayPattern",
+			Elements: []interface{}{},
+		}
+		for _, elem := range t.Elements {
+			e.Elements = append(e.Elements, estreePatternElement(elem))
+		}
+		return e
+
+	case ObjectExpression:
+		e := struct {
+			Type       string        `json:"type"`
+			Properties []interface{} `json:"properties"`
+		}{
+			Type:       "ObjectPattern",
+			Properties: []interface{}{},
+		}
+		for _, prop := range t.Properties {
+			e.Properties = append(e.Properties, prop.estree(estreePatternElement))
+		}
+		return e
+	}
+	return estree(n)
+}
+
+// estreePatternElement returns the representation of an assignment target that
+// may have a default value.
+func estreePatternElement(n Node) interface{} {
+	if t, ok := n.(AssignmentExpression); ok && t.Operator == AssignmentOp {
+		return estreeAssignmentPattern(estreePattern(t.Left), t.Right)
+	}
+	return estreePattern(n)
+}
+
 // chainElement is a member or call expression.
 type chainElement interface {
 	estreeChainElement() interface{}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 9c830ee..3b30c56 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -361,8 +361,14 @@ type Property struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n Property) ESTree() interface{} {
+	return n.estree(estree)
+}
+
+// estree returns the representation of the property with a value converted by
+// the given function.
+func (n Property) estree(convert func(Node) interface{}) interface{} {
 	k := estree(n.Key)
-	v, shorthand := estree(n.Value), false
+	v, shorthand := convert(n.Value), false
 	if v == nil {
 		v, shorthand = k, true
 	}
diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 945454f..ab2419b 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -286,7 +286,7 @@ func (n AssignmentExpression) ESTree() interface{} {
 	}{
 		Type:     "AssignmentExpression",
 		Operator: estreeAssignOpMap[n.Operator],
-		Left:     estree(n.Left),
+		Left:     estreePattern(n.Left),
 		Right:    estree(n.Right),
 	}
 }
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 2014043..2f40f7e 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -458,7 +458,7 @@ func (n ForInStatement) ESTree() interface{} {
 	}{
 		Type:  "ForInStatement",
 		Each:  false,
-		Left:  estree(n.Left),
+		Left:  estreePattern(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
@@ -483,7 +483,7 @@ func (n ForOfStatement) ESTree() interface{} {
 	}{
 		Type:  "ForOfStatement",
 		Await: false,
-		Left:  estree(n.Left),
+		Left:  estreePattern(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
-- 
2.43.0


From 403a663ced373499e96d65b2c832eb50916fb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 52/67] fix: clear the spans of nodes held by value

---
 ecmascript/ast/node.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecmascript/ast/node.go b/ecmascript/ast/node.go
index 42bcc75..c735d3a 100644
--- a/ecmascript/ast/node.go
+++ b/ecmascript/ast/node.go
@@ -60,6 +60,16 @@ func clearSpans(v reflect.Value) {
 	}
 
 	switch v.Kind() {
+	case reflect.Interface:
+		if v.IsNil() || !v.CanSet() {
+			return
+		}
+		// The value inside of an interface can not be changed in place.
+		elem := reflect.New(v.Elem().Type()).Elem()
+		elem.Set(v.Elem())
+		clearSpans(elem)
+		v.Set(elem)
+
 	case reflect.Array, reflect.Slice:
 		for i := 0; i < v.Len(); i++ {
 			clearSpans(v.Index(i))
-- 
2.43.0


From faa17ac5f79eca7f5241630ed2fcdfb7db6247b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 53/67] fix: mark the directives of a module

---
 ecmascript/parser/module.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index af23552..a1f5caf 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -15,11 +15,16 @@ func (p *Parser) parseModule() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseModuleItem())
+		item := p.parseModuleItem()
+		if prologue {
+			item, prologue = p.parseDirective(item)
+		}
+		m.Body = append(m.Body, item)
 	}
 
 	return m
-- 
2.43.0


From 2a856c59e1fdd9df517880729c131e765742ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 54/67] fix: an async arrow function or call is no callee of
 new

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d0f4991..4cc7b25 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -210,7 +210,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				m.SetStart(s)
 				m.SetEnd(p.s.Location())
 				n = m
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if peek.Type == lexer.TokenPunctuatorOpenParen && order < exprOrderMemberExpr {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
-- 
2.43.0


From 6732652857a3233df53f06821a7907c60dc2dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 55/67] fix: a postfix expression has no members and can not be
 called

---
 ecmascript/parser/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4cc7b25..05d92ff 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -373,6 +373,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// exprOrderLHSExpr
+		switch t.Type {
+		case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket,
+			lexer.TokenPunctuatorOpenParen, lexer.TokenPunctuatorOptionalChain:
+			// These do not continue an operator expression, such as a++.
+			if !isLeftHandSide(n) {
+				return n
+			}
+		}
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
-- 
2.43.0


From 72a0b24e29640d7860e62306a8f1944955f3a0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 56/67] fix: await is reserved in the default values of async
 arrow parameters

---
 ecmascript/parser/context.go    | 11 +++++++++++
 ecmascript/parser/expression.go |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index b7c0c2a..f5e18bc 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -7,11 +7,22 @@ type parseContext struct {
 	strictMode bool
 	async      bool
 	generator  bool
+
+	// awaitName is set once await was taken for a name.
+	awaitName bool
 }
 
 // keywordToIdentifier converts a keyword to an identifier, if permissible in
 // the context.
 func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexer.Token {
+	t := ctx.convertKeyword(token, force)
+	if !force && token.Type == lexer.TokenKeywordAwait && t.Type == lexer.TokenIdentifier {
+		ctx.awaitName = true
+	}
+	return t
+}
+
+func (ctx *parseContext) convertKeyword(token lexer.Token, force bool) lexer.Token {
 	reservation, ok := reservedWords[token.Type]
 	if !ok {
 		return token
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 05d92ff..022811a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -215,7 +215,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
+				awaitBefore := p.ctx.awaitName
+				p.ctx.awaitName = false
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
+				await := p.ctx.awaitName
+				p.ctx.awaitName = await || awaitBefore
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
@@ -223,6 +227,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					if peek.NewLine {
 						p.s.SyntaxError("illegal newline after `async`")
 					}
+					if await {
+						p.s.SyntaxError("await is reserved in async functions")
+					}
 					scanarrow()
 					params := p.convertExprToArrowParams(inner)
 					p.checkAsyncParameters(params)
-- 
2.43.0


From a02f0564d52c5dfd72ce40d518484a5f9b1ea0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 57/67] fix: reject a try statement without catch and finally

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 1d20752..02ce100 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -697,6 +697,9 @@ func (p *Parser) parseTryStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
 	}
+	if n.Handler == nil && n.Finalizer == nil {
+		p.s.SyntaxError("expected `catch` or `finally`")
+	}
 	return n
 }
 
-- 
2.43.0


From 87bc212b62ea0bf4d497f3c9b6e15194a974ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 58/67] fix: reject a second default clause in a switch
 statement

---
 ecmascript/parser/statement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 02ce100..e9d89b0 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -579,6 +579,11 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 
 		case lexer.TokenKeywordDefault:
 			c := ast.SwitchCase{}
+			for _, other := range n.Cases {
+				if other.Test == nil {
+					p.s.SyntaxError("more than one `default` in switch statement")
+				}
+			}
 			p.s.ScanExpect(lexer.TokenKeywordDefault, "expected `default`")
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
 		defaultStatements:
-- 
2.43.0


From f8ea5db051666926ec440729d90ca94857c824fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 59/67] fix: do not take a sequence as the iterable of a for-of
 statement

---
 ecmascript/parser/statement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e9d89b0..407a4d6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -524,7 +524,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From 4dda50f62512677e0420020db84a8a40e98f9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 60/67] fix: reject patterns and constants without initializer

---
 ecmascript/parser/declaration.go |  1 +
 ecmascript/parser/statement.go   | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 6d661de..e6cc581 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -36,6 +36,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	n := p.parseLexicalDeclarationNoSemicolon(0)
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 407a4d6..a64dec8 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -233,6 +233,7 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon(0)
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
@@ -283,6 +284,16 @@ func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarato
 	return v
 }
 
+// checkInitializers rejects patterns and constants without an initializer in a
+// declaration outside of the head of a for-in or for-of statement.
+func (p *Parser) checkInitializers(n ast.VariableDeclaration) {
+	for _, decl := range n.Declarations {
+		if decl.Init == nil && (decl.ID.Identifier == "" || n.Kind == ast.ConstDeclaration) {
+			p.s.SyntaxError("missing initializer in declaration")
+		}
+	}
+}
+
 func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBracket, "expected array binding pattern")
 	return p.parseArrayBindingPatternTail()
@@ -532,6 +543,9 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.setEnd(&m)
 			return m
 		}
+		if decl, ok := v.(ast.VariableDeclaration); ok {
+			p.checkInitializers(decl)
+		}
 		n.Init = v
 		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
-- 
2.43.0


From 1a29ef95463dbc870e2b39c565a4602a01bd5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 61/67] fix: reject assignments to anything but names, member
 accesses and patterns

---
 ecmascript/parser/expression.go | 63 ++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 022811a..0ff8f5e 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -55,6 +55,67 @@ func isLeftHandSide(n ast.Node) bool {
 	return true
 }
 
+// isSimpleTarget returns true for a name or member access, also inside of
+// parentheses, which can be assigned to. Calls are left to the runtime.
+func isSimpleTarget(n ast.Node) bool {
+	switch t := n.(type) {
+	case ast.Identifier:
+		return true
+	case ast.MemberExpression, ast.CallExpression:
+		return !isOptionalChain(n)
+	case ast.ParenthesizedExpression:
+		return isSimpleTarget(t.Expression)
+	}
+	return false
+}
+
+// isOptionalChain returns true if any link of a chain of member accesses and
+// calls is optional.
+func isOptionalChain(n ast.Node) bool {
+	switch t := n.(type) {
+	case ast.MemberExpression:
+		return t.Optional || isOptionalChain(t.Object)
+	case ast.CallExpression:
+		return t.Optional || isOptionalChain(t.Callee)
+	}
+	return false
+}
+
+// isTarget returns true for everything that can be assigned to. Placeholders,
+// which are only part of a parameter list, are left to its conversion.
+func isTarget(n ast.Node) bool {
+	switch t := n.(type) {
+	case ast.ArrayExpression:
+		for _, elem := range t.Elements {
+			if elem != nil && !isTargetElement(elem) {
+				return false
+			}
+		}
+		return true
+	case ast.ObjectExpression:
+		for _, prop := range t.Properties {
+			if prop.Kind != ast.InitProperty || prop.Method {
+				return false
+			}
+			if prop.Value != nil && !isTargetElement(prop.Value) {
+				return false
+			}
+		}
+		return true
+	case ast.TemporalArrayRestElement:
+		return true
+	}
+	return isSimpleTarget(n)
+}
+
+// isTargetElement returns true for a target that may have a default value.
+func isTargetElement(n ast.Node) bool {
+	if t, ok := n.(ast.AssignmentExpression); ok {
+		return t.Operator == ast.AssignmentOp
+	}
+	return isTarget(n)
+}
+
 // isLogical returns true for an unparenthesized && or || expression.
 func isLogical(n ast.Node) bool {
 	b, ok := n.(ast.BinaryExpression)
@@ -141,7 +202,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
-		if !isLeftHandSide(n) {
+		if !isSimpleTarget(n) && (op != ast.AssignmentOp || !isTarget(n)) {
 			p.s.SyntaxError("invalid assignment target")
 		}
 		complete = true
-- 
2.43.0


From a7e5b3b385c7f0d532d612661035deb4b790a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 62/67] fix: reject increments and decrements of anything but
 names and member accesses

---
 ecmascript/parser/expression.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0ff8f5e..c51bbf8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -226,10 +226,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseUpdateOperand(flags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseUpdateOperand(flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
@@ -542,7 +542,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.NewLine && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
 			// No line break is allowed before a postfix operator.
 			break
-		} else if !isLeftHandSide(n) && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
+		} else if !isSimpleTarget(n) && (t.Type == lexer.TokenPunctuatorIncrement || t.Type == lexer.TokenPunctuatorDecrement) {
 			p.s.SyntaxError("invalid operand of postfix operator")
 		} else if t.Type == lexer.TokenPunctuatorIncrement {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
@@ -838,6 +838,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// parseUpdateOperand parses the operand of a prefix increment or decrement.
+func (p *Parser) parseUpdateOperand(flags exprFlags) ast.Node {
+	n := p.parseExpression(exprOrderLHSExpr, flags)
+	if !isSimpleTarget(n) {
+		p.s.SyntaxError("invalid operand of prefix operator")
+	}
+	return n
+}
+
 // bareParameter returns the parameters of an arrow function whose only
 // parameter is not parenthesized.
 func bareParameter(name string) ast.FormalParameters {
-- 
2.43.0


From e71584141a4de37352aba9fb9f24bad76a4fce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 63/67] fix: reject heads of for-in and for-of statements that
 are no single target

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a64dec8..55ce647 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -521,6 +521,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenKeywordIn:
 			p.s.ScanExpect(lexer.TokenKeywordIn, "expected `in`")
+			p.checkForTarget(v, true)
 			m := ast.ForInStatement{
 				Left:  v,
 				Right: p.parseExpression(exprOrderComma, 0),
@@ -533,6 +534,10 @@ func (p *Parser) parseForStatement() ast.Node {
 
 		case lexer.TokenKeywordOf:
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
+			if _, ok := v.(ast.VariableDeclaration); !ok && t.Type == lexer.TokenKeywordLet {
+				p.s.SyntaxError("unexpected `let` in for-of statement")
+			}
+			p.checkForTarget(v, false)
 			m := ast.ForOfStatement{
 				Left:  v,
 				Right: p.parseExpression(exprOrderAssign, 0),
@@ -561,6 +566,26 @@ func (p *Parser) parseForStatement() ast.Node {
 	return n
 }
 
+// checkForTarget rejects what a for-in or for-of statement can not assign to.
+func (p *Parser) checkForTarget(n ast.Node, in bool) {
+	decl, ok := n.(ast.VariableDeclaration)
+	if !ok {
+		if !isTarget(n) {
+			p.s.SyntaxError("invalid assignment target in for statement")
+		}
+		return
+	}
+	if len(decl.Declarations) != 1 {
+		p.s.SyntaxError("expected a single declaration in for statement")
+	}
+	if decl.Declarations[0].Init != nil {
+		// Only var name = value in value is allowed, and not in strict code.
+		if !in || p.ctx.strictMode || decl.Kind != ast.VarDeclaration || decl.Declarations[0].ID.Identifier == "" {
+			p.s.SyntaxError("unexpected initializer in for statement")
+		}
+	}
+}
+
 func (p *Parser) parseSwitchStatement() ast.Node {
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
-- 
2.43.0


From f102d5ac287e21ab02fd5e20960778bd876738a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 64/67] fix: accept a sequence between the brackets of a member
 access

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index c51bbf8..7b28c22 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -467,7 +467,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: true,
-				Property: p.parseExpression(exprOrderAssign, 0),
+				Property: p.parseExpression(exprOrderComma, 0),
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
 			m.SetStart(s)
@@ -503,7 +503,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				m := ast.MemberExpression{
 					Object:   n,
 					Computed: true,
-					Property: p.parseExpression(exprOrderAssign, 0),
+					Property: p.parseExpression(exprOrderComma, 0),
 					Optional: true,
 				}
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
-- 
2.43.0


From 65a6997b9929c74e2a847714a2bdf89ff26eee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 65/67] fix: accept calls and optional chains as the superclass
 of a class

---
 ecmascript/parser/declaration.go | 2 +-
 ecmascript/parser/expression.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index e6cc581..35dd2fa 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -82,7 +82,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 		p.s.Scan()
-		n.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+		n.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 	}
 
 	n.Body = p.parseClassBody()
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7b28c22..5bf83b2 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -354,7 +354,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 			p.s.Scan()
-			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+			m.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 		}
 		m.Body = p.parseClassBody()
 		p.ctx.strictMode = strict
-- 
2.43.0


From 2aef8f9ddf59f3e8848de22dd64fc8ae11eaf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 66/67] fix: record the end of spans of nodes returned by value

The deferred setEnd calls ran after the return value was copied, so the
returned nodes never had an end.
---
 ecmascript/parser/declaration.go |  4 ++--
 ecmascript/parser/expression.go  |  6 ++++--
 ecmascript/parser/module.go      |  6 ++++--
 ecmascript/parser/parser.go      |  3 ++-
 ecmascript/parser/script.go      |  2 +-
 ecmascript/parser/statement.go   | 32 ++++++++++++++++++--------------
 6 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 35dd2fa..c15cd3b 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -45,7 +45,6 @@ func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 func (p *Parser) parseLexicalDeclarationNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
@@ -64,13 +63,13 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon(flags exprFlags) ast.Variabl
 			}
 		})
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseClassDeclaration() ast.Node {
 	n := ast.ClassDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
 
@@ -87,6 +86,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 
 	n.Body = p.parseClassBody()
 	p.ctx.strictMode = strict
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5bf83b2..61aac6a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -990,7 +990,6 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ArrayExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	for {
 		for p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
@@ -1027,6 +1026,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
+	p.setEnd(&n)
 	return n
 }
 
@@ -1034,7 +1034,6 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ObjectExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	atEndOfPropertyKey := func() bool {
 		// Colon ends the property key when not using shorthand, otherwise
@@ -1079,6 +1078,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// object after trailing comma.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
@@ -1131,6 +1131,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				if flags&exprFlagMaybeArrow != 0 {
 					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+					p.setEnd(&n)
 					return n
 				}
 
@@ -1241,6 +1242,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// Object ends after a property.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index a1f5caf..f3533ac 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -13,7 +13,6 @@ func (p *Parser) parseModule() ast.Node {
 
 	m := ast.ModuleNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -27,6 +26,7 @@ func (p *Parser) parseModule() ast.Node {
 		m.Body = append(m.Body, item)
 	}
 
+	p.setEnd(&m)
 	return m
 }
 
@@ -46,7 +46,6 @@ func (p *Parser) parseModuleItem() ast.Node {
 func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	n := ast.ImportDeclNode{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")
 
@@ -55,6 +54,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	case lexer.TokenLiteralString:
 		n.Module, n.Raw = t.StringConstant(), t.Literal
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 
 	case lexer.TokenIdentifier:
@@ -71,6 +71,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
 			n.Module, n.Raw = t.StringConstant(), t.Literal
 			p.expectSemicolon()
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -133,6 +134,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 	p.expectSemicolon()
 
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 2cd5a06..376357c 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -133,7 +133,8 @@ func (p *Parser) setStart(s spannedNode) {
 	s.SetStart(p.s.Location())
 }
 
-// setEnd sets the end of a node; ideal for use with defer.
+// setEnd sets the end of a node to the current location. Nodes are returned by
+// value, so this has to happen before the return statement.
 func (p *Parser) setEnd(s spannedNode) {
 	s.SetEnd(p.s.Location())
 }
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index 3673349..f98b33d 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -8,7 +8,6 @@ import (
 func (p *Parser) parseScript() ast.Node {
 	m := ast.ScriptNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -22,5 +21,6 @@ func (p *Parser) parseScript() ast.Node {
 		m.Body = append(m.Body, stmt)
 	}
 
+	p.setEnd(&m)
 	return m
 }
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 55ce647..c25ad73 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -188,13 +188,13 @@ func forEachName(b ast.BindingPattern, f func(name string)) {
 func (p *Parser) parseBlockItems(prologue bool) ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
 	// Early exit for empty block.
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
+		p.setEnd(&n)
 		return n
 	}
 
@@ -210,6 +210,7 @@ func (p *Parser) parseBlockItems(prologue bool) ast.BlockStatement {
 		n.Body = append(n.Body, stmt)
 	}
 
+	p.setEnd(&n)
 	return n
 }
 
@@ -242,10 +243,10 @@ func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
 	n.Declarations = p.parseVariableDeclarations(flags)
+	p.setEnd(&n)
 	return n
 }
 
@@ -439,16 +440,15 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 func (p *Parser) parseEmptyExpression() ast.Node {
 	n := ast.EmptyStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseIfStatement() ast.Node {
 	n := ast.IfStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordIf, "expected `if` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
@@ -459,13 +459,13 @@ func (p *Parser) parseIfStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
 		n.Alternate = p.parseSubStatement()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseDoWhileStatement() ast.Node {
 	n := ast.DoWhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
 	n.Body = p.parseSubStatement()
@@ -477,26 +477,26 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
 		p.s.Scan()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseWhileStatement() ast.Node {
 	n := ast.WhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseForStatement() ast.Node {
 	n := ast.ForStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordFor, "expected `for` statement")
 	// TODO: async
@@ -563,6 +563,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
@@ -589,7 +590,6 @@ func (p *Parser) checkForTarget(n ast.Node, in bool) {
 func (p *Parser) parseSwitchStatement() ast.Node {
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordSwitch, "expected `switch` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
@@ -638,6 +638,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -649,51 +650,54 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 func (p *Parser) parseContinueStatement() ast.Node {
 	n := ast.ContinueStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordContinue, "expected continue statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseBreakStatement() ast.Node {
 	n := ast.BreakStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordBreak, "expected break statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseReturnStatement() ast.Node {
 	n := ast.ReturnStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
 	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace || t.Type == lexer.TokenNone {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
@@ -705,7 +709,6 @@ func (p *Parser) parseWithStatement() ast.Node {
 func (p *Parser) parseThrowStatement() ast.Node {
 	n := ast.ThrowStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordThrow, "expected throw statement")
 	if p.s.PeekAt(0).NewLine {
@@ -714,13 +717,13 @@ func (p *Parser) parseThrowStatement() ast.Node {
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseTryStatement() ast.Node {
 	n := ast.TryStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
@@ -744,6 +747,7 @@ func (p *Parser) parseTryStatement() ast.Node {
 	if n.Handler == nil && n.Finalizer == nil {
 		p.s.SyntaxError("expected `catch` or `finally`")
 	}
+	p.setEnd(&n)
 	return n
 }
 
@@ -771,10 +775,10 @@ func (p *Parser) parseDebuggerStatement() ast.Node {
 func (p *Parser) parseLabelledStatement() ast.Node {
 	n := ast.LabeledStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
-- 
2.43.0


From 575375310e034b2d266dd342d98b8886cdab3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 67/67] fix: let spans of catch clauses, methods and sequences
 cover all of their tokens

---
 ecmascript/parser/declaration.go | 1 +
 ecmascript/parser/expression.go  | 4 +++-
 ecmascript/parser/statement.go   | 4 ++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index c15cd3b..07c4e83 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -148,6 +148,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
+		fn.SetStart(p.s.Location())
 		fn.Params, fn.Body = p.parseFunctionRest("", false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 61aac6a..fbe1704 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -816,12 +816,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
-				seq.SetEnd(p.s.Location())
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			}
 			complete = true
@@ -1187,6 +1188,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
+			fn.SetStart(p.s.Location())
 			fn.Params, fn.Body = p.parseFunctionRest("", false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index c25ad73..e49ef3f 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -728,16 +728,16 @@ func (p *Parser) parseTryStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordCatch {
-		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		h := ast.CatchClause{}
 		h.SetStart(p.s.Location())
+		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 			h.Param = p.parseCatchParameter()
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 		}
-		h.SetEnd(p.s.Location())
 		h.Body = p.parseBlock()
+		h.SetEnd(p.s.Location())
 		n.Handler = h
 	}
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
-- 
2.43.0

