package harness

import (
	"strconv"
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C01: lexing ends in the end-of-input token or a located syntax error.
func lexTotal(rs []rune) {
	l := newLexer(rs)
	for i := 0; ; i++ {
		vsym.Assert(i <= len(rs), "more tokens than characters")
		s := lexOne(l)
		vsym.Assert(!s.bad, "lexing fails with something other than a syntax error")
		if s.err != nil {
			vsym.Reach("error")
			vsym.Assert(vsym.And(s.loc.Row >= 1, s.loc.Column >= 1), "syntax error without a source location")
			return
		}
		if s.tok.Type == lexer.TokenNone {
			break
		}
		if s.tok.Type == lexer.TokenLiteralNumber {
			vsym.Assert(numberDefined(s.tok), "the value of a number token is not defined")
		}
	}
	for k := 0; k < 2; k++ {
		s := lexOne(l)
		vsym.Assert(!s.bad && s.err == nil, "asking again at the end of input fails")
		vsym.Assert(s.tok.Type == lexer.TokenNone, "asking again at the end of input gives a token")
	}
	vsym.Reach("end")
}

func numberDefined(t lexer.Token) (ok bool) {
	defer func() { recover() }()
	t.NumberConstant()
	return true
}

func H_C01_any() {
	lexTotal(anyText("c", vsym.Param("N")))
}

// after a prefix that puts the lexer inside a construct
func H_C01_in() {
	pre := []string{"'", "\"\\", "/*", "/* *", "//", "0x", "0b1_", "1.", "1e", "1e+", "#", "a", "..", "??", ">>", "<<", "1_", "0o7", ".5", "as"}
	p := pre[vsym.Pick("prefix", len(pre))]
	rs := append([]rune(p), anyText("c", vsym.Param("N"))...)
	vsym.Noteq("text", string(rs))
	lexTotal(rs)
}

// regular expressions: ReLex after a division token
func H_C01_regex() {
	rs := append([]rune{'/'}, anyText("c", vsym.Param("N"))...)
	l := newLexer(rs)
	s := lexOne(l)
	if s.err != nil || s.bad || (s.tok.Type != lexer.TokenPunctuatorDiv && s.tok.Type != lexer.TokenPunctuatorDivAssign) {
		return
	}
	_, e := relexOne(l)
	vsym.Assert(!e.bad, "lexing fails with something other than a syntax error")
	if e.err != nil {
		vsym.Assert(vsym.And(e.loc.Row >= 1, e.loc.Column >= 1), "syntax error without a source location")
		vsym.Reach("error")
		return
	}
	vsym.Reach("regex")
	for i := 0; ; i++ {
		vsym.Assert(i <= len(rs), "more tokens than characters")
		s := lexOne(l)
		vsym.Assert(!s.bad, "lexing fails with something other than a syntax error")
		if s.err != nil || s.tok.Type == lexer.TokenNone {
			return
		}
	}
}

// C02: tokens and trivia reproduce the source.
func lexRoundTrip(rs []rune) {
	toks, failed, _ := lexAll(rs)
	if failed {
		return
	}
	pos := 0
	for _, t := range toks {
		pos, _, _ = skipTrivia(rs, pos)
		src := []rune(t.Source())
		vsym.Assert(len(src) > 0, "token with empty source text")
		vsym.Assert(pos+len(src) <= len(rs), "tokens hold more characters than the source")
		vsym.Assert(runesEq(rs[pos:pos+len(src)], string(src)), "token text differs from the source")
		pos += len(src)
	}
	end, _, open := skipTrivia(rs, pos)
	vsym.Assert(end == len(rs) && !open, "characters of the source are in no token")
	vsym.Reach("accepted")
}

func H_C02_any() {
	lexRoundTrip(anyText("c", vsym.Param("N")))
}

func H_C02_in() {
	pre := []string{"'", "/*", "/* *", "//", "0x", "0b1", "1.", "1e", "1e+", "#", "a", "??", ">>", "<<", "1_", "0o7", ".5", "''", "0", "/**/"}
	p := pre[vsym.Pick("prefix", len(pre))]
	rs := append([]rune(p), anyText("c", vsym.Param("N"))...)
	vsym.Noteq("text", string(rs))
	lexRoundTrip(rs)
}

func H_C02_regex() {
	rs := append([]rune{'/'}, anyText("c", vsym.Param("N"))...)
	l := newLexer(rs)
	s := lexOne(l)
	if s.err != nil || s.bad || (s.tok.Type != lexer.TokenPunctuatorDiv && s.tok.Type != lexer.TokenPunctuatorDivAssign) {
		return
	}
	re, e := relexOne(l)
	if e.err != nil || e.bad {
		return
	}
	src := []rune(re.Source())
	vsym.Assert(len(src) <= len(rs) && runesEq(rs[:len(src)], string(src)), "regular expression text differs from the source")
	pos := len(src)
	for {
		s := lexOne(l)
		if s.err != nil || s.bad {
			return
		}
		if s.tok.Type == lexer.TokenNone {
			break
		}
		pos, _, _ = skipTrivia(rs, pos)
		src := []rune(s.tok.Source())
		vsym.Assert(pos+len(src) <= len(rs), "tokens hold more characters than the source")
		vsym.Assert(runesEq(rs[pos:pos+len(src)], string(src)), "token text differs from the source")
		pos += len(src)
	}
	end, _, open := skipTrivia(rs, pos)
	vsym.Assert(end == len(rs) && !open, "characters of the source are in no token")
	vsym.Reach("regex")
}

// C03: punctuators.

// refPunct is the longest punctuator at i, if any.
func refPunct(rs []rune, i int) (punct, bool) {
	for _, p := range puncts {
		n := len(p.s)
		if i+n > len(rs) {
			continue
		}
		ok := true
		for k := 0; k < n && ok; k++ {
			ok = rs[i+k] == rune(p.s[k])
		}
		if !ok {
			continue
		}
		if p.t == lexer.TokenPunctuatorOptionalChain && i+2 < len(rs) && refDigit(rs[i+2]) {
			continue
		}
		if p.t == lexer.TokenPunctuatorDot && i+1 < len(rs) && (refDigit(rs[i+1]) || rs[i+1] == '.') {
			return punct{}, false
		}
		return p, true
	}
	return punct{}, false
}

func lexPuncts(rs []rune) {
	l := newLexer(rs)
	pos := 0
	for k := 0; k <= len(rs); k++ {
		start, _, open := skipTrivia(rs, pos)
		p, is := refPunct(rs, start)
		s := lexOne(l)
		if open {
			return
		}
		if is {
			vsym.Assert(s.err == nil && !s.bad, "a punctuator is rejected")
			vsym.Assert(s.tok.Type == p.t, "a punctuator is reported as another token")
			vsym.Reach("punct")
			pos = start + len(p.s)
			continue
		}
		if s.err != nil || s.bad || s.tok.Type == lexer.TokenNone {
			return
		}
		vsym.Assert(!isPunctType(s.tok.Type), "a punctuator is reported where none stands")
		pos = start + len([]rune(s.tok.Source()))
	}
}

func isPunctType(t lexer.TokenType) bool {
	for _, p := range puncts {
		if p.t == t {
			return true
		}
	}
	return false
}

func H_C03_any() { lexPuncts(anyText("c", vsym.Param("N"))) }

func H_C03_puncts() {
	lexPuncts(textOver("c", vsym.Param("N"), "{([])}.;,<>+-*/%&|^!~?:=0a "))
}

// the long punctuators in depth
func H_C03_angle() {
	lexPuncts(textOver("c", vsym.Param("N"), "<>=?.!&*1"))
}

// C04: line break flags.
func lexNewLines(rs []rune) {
	l := newLexer(rs)
	pos := 0
	for k := 0; k <= len(rs); k++ {
		start, nl, open := skipTrivia(rs, pos)
		s := lexOne(l)
		if s.err != nil || s.bad || open {
			return
		}
		if nl {
			vsym.Reach("break")
			vsym.Assert(s.tok.NewLine, "a line break before a token is not reported")
		} else {
			vsym.Reach("none")
			vsym.Assert(!s.tok.NewLine, "a line break is reported where there is none")
		}
		if s.tok.Type == lexer.TokenNone {
			return
		}
		pos = start + len([]rune(s.tok.Source()))
	}
}

func H_C04_any() { lexNewLines(anyText("c", vsym.Param("N"))) }

// comments: two tokens around trivia made of comment characters and arbitrary ones
func H_C04_trivia() {
	n := vsym.Param("N")
	mid := make([]rune, n)
	for i := range mid {
		mid[i] = vsym.Rune("m" + itoa(i))
		c := mid[i]
		vsym.Assume(vsym.Or(c == '/', vsym.Or(c == '*', vsym.Or(c == 'b', vsym.Or(c == ' ', vsym.Or(vsym.Or(c == 10, c == 13), vsym.Or(c == 0x2028, c == 0x2029)))))))
	}
	rs := append(append([]rune("a"), mid...), 'z', ';')
	vsym.Noteq("text", string(rs))
	lexNewLines(rs)
}

// C05: identifiers and keywords.

// refWord is the end of the identifier that starts at i, or i.
func refWord(rs []rune, i int) int {
	if i >= len(rs) || !refIDStart(rs[i]) {
		return i
	}
	i++
	for i < len(rs) && refIDContinue(rs[i]) {
		i++
	}
	return i
}

func startsToken(rs []rune, i int) bool {
	r := rs[i]
	ok := refDigit(r)
	ok = vsym.Or(ok, vsym.Or(r == '\'', r == '"'))
	ok = vsym.Or(ok, vsym.Or(r == '#', refIDStart(r)))
	return vsym.Or(ok, inAlphabet(r, "{([])}.;,<>+-*/%&|^!~?:="))
}

func lexWords(rs []rune) {
	l := newLexer(rs)
	pos := 0
	for k := 0; k <= len(rs); k++ {
		start, _, open := skipTrivia(rs, pos)
		s := lexOne(l)
		if open {
			return
		}
		if start < len(rs) {
			if end := refWord(rs, start); end > start {
				vsym.Assert(s.err == nil && !s.bad, "an identifier is rejected")
				checkWord(s.tok, rs[start:end])
				pos = end
				continue
			}
			if rs[start] == '#' {
				end := refWord(rs, start+1)
				if end == start+1 {
					vsym.Assert(s.err != nil, "# without a name is accepted")
					return
				}
				vsym.Assert(s.err == nil && !s.bad, "a private name is rejected")
				vsym.Assert(s.tok.Type == lexer.TokenPrivateIdentifier, "a private name is reported as something else")
				vsym.Assert(runesEq(rs[start+1:end], s.tok.Literal), "a private name has another text")
				vsym.Reach("private")
				pos = end
				continue
			}
			if !startsToken(rs, start) {
				vsym.Assert(s.err != nil, "a character that starts no token is accepted")
				vsym.Reach("illegal")
				return
			}
		}
		if s.err != nil || s.bad || s.tok.Type == lexer.TokenNone {
			return
		}
		vsym.Assert(!isWordType(s.tok.Type), "an identifier is reported where none stands")
		pos = start + len([]rune(s.tok.Source()))
	}
}

func isWordType(t lexer.TokenType) bool {
	if t == lexer.TokenIdentifier || t == lexer.TokenPrivateIdentifier {
		return true
	}
	for _, p := range keywords {
		if p.t == t {
			return true
		}
	}
	return false
}

func checkWord(t lexer.Token, word []rune) {
	vsym.Assert(runesEq(word, t.Literal), "an identifier has another text")
	for _, k := range keywords {
		if len(k.s) == len(word) && runesEq(word, k.s) {
			vsym.Reach("keyword")
			vsym.Assert(t.Type == k.t, "a keyword is reported as something else")
			return
		}
	}
	vsym.Reach("identifier")
	vsym.Assert(t.Type == lexer.TokenIdentifier, "an identifier is reported as something else")
}

func H_C05_any() { lexWords(anyText("c", vsym.Param("N"))) }

// every keyword with one character replaced by, or one arbitrary character
// inserted at, any place
func H_C05_near() {
	k := []rune(keywords[vsym.Pick("keyword", len(keywords))].s)
	i := vsym.Pick("place", len(k)+1)
	if vsym.Param("ALL") == 0 {
		vsym.Assume(i == 0 || i == len(k))
	}
	c := vsym.Rune("c")
	var rs []rune
	if i < len(k) && vsym.Conc(vsym.Int("insert", 0, 1)) == 0 {
		rs = append(append(append(rs, k[:i]...), c), k[i+1:]...)
	} else {
		rs = append(append(append(rs, k[:i]...), c), k[i:]...)
	}
	vsym.Noteq("text", string(rs))
	lexWords(rs)
}

func H_C05_exact() {
	k := keywords[vsym.Pick("keyword", len(keywords))]
	priv := vsym.Conc(vsym.Int("private", 0, 1)) == 1
	if priv {
		lexWords([]rune("#" + k.s))
		return
	}
	lexWords([]rune(k.s))
}

// C06: numbers.

const (
	numNone = iota
	numBad
	numRadix
	numDecimal
)

// refDigits skips digits with separators; bad when none or a misplaced separator.
func refDigits(rs []rune, i int, is func(rune) bool) (end int, bad bool) {
	if i >= len(rs) || !is(rs[i]) {
		return i, true
	}
	i++
	for i < len(rs) {
		if is(rs[i]) {
			i++
			continue
		}
		if rs[i] == '_' {
			if i+1 >= len(rs) || !is(rs[i+1]) {
				return i, true
			}
			i += 2
			continue
		}
		break
	}
	return i, false
}

// refNumber scans the numeric literal at i. Literals with a legacy leading
// zero and BigInt suffixes are not described.
func refNumber(rs []rune, i int) (end int, kind int, base int, digits int) {
	n := len(rs)
	if i >= n {
		return i, numNone, 0, 0
	}
	if rs[i] == '0' && i+1 < n {
		b := 0
		var is func(rune) bool
		switch rs[i+1] {
		case 'x', 'X':
			b, is = 16, refHexDigit
		case 'o', 'O':
			b, is = 8, refOctDigit
		case 'b', 'B':
			b, is = 2, refBinDigit
		}
		if b != 0 {
			end, bad := refDigits(rs, i+2, is)
			if bad || numGlued(rs, end) {
				return end, numBad, 0, 0
			}
			return end, numRadix, b, i + 2
		}
	}
	bad := false
	end = i
	if rs[i] == '.' {
		if i+1 >= n || !refDigit(rs[i+1]) {
			return i, numNone, 0, 0
		}
		end, bad = refDigits(rs, i+1, refDigit)
	} else if rs[i] == '0' {
		end = i + 1
		if end < n && rs[end] == '.' {
			end++
			if end < n && refDigit(rs[end]) {
				end, bad = refDigits(rs, end, refDigit)
			}
		}
	} else if refDigit(rs[i]) {
		end, bad = refDigits(rs, i, refDigit)
		if !bad && end < n && rs[end] == '.' {
			end++
			if end < n && refDigit(rs[end]) {
				end, bad = refDigits(rs, end, refDigit)
			}
		}
	} else {
		return i, numNone, 0, 0
	}
	if bad {
		return end, numBad, 0, 0
	}
	if end < n && (rs[end] == 'e' || rs[end] == 'E') {
		end++
		if end < n && (rs[end] == '+' || rs[end] == '-') {
			end++
		}
		end, bad = refDigits(rs, end, refDigit)
		if bad {
			return end, numBad, 0, 0
		}
	}
	if numGlued(rs, end) {
		return end, numBad, 0, 0
	}
	return end, numDecimal, 10, i
}

// numGlued: a literal must not run into an identifier or a digit.
func numGlued(rs []rune, end int) bool {
	return end < len(rs) && vsym.Or(refIDStart(rs[end]), refDigit(rs[end]))
}

func legacyZero(rs []rune, i int) bool {
	return i+1 < len(rs) && vsym.And(rs[i] == '0', vsym.Or(refDigit(rs[i+1]), rs[i+1] == 'n'))
}

func checkNumber(rs []rune) {
	vsym.Assume(vsym.Not(legacyZero(rs, 0)))
	end, kind, base, dig := refNumber(rs, 0)
	if kind == numNone {
		return
	}
	l := newLexer(rs)
	s := lexOne(l)
	vsym.Assert(!s.bad, "a numeric literal makes the lexer fail")
	if kind == numBad {
		vsym.Assert(s.err != nil, "a malformed numeric literal is accepted")
		vsym.Reach("malformed")
		return
	}
	vsym.Assert(s.err == nil, "a numeric literal is rejected")
	vsym.Assert(s.tok.Type == lexer.TokenLiteralNumber, "a numeric literal is reported as something else")
	vsym.Assert(runesEq(rs[:end], s.tok.Literal), "a numeric literal has another text")
	if kind == numRadix {
		v := 0
		for _, c := range rs[dig:end] {
			if c == '_' {
				continue
			}
			v = v*base + digitValue(c)
		}
		vsym.Assert(vsym.SameNumber(s.tok.NumberConstant(), float64(v)), "a radix literal has another value")
		vsym.Reach("radix")
	} else {
		var sb strings.Builder
		for _, c := range rs[dig:end] {
			if c != '_' {
				sb.WriteRune(c)
			}
		}
		f, _ := strconv.ParseFloat(sb.String(), 64)
		vsym.Assert(vsym.SameNumber(s.tok.NumberConstant(), f), "a decimal literal has another value")
		vsym.Reach("decimal")
	}
}

func digitValue(c rune) int {
	if c <= '9' {
		return int(c - '0')
	}
	if c <= 'F' {
		return int(c-'A') + 10
	}
	return int(c-'a') + 10
}

func H_C06_any() {
	n := vsym.Param("N")
	rs := anyText("c", n)
	vsym.Assume(vsym.Or(refDigit(rs[0]), rs[0] == '.'))
	checkNumber(rs)
}

func H_C06_radix() {
	n := vsym.Param("N")
	p := []string{"0x", "0o", "0b", "0X", "0O", "0B"}[vsym.Pick("prefix", 6)]
	rs := append([]rune(p), textOver("c", n, "0123456789aAfFgbB_. ;n")...)
	vsym.Noteq("text", string(rs))
	checkNumber(rs)
}

func H_C06_decimal() {
	n := vsym.Param("N")
	rs := textOver("c", n, "0159_.eE+- ;")
	vsym.Assume(vsym.Or(refDigit(rs[0]), rs[0] == '.'))
	checkNumber(rs)
}

// fixed literals whose value needs more digits than the symbolic bounds hold
func H_C06_large() {
	cases := []struct {
		s string
		v float64
	}{
		{"9007199254740993", 9007199254740992},
		{"0xffffffffffffffff", 18446744073709551615},
		{"0b11111111111111111111111111111111111111111111111111111", 9007199254740991},
		{"1.7976931348623157e308", 1.7976931348623157e308},
		{"5e-324", 5e-324},
		{"1e-400", 0},
		{"123_456.789_1e1_0", 1234567891000000},
	}
	c := cases[vsym.Pick("case", len(cases))]
	vsym.Noteq("text", c.s)
	s := lexOne(newLexer([]rune(c.s)))
	vsym.Assert(s.err == nil && !s.bad && s.tok.Type == lexer.TokenLiteralNumber && s.tok.Literal == c.s, "a numeric literal has another text")
	vsym.Assert(s.tok.NumberConstant() == c.v, "a large literal has another value")
	vsym.Reach("large")
}

// C07: strings.
func checkString(rs []rune) {
	quo := rs[0]
	end := -1
	bad := false
	escape := false
	i := 1
	for i < len(rs) {
		c := rs[i]
		if c == quo {
			end = i + 1
			break
		}
		if c == '\n' || c == '\r' {
			bad = true
			break
		}
		if c == '\\' {
			escape = true
			i++
			if i >= len(rs) {
				break
			}
			if rs[i] == '\r' && i+1 < len(rs) && rs[i+1] == '\n' {
				i++
			}
		}
		i++
	}
	l := newLexer(rs)
	s := lexOne(l)
	vsym.Assert(!s.bad, "a string literal makes the lexer fail")
	if bad || end < 0 {
		vsym.Assert(s.err != nil, "an unterminated string literal is accepted")
		vsym.Reach("unterminated")
		return
	}
	vsym.Assert(s.err == nil, "a string literal is rejected")
	vsym.Assert(s.tok.Type == lexer.TokenLiteralString, "a string literal is reported as something else")
	vsym.Assert(runesEq(rs[:end], s.tok.Literal), "a string literal has another text")
	if !escape {
		vsym.Assert(runesEq(rs[1:end-1], s.tok.StringConstant()), "a string literal has another value")
		vsym.Reach("value")
	} else {
		vsym.Reach("escape")
	}
}

func H_C07_any() {
	n := vsym.Param("N")
	q := []rune("'\"")[vsym.Pick("quote", 2)]
	rs := append([]rune{q}, anyText("c", n)...)
	vsym.Noteq("text", string(rs))
	checkString(rs)
}

// C08: regular expressions.
func relexOne(l *lexer.Lexer) (t lexer.ReToken, s lexStep) {
	done := false
	defer func() {
		r := recover()
		if done {
			return
		}
		s.fill(r)
	}()
	t = l.ReLex()
	done = true
	return
}

func checkRegex(rs []rune) {
	n := len(rs)
	if n > 1 {
		vsym.Assume(vsym.And(rs[1] != '/', rs[1] != '*')) // comments
	}
	i := 1
	closed := false
	class := false
	for i < n {
		c := rs[i]
		if refLineTerm(c) {
			break
		}
		if c == '\\' {
			i++
			if i >= n || refLineTerm(rs[i]) {
				break
			}
		} else if class {
			if c == ']' {
				class = false
			}
		} else if c == '[' {
			class = true
		} else if c == '/' {
			closed = true
			break
		}
		i++
	}
	l := newLexer(rs)
	s := lexOne(l)
	if s.err != nil || s.bad {
		return
	}
	if s.tok.Type != lexer.TokenPunctuatorDiv && s.tok.Type != lexer.TokenPunctuatorDivAssign {
		return
	}
	re, e := relexOne(l)
	vsym.Assert(!e.bad, "a regular expression makes the lexer fail")
	if !closed {
		vsym.Assert(e.err != nil, "an unterminated regular expression is accepted")
		vsym.Reach("unterminated")
		return
	}
	end := i + 1
	for end < n && refIDContinue(rs[end]) {
		end++
	}
	vsym.Assert(e.err == nil, "a regular expression is rejected")
	vsym.Assert(re.Type == lexer.TokenLiteralRegExp, "a regular expression is reported as something else")
	vsym.Assert(runesEq(rs[:end], re.Literal), "a regular expression has another text")
	vsym.Assert(runesEq(rs[1:i], re.Pattern), "a regular expression has another pattern")
	vsym.Assert(runesEq(rs[i+1:end], re.Flags), "a regular expression has other flags")
	vsym.Reach("regex")
	// what follows is left for the next token
	next, _, open := skipTrivia(rs, end)
	s = lexOne(l)
	if !open && s.err == nil && !s.bad {
		if next >= n {
			vsym.Assert(s.tok.Type == lexer.TokenNone, "a token after the end of input")
		} else {
			src := []rune(s.tok.Source())
			vsym.Assert(next+len(src) <= n && runesEq(rs[next:next+len(src)], string(src)), "the token after a regular expression starts elsewhere")
		}
	}
}

func H_C08_any() {
	rs := append([]rune{'/'}, anyText("c", vsym.Param("N"))...)
	vsym.Noteq("text", string(rs))
	checkRegex(rs)
}

func H_C08_deep() {
	rs := append([]rune{'/'}, textOver("c", vsym.Param("N"), "/\\[]a=\n")...)
	vsym.Noteq("text", string(rs))
	checkRegex(rs)
}

// C09: positions.
func refLoc(rs []rune, i int) (row, col int) {
	row, col = 1, 1
	for _, c := range rs[:i] {
		if refLineTerm(c) {
			row++
			col = 1
		} else {
			col++
		}
	}
	return
}

func H_C09_scanner() {
	n, k := vsym.Param("N"), vsym.Param("K")
	rs := anyText("c", n)
	s := lexer.NewScanner(newReader(rs), nil)
	pos := 0
	back := -1 // position an unread returns to
	ops := ""
	for i := 0; i < k; i++ {
		if back >= 0 && vsym.Bool("unread"+itoa(i)) {
			s.Unread()
			pos = back
			back = -1
			ops += "u"
			vsym.Reach("unread")
		} else {
			c := s.Read()
			back = pos
			if pos < n {
				vsym.Assert(c == rs[pos], "another character is read")
				pos++
			} else {
				vsym.Assert(c == lexer.EOFRune, "a character is read after the end of input")
				vsym.Reach("eof")
			}
			ops += "r"
		}
		row, col := refLoc(rs, pos)
		loc := s.Location()
		vsym.Assert(loc.Row == row, "the row differs")
		vsym.Assert(loc.Column == col, "the column differs")
	}
	vsym.Noteq("ops", ops)
}

// the lexer's location after every token is the position after its text
func H_C09_lexer() { lexPositions(anyText("c", vsym.Param("N"))) }

func lexPositions(rs []rune) {
	l := newLexer(rs)
	pos := 0
	for k := 0; k <= len(rs); k++ {
		s := lexOne(l)
		if s.err != nil || s.bad {
			return
		}
		start, _, _ := skipTrivia(rs, pos)
		if s.tok.Type == lexer.TokenNone {
			pos = len(rs)
		} else {
			pos = start + len([]rune(s.tok.Source()))
			if pos > len(rs) {
				pos = len(rs)
			}
		}
		row, col := refLoc(rs, pos)
		loc := l.Location()
		vsym.Assert(loc.Row == row, "the row after a token differs")
		vsym.Assert(loc.Column == col, "the column after a token differs")
		vsym.Reach("token")
		if s.tok.Type == lexer.TokenNone {
			return
		}
	}
}

// C10: source texts lex back.
func relexes(t lexer.Token) {
	src := []rune(t.Source())
	l := newLexer(src)
	s := lexOne(l)
	vsym.Assert(s.err == nil && !s.bad, "the source text of a token is rejected")
	if t.Type == lexer.TokenLiteralRegExp {
		re, e := relexOne(l)
		vsym.Assert(e.err == nil && !e.bad, "the source text of a token is rejected")
		s.tok = re.Token
	}
	vsym.Assert(s.tok.Type == t.Type, "the source text of a token is another token")
	vsym.Assert(vsym.EqStr(s.tok.Literal, t.Literal), "the source text of a token has another literal")
	e := lexOne(l)
	vsym.Assert(e.err == nil && !e.bad && e.tok.Type == lexer.TokenNone, "the source text of a token holds more than the token")
}

func H_C10_any() {
	toks, failed, _ := lexAll(anyText("c", vsym.Param("N")))
	if failed {
		return
	}
	for _, t := range toks {
		relexes(t)
		vsym.Reach("token")
	}
}

func H_C10_types() {
	i := vsym.Pick("type", len(puncts)+len(keywords))
	if i < len(puncts) {
		p := puncts[i]
		t := lexer.Token{Type: p.t}
		vsym.Assert(t.Source() == p.s, "the source text of a punctuator differs")
		relexes(t)
		vsym.Reach("punct")
		return
	}
	k := keywords[i-len(puncts)]
	t := lexer.Token{Type: k.t, Literal: k.s}
	vsym.Assert(t.Source() == k.s, "the source text of a keyword differs")
	relexes(t)
	vsym.Reach("keyword")
}

func H_C10_regex() {
	rs := append([]rune{'/'}, textOver("c", vsym.Param("N"), "/\\[]a=\n")...)
	l := newLexer(rs)
	s := lexOne(l)
	if s.err != nil || s.bad || (s.tok.Type != lexer.TokenPunctuatorDiv && s.tok.Type != lexer.TokenPunctuatorDivAssign) {
		return
	}
	re, e := relexOne(l)
	if e.err != nil || e.bad {
		return
	}
	relexes(re.Token)
	vsym.Reach("regex")
}

// C11: UTF-16.
func H_C11_runes() { utf16Of(anyText("c", vsym.Param("N"))) }

func utf16Of(rs []rune) {
	got := lexer.EncodeUTF16(string(rs))
	k := 0
	for _, r := range rs {
		if r < 0x10000 {
			vsym.Assert(k < len(got), "a unit is missing")
			vsym.Assert(rune(got[k]) == r, "a unit differs")
			k++
			vsym.Reach("bmp")
			continue
		}
		vsym.Assert(k+1 < len(got), "a surrogate is missing")
		hi, lo := rune(got[k]), rune(got[k+1])
		vsym.Assert(vsym.And(hi >= 0xd800, hi <= 0xdbff), "not a high surrogate")
		vsym.Assert(vsym.And(lo >= 0xdc00, lo <= 0xdfff), "not a low surrogate")
		vsym.Assert((hi-0xd800)*0x400+(lo-0xdc00)+0x10000 == r, "a surrogate pair decodes to another character")
		k += 2
		vsym.Reach("pair")
	}
	vsym.Assert(k == len(got), "there are more units")
}

// arbitrary bytes, also invalid UTF-8
func H_C11_bytes() {
	b := anyBytes(vsym.Param("N"))
	utf16Bytes(b)
}

// starting with the lead of a four-byte sequence
func H_C11_lead() {
	b := anyBytes(vsym.Param("N"))
	vsym.Assume(b[0] >= 0xef)
	vsym.Assume(b[1] >= 0x80)
	utf16Bytes(b)
}

func anyBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte("b" + itoa(i))
	}
	return b
}

func utf16Bytes(b []byte) {
	n := len(b)
	if vsym.Native() {
		vsym.Noteq("text", string(b))
	}
	got := lexer.EncodeUTF16(string(b))
	k := 0
	i := 0
	for i < n {
		c, w := refDecode(b, i)
		i += w
		vsym.Assert(k < len(got), "a unit is missing")
		if c < 0x10000 {
			vsym.Assert(rune(got[k]) == c, "a unit differs")
			k++
			continue
		}
		vsym.Assert(k+1 < len(got), "a surrogate is missing")
		vsym.Assert(vsym.And(rune(got[k]) == 0xd800+(c-0x10000)/0x400, rune(got[k+1]) == 0xdc00+(c-0x10000)%0x400), "a surrogate pair differs")
		k += 2
	}
	vsym.Assert(k == len(got), "there are more units")
	vsym.Reach("done")
}

// refDecode decodes one UTF-8 sequence by the table of the Unicode standard
// (3-7); an ill-formed byte is U+FFFD of width 1.
func refDecode(b []byte, i int) (rune, int) {
	b0 := b[i]
	cont := func(k int, lo, hi byte) bool {
		return i+k < len(b) && vsym.And(b[i+k] >= lo, b[i+k] <= hi)
	}
	switch {
	case b0 < 0x80:
		return rune(b0), 1
	case b0 >= 0xc2 && b0 <= 0xdf:
		if cont(1, 0x80, 0xbf) {
			return rune(b0&0x1f)<<6 | rune(b[i+1]&0x3f), 2
		}
	case b0 >= 0xe0 && b0 <= 0xef:
		lo, hi := byte(0x80), byte(0xbf)
		if b0 == 0xe0 {
			lo = 0xa0
		}
		if b0 == 0xed {
			hi = 0x9f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) {
			return rune(b0&0xf)<<12 | rune(b[i+1]&0x3f)<<6 | rune(b[i+2]&0x3f), 3
		}
	case b0 >= 0xf0 && b0 <= 0xf4:
		lo, hi := byte(0x80), byte(0xbf)
		if b0 == 0xf0 {
			lo = 0x90
		}
		if b0 == 0xf4 {
			hi = 0x8f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) {
			return rune(b0&0x7)<<18 | rune(b[i+1]&0x3f)<<12 | rune(b[i+2]&0x3f)<<6 | rune(b[i+3]&0x3f), 4
		}
	}
	return 0xfffd, 1
}
