package harness

import (
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Long inputs: constructs of a fixed, large size with arbitrary characters at
// one place, so that what depends on the size (a buffer, a counter, a limit)
// is reached by the same judgements as the short texts.

// longParts are the beginning, the repeated unit, and the end of constructs.
var longParts = []struct{ name, open, unit, end string }{
	{"identifier", "", "a", ""},
	{"private", "#", "b", ""},
	{"string", "'", "a", "'"},
	{"escapes", "\"", "\\n", "\""},
	{"decimal", "", "1", ""},
	{"fraction", ".", "2", ""},
	{"separated", "1", "_1", "e5"},
	{"exponent", "1e", "1", ""},
	{"hex", "0x", "f", ""},
	{"octal", "0o", "7", ""},
	{"binary", "0b", "1", ""},
	{"line", "//", "a", "\n"},
	{"block", "/*", "*a", "*/"},
	{"lines", "/*", "a\n", "*/"},
	{"blanks", "", " ", ""},
	{"breaks", "", "\n", ""},
	{"mixed", "", "\r\n\t", ""},
	{"tokens", "", "a+", ""},
	{"rows", "", "a;\n", ""},
	{"puncts", "", "(", ""},
	{"comments", "", "/**/", ""},
	{"regex", "/", "a", "/g"},
	{"class", "/[", "/", "]/"},
	{"escaped", "/", "\\/", "/"},
	{"flags", "/a/", "g", ""},
}

// longText is a construct of a picked size, chosen by name, with n arbitrary
// code points in the middle or before its end, and followed by a token.
func longText(names string, n int) []rune {
	var of []int
	for i, p := range longParts {
		if names == "" || oneOf(p.name, words(names)) {
			of = append(of, i)
		}
	}
	p := longParts[of[vsym.Pick("construct", len(of))]]
	size := []int{vsym.Param("L"), vsym.Param("M")}[vsym.Pick("size", 2)]
	at := []int{size, size / 2}[vsym.Pick("at", 2)]
	rs := []rune(p.open)
	for i := 0; i <= size; i++ {
		if i == at {
			rs = append(rs, anyText("c", n)...)
		}
		if i < size {
			rs = append(rs, []rune(p.unit)...)
		}
	}
	rs = append(rs, []rune(p.end+" z")...)
	vsym.Noteq("text", string(rs))
	return rs
}

const longTokens = "identifier private string escapes decimal fraction separated exponent hex octal binary line block lines blanks breaks mixed tokens rows puncts comments"
const longTrivia = "line block lines blanks breaks mixed comments rows string"
const longRegexes = "regex class escaped flags"
const longNumbers = "decimal fraction separated exponent hex octal binary"

func H_C01_long() { lexTotal(longText(longTokens, vsym.Param("N"))) }
func H_C02_long() { lexRoundTrip(longText(longTokens, vsym.Param("N"))) }
func H_C03_long() {
	lexPuncts(longText("tokens rows puncts line block comments blanks", vsym.Param("N")))
}
func H_C04_long() { lexNewLines(longText(longTrivia+" tokens identifier", vsym.Param("N"))) }
func H_C05_long() { lexWords(longText("identifier private tokens string block", vsym.Param("N"))) }
func H_C06_long() {
	rs := longText(longNumbers, vsym.Param("N"))
	end, kind, _, _ := refNumber(rs, 0)
	if kind == numRadix && end > 14 {
		// the value needs more digits than integers hold; the text remains
		s := lexOne(newLexer(rs))
		vsym.Assert(s.err == nil && !s.bad && s.tok.Type == lexer.TokenLiteralNumber, "a numeric literal is rejected")
		vsym.Assert(runesEq(rs[:end], s.tok.Literal), "a numeric literal has another text")
		vsym.Reach("radix")
		return
	}
	checkNumber(rs)
}
func H_C07_long() { checkString(longText("string escapes", vsym.Param("N"))) }
func H_C08_long() { checkRegex(longText(longRegexes, vsym.Param("N"))) }
func H_C09_long() { lexPositions(longText(longTokens, vsym.Param("N"))) }
func H_C10_long() {
	rs := longText(longTokens, vsym.Param("N"))
	toks, _, _ := lexAll(rs)
	for i, t := range toks {
		if i < 2 || i > len(toks)-4 {
			relexes(t)
		}
	}
	vsym.Reach("token")
}

// C11 over long texts.
func H_C11_long() {
	size := []int{vsym.Param("L"), vsym.Param("M")}[vsym.Pick("size", 2)]
	unit := []string{"a", "\u00e9", "\u2028", "\U0001f600"}[vsym.Pick("unit", 4)]
	at := []int{size, size / 2, 0}[vsym.Pick("at", 3)]
	var rs []rune
	for i := 0; i <= size; i++ {
		if i == at {
			rs = append(rs, anyText("c", vsym.Param("N"))...)
		}
		if i < size {
			rs = append(rs, []rune(unit)...)
		}
	}
	utf16Of(rs)
}

// C12: looking far ahead.
func H_C12_far() {
	var rs []rune
	for i := 0; i < 60; i++ {
		rs = append(rs, []rune([]string{"a", " 1", "\n;", "'x'"}[i%4])...)
	}
	dists := []int{0, 1, 7, 8, 15, 16, 31, 32, 33, 50}
	k := vsym.Param("K")
	l := newLexer(rs)
	var toks []lexer.Token
	for i := 0; i < 60+1; i++ {
		toks = append(toks, lexOne(l).tok)
	}
	s := parser.NewScanner(newLexer(rs))
	scanned, ahead := 0, 0
	at := func(i int) lexer.Token {
		if i >= len(toks) {
			i = len(toks) - 1
		}
		return toks[i]
	}
	ops := ""
	for i := 0; i < k; i++ {
		d := dists[vsym.Pick("distance"+itoa(i), len(dists))]
		if vsym.Pick("op"+itoa(i), 2) == 0 {
			t := s.PeekAt(d)
			vsym.Assert(sameTok(t, at(scanned+d)), "peeking shows another token")
			if ahead < d+1 {
				ahead = d + 1
			}
			vsym.Reach("peek")
			ops += "p" + itoa(d) + " "
		} else {
			for j := 0; j < d; j++ {
				vsym.Assert(sameTok(s.Scan(), at(scanned)), "scanning gives another token")
				scanned++
				if ahead > 0 {
					ahead--
				}
			}
			vsym.Reach("scan")
			ops += "s" + itoa(d) + " "
		}
		vsym.Assert(s.PeekLen() == ahead, "the lookahead length differs")
	}
	vsym.Noteq("ops", ops)
}
