package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Harnesses that parse texts: the real lexer reads what is between tokens, or
// how one of them is spelled, character by character.

// separate is whether two tokens may touch.
func separate(s *tokSource, i int) bool {
	apart := func(t *ttok) bool { return oneOf(t.source(), words("( ) [ ] { } ; , :")) }
	return i == 0 || i == len(s.toks) || apart(&s.toks[i-1]) || apart(&s.toks[i])
}

// trivia is white space, line terminators and comments with n arbitrary
// characters, and whether a line terminator is among them.
func trivia(n int, touch, last bool) (rs []rune, nl bool) {
	x := make([]rune, n)
	for i := range x {
		x[i] = vsym.Rune("c" + itoa(i))
	}
	open := []string{"", "/*", "//"}[vsym.Pick("trivia", 3)]
	rs = append(rs, []rune(open)...)
	switch open {
	case "":
		if vsym.Pick("none", 2) == 1 {
			vsym.Assume(touch)
			return nil, false
		}
		for _, c := range x {
			vsym.Assume(refWhiteSpace(c) || refLineTerm(c))
		}
		rs = append(rs, x...)
	case "/*":
		rs = append(rs, x...)
		rs = append(rs, '*', '/')
		if vsym.Pick("before", 2) == 1 {
			rs = append([]rune(" "), rs...)
		}
	case "//":
		rs = append(rs, x...)
		if !last {
			c := vsym.Rune("end")
			vsym.Assume(refLineTerm(c))
			rs = append(rs, c)
		}
	}
	end, nl, unclosed := skipTrivia(rs, 0)
	vsym.Assume(end == len(rs) && !unclosed)
	return rs, nl
}

// layout puts arbitrary trivia at one place of a program.
func (s *tokSource) layout(n int) {
	s.real = true
	at := vsym.Pick("gap", len(s.toks)+1)
	rs, nl := trivia(n, separate(s, at), at == len(s.toks))
	s.lead = map[int][]rune{at: rs}
	if at < len(s.toks) {
		s.toks[at].nl = nl
	}
}

// Every program of a corpus with arbitrary trivia at one place.
func corpusLayout(want int) {
	f, mode := corpus(vsym.Param("C"), 1)
	s := &tokSource{}
	s.frame(f)
	s.layout(vsym.Param("N"))
	plain := &tokSource{toks: append([]ttok{}, s.toks...)}
	p := plain.parse(mode) // assumes that regular expressions are where they can be
	r := s.parse(mode)
	if want != 0 {
		judge(want, r, s)
		return
	}
	vsym.Assert((p.err == nil) == (r.err == nil), "the layout decides whether a program is accepted")
	if r.err != nil {
		vsym.Reach("error")
		return
	}
	vsym.Reach("tree")
	a, _ := vsym.Tree(p.tree.ESTree())
	b, _ := vsym.Tree(r.tree.ESTree())
	sameDoc(b, a)
}

func H_C15_layout() { corpusLayout(wantTokens) }
func H_C16_layout() { corpusLayout(wantLevels) }
func H_C17_layout() { corpusLayout(wantSemis) }
func H_C18_layout() { corpusLayout(wantNames) }
func H_C20_layout() { corpusLayout(wantConvert) }
func H_C21_layout() { corpusLayout(wantESTree) }
func H_C27_layout() { corpusLayout(0) }

// spelledFrames have the token whose spelling is arbitrary as S.
var spelledFrames = []string{
	"S",
	"X B S",
	"( S )",
	"X ( S , S )",
	"[ S ]",
	"( { W : S } )",
	"( { S : X } )",
	"( { S ( ) { } , get S ( ) { } } )",
	"( { S : S } )",
	"U S",
	"S ? S : S",
	"( <id> = S ) => S",
	"X [ S ]",
	"S . W",
}

var spelledNames = []string{
	"S = X",
	"S ++",
	"X . S",
	"X ?. S . S",
	"S => S",
	"( S ) => X",
	"( { S } ) => X",
	"( ... S ) => X",
	"async S => X",
	"( { S } )",
	"( function S ( ) { } )",
	"( class S { S ( ) { } } )",
	"new S",
	"S ( )",
}

var spelledStmts = []string{
	"S : ;",
	"S : for ( ; ; ) { break S ; continue S }",
	"var S , { S , <id> : S } = X",
	"let S",
	"function S ( S ) { return S }",
	"class S extends S { }",
	"try { } catch ( S ) { }",
	"for ( var S of S ) ;",
}

// spelled appends a token of arbitrary spelling: 0 a name, 1 a string, 2 a
// number, 3 a regular expression.
func (s *tokSource) spelled(kind int, chars []rune) {
	switch kind {
	case 0:
		s.word(wIdent)
	case 1:
		s.word(wString)
	case 2:
		s.word(wNumber)
	case 3:
		s.word(wRegex)
	}
	t := &s.toks[len(s.toks)-1]
	t.chars = chars
}

// spelling is an arbitrary spelling with n arbitrary characters.
func spelling(kind, n int) (rs []rune) {
	x := make([]rune, n)
	for i := range x {
		x[i] = vsym.Rune("c" + itoa(i))
	}
	switch kind {
	case 0:
		vsym.Assume(refIDStart(x[0]))
		for _, c := range x[1:] {
			vsym.Assume(refIDContinue(c))
		}
		for _, w := range words("do if in") {
			vsym.Assume(string(x) != w)
		}
		return x
	case 1:
		q := []rune{'"', '\''}[vsym.Pick("quote", 2)]
		for _, c := range x {
			vsym.Assume(c != q && c != '\\' && c != '\n' && c != '\r')
		}
		rs = append(rs, q)
		rs = append(rs, x...)
		return append(rs, q)
	case 2:
		f := []string{"ddd", "d.d", ".d", "d.", "0xhh", "0bbb", "0ooo", "ded", "d_d"}[vsym.Pick("format", 9)]
		k := 0
		base := f[0] == '0'
		for i, c := range f {
			if i == 1 && base && c == 'b' || i == 1 && base && c == 'o' {
				rs = append(rs, c)
				continue
			}
			set := ""
			switch c {
			case 'd':
				set = "123456789"
				if i > 0 {
					set = "0123456789"
				}
			case 'h':
				set = "0123456789abcdefABCDEF"
			case 'b':
				set = "01"
			case 'o':
				set = "01234567"
			default:
				rs = append(rs, c)
				continue
			}
			if k == n {
				rs = append(rs, rune(set[1]))
				continue
			}
			rs = append(rs, rune(set[vsym.Pick("digit"+itoa(k), len(set))]))
			k++
		}
		return rs
	}
	for i, c := range x {
		vsym.Assume(!refLineTerm(c) && c != '/' && c != '[' && c != '\\' && (i > 0 || c != '*'))
	}
	rs = append(rs, '/')
	rs = append(rs, x...)
	return append(rs, '/', 'g', 'i')
}

// Programs with a token of arbitrary spelling.
func spelledProgram(want int) {
	kind := vsym.Param("KIND")
	fs, mode := spelledFrames, parser.ExpressionMode
	switch {
	case kind == 3:
		fs = []string{"S", "X + S", "( S )", "X ( S , S )", "[ S ]", "U S", "S . W", "S ? S : S"}
	case kind == 0:
		switch vsym.Pick("corpus", 3) {
		case 1:
			fs = spelledNames
		case 2:
			fs, mode = spelledStmts, parser.ScriptMode
		}
	}
	chars := spelling(kind, vsym.Param("N"))
	if vsym.Native() {
		vsym.Noteq("spelling", string(chars))
	}
	s := &tokSource{real: true}
	for _, w := range thin(words(fs[vsym.Pick("frame", len(fs))]), 1) {
		if w == "S" {
			s.spelled(kind, chars)
		} else {
			s.word(w)
		}
	}
	r := s.parse(mode)
	if want == wantTokens {
		vsym.Assert(r.err == nil || kind == 0 && mode == parser.ExpressionMode && len(chars) == 2, "a program is rejected for how a token is spelled")
	}
	judge(want, r, s)
}

func H_C15_spelled() { spelledProgram(wantTokens) }
func H_C21_spelled() { spelledProgram(wantESTree) }
