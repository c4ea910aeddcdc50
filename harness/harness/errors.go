package harness

import (
	"errors"
	"io"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Texts that use every construct of the lexer and the parser.
var sampleTexts = []string{
	"a\n+ 1.5e-3 'x\\n' /re[/]\\//g\nb;/* *\n/ */c // d\n?.e",
	"var a = b ? c : d, [e] = f; let x\nconst y = 1",
	"if (a) b; else c\nwhile (d) { e++ }",
	"for (var i = 0; i < 1; ++i) ; do x(); while (y)",
	"function f(a, b = 1, ...c) { return a\n}",
	"class A { static m() {} get [b]() { return 1 } }",
	"try { throw a } catch (e) { } finally { ; }",
	"switch (a) { case 1: break; default: b }",
	"x => y, (a, [b]) => ({ c, d: e, get f() {} })",
	"async (a, b) => a ?? b; async x => x; async(a)",
	"new a.b(c)[d] ? .1 : 0x1f + 0b1_0 ** 0o7",
	"import a, { b as c } from 'd';\nimport * as e from \"f\"",
	"'use strict'; a: b >>>= c /= d / e",
	"a\u2028b\u2029c\rd\r\ne\ufefff \u00e9\U00010400",
}

func parseFrom(l *lexer.Lexer, mode parser.ParseMode) (r parseResult) {
	r.tree, r.err = parser.NewParser(l).Parse(parser.ParseOptions{Mode: mode})
	return
}

// flakyReader fails at a position, once or always.
type flakyReader struct {
	runeReader
	once   bool
	failed bool
}

func (r *flakyReader) ReadRune() (rune, int, error) {
	if r.i == r.failAt && !(r.once && r.failed) {
		r.can = false
		r.failed = true
		return 0, 0, r.err
	}
	return r.runeReader.ReadRune()
}

// codeError is an error a reader may fail with.
type codeError struct{ code int }

func (e *codeError) Error() string { return "read error " + itoa(e.code) }

// failing parses a text whose reader fails at or after a position.
func failing(rs []rune, from int) {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	r := &flakyReader{}
	r.rs = rs
	r.failAt = from + vsym.Pick("failAt", len(rs)+1-from)
	r.once = vsym.Pick("once", 2) == 1
	switch vsym.Pick("error", 3) {
	case 0:
		r.err = &codeError{code: vsym.Int("code", 0, 9)}
	case 1:
		r.err = io.ErrUnexpectedEOF
	case 2:
		r.err = &errs.SyntaxError{Location: ast.Location{Row: 1, Column: 1}, Err: errors.New("no syntax error")}
	}
	l := lexer.NewLexer(lexer.NewScanner(r, nil))
	var res parseResult
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		res = parseFrom(l, mode)
		return true
	}()
	vsym.Assert(ok, "a panic")
	if !r.failed {
		vsym.Reach("unread")
		return
	}
	vsym.Reach("failed")
	vsym.Assert(res.tree == nil, "a tree in spite of a read error")
	e, isEnc := res.err.(*errs.EncodingError)
	vsym.Assert(isEnc, "a read error became another error")
	vsym.Assert(e.Err == r.err, "another error is wrapped")
	vsym.Assert(errors.Unwrap(res.err) == r.err, "the read error can not be unwrapped")
	vsym.Assert(errors.Is(res.err, r.err), "errors.Is does not find the read error")
}

func H_C14_samples() {
	t := sampleTexts[vsym.Pick("text", len(sampleTexts))]
	vsym.Noteq("text", t)
	failing([]rune(t), 0)
}

func H_C14_any() { failing(anyText("c", vsym.Param("N")), 0) }

// H_C14_in: after a token sequence the parser accepts so far.
func H_C14_in() {
	t := sampleTexts[vsym.Pick("text", len(sampleTexts))]
	rs := []rune(t)
	n := vsym.Param("N")
	step := vsym.Param("STEP")
	cut := vsym.Pick("cut", len(rs)/step+1) * step
	rs = append(append([]rune{}, rs[:cut]...), anyText("c", n)...)
	vsym.Noteq("text", string(rs))
	failing(rs, cut)
}

// C23: where syntax errors point.

// before is whether location a lies before b.
func before(a, b ast.Location) bool {
	return vsym.Or(a.Row < b.Row, vsym.And(a.Row == b.Row, a.Column < b.Column))
}

// inside checks that a location lies inside a text.
func inside(loc ast.Location, rs []rune) {
	row, col := 1, 1
	width := 0 // columns of the location's row
	for _, r := range rs {
		nl := refLineTerm(r)
		width = vsym.IteInt(vsym.And(nl, row == loc.Row), col, width)
		col = vsym.IteInt(nl, 1, col+1)
		row = row + vsym.IteInt(nl, 1, 0)
	}
	width = vsym.IteInt(row == loc.Row, col, width)
	vsym.Assert(loc.Row >= 1, "a row before the first")
	vsym.Assert(loc.Row <= row, "a row after the last")
	vsym.Assert(loc.Column >= 1, "a column before the first")
	vsym.Assert(loc.Column <= width, "a column after the last")
}

func located(rs []rune) {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	r := parseFrom(newLexer(rs), mode)
	if r.err == nil {
		return
	}
	e, ok := r.err.(*errs.SyntaxError)
	if !ok {
		return
	}
	vsym.Reach("syntax error")
	inside(e.Location, rs)
}

func H_C23_any() { located(anyText("c", vsym.Param("N"))) }

func H_C23_samples() {
	if rs, ok := nearSample(); ok {
		located(rs)
	}
}

// nearSample is a sample text with N arbitrary characters put between or in
// the place of one of its own.
func nearSample() ([]rune, bool) {
	t := sampleTexts[vsym.Pick("text", len(sampleTexts))]
	rs := []rune(t)
	n := vsym.Param("N")
	step := vsym.Param("STEP")
	cut := vsym.Pick("cut", len(rs)/step+1) * step
	drop := vsym.Pick("drop", 2)
	if cut+drop > len(rs) {
		return rs, false
	}
	g := append(append([]rune{}, rs[:cut]...), anyText("c", n)...)
	g = append(g, rs[cut+drop:]...)
	vsym.Noteq("text", string(g))
	return g, true
}

// locatedTokens checks the location of an error in a sequence of tokens, of
// which the first same begin a program.
func locatedTokens(s *tokSource, same int, mode parser.ParseMode) {
	s.track = true
	r := s.parse(mode)
	if r.err == nil {
		return
	}
	e, ok := r.err.(*errs.SyntaxError)
	if !ok {
		return
	}
	vsym.Reach("syntax error")
	all := &tokSource{toks: s.toks, track: true, row: 1, col: 1}
	ends := all.allEnds()
	start := ast.Location{Row: 1, Column: 1}
	at := func(i int) ast.Location {
		if i <= 0 {
			return start
		}
		return ends[i-1]
	}
	if same > 0 {
		// such a word may be the offending token because of what follows it
		t := &s.toks[same-1]
		if t.typ() == lexer.TokenKeywordLet || t.typ() == lexer.TokenKeywordAsync {
			same--
		}
	}
	vsym.Assert(vsym.Not(before(e.Location, at(same))), "an error before the tokens it follows")
	vsym.Assert(vsym.Not(before(at(len(s.toks)), e.Location)), "an error after the last token")
}

// allEnds is where each token ends.
func (s *tokSource) allEnds() []ast.Location {
	var ls []ast.Location
	for i := range s.toks {
		s.pos = i
		s.advance(s.toks[i].nl, s.toks[i].srcLen())
		ls = append(ls, s.Location())
	}
	return ls
}

// H_C23_near: a program with tokens replaced, put between or (K = 0) deleted.
func H_C23_near() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	k := vsym.Param("K")
	base := &tokSource{}
	base.frame(f)
	same := vsym.Pick("at", len(base.toks)+1)
	drop := 1
	if k > 0 {
		drop = vsym.Pick("drop", 2) * k
	}
	if same+drop > len(base.toks) {
		return
	}
	s := &tokSource{}
	s.toks = append(s.toks, base.toks[:same]...)
	for i := 0; i < k; i++ {
		s.anyBreak(fullVoc)
	}
	s.toks = append(s.toks, base.toks[same+drop:]...)
	if base.parse(mode).err != nil {
		return
	}
	locatedTokens(s, same, mode)
}
