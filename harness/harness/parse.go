package harness

import (
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

var fullVoc = newVoc(allWords())

// typedError is whether an error is one of the documented kinds.
func typedError(err error) bool {
	switch err.(type) {
	case *errs.SyntaxError, *errs.EncodingError, *errs.ParserError:
		return true
	}
	return false
}

// anyTokens is a program of 0 to n tokens out of a vocabulary.
func anyTokens(v *voc, n int) *tokSource {
	s := &tokSource{}
	k := vsym.Pick("len", n+1)
	for i := 0; i < k; i++ {
		s.anyBreak(v)
	}
	return s
}

func totality(s *tokSource, mode parser.ParseMode) { outcome(s.parse(mode)) }

func outcome(r parseResult) {
	if r.err != nil {
		vsym.Assert(r.tree == nil, "a tree and an error")
		vsym.Assert(typedError(r.err), "an untyped error")
		vsym.Reach("error")
	} else {
		vsym.Assert(r.tree != nil, "neither a tree nor an error")
		vsym.Reach("tree")
	}
}

func H_C13_tokens() {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	totality(anyTokens(fullVoc, vsym.Param("N")), mode)
}

func anyJudge(want int) {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	s := anyTokens(fullVoc, vsym.Param("N"))
	judge(want, s.parse(mode), s)
}

func H_C15_any() { anyJudge(wantTokens) }
func H_C16_any() { anyJudge(wantLevels) }
func H_C17_any() { anyJudge(wantSemis) }
func H_C18_any() { anyJudge(wantNames) }
func H_C20_any() { anyJudge(wantConvert) }
func H_C21_any() { anyJudge(wantESTree) }

// totalText is totality for a text.
func totalText(rs []rune) {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	outcome(parseFrom(newLexer(rs), mode))
}

func H_C13_text() { totalText(anyText("c", vsym.Param("N"))) }

// H_C13_samples: sample texts with a character replaced or put between.
func H_C13_samples() {
	rs, _ := nearSample()
	totalText(rs)
}

// H_C13_cut: the beginnings of sample texts.
func H_C13_cut() {
	rs := []rune(sampleTexts[vsym.Pick("text", len(sampleTexts))])
	rs = rs[:vsym.Pick("cut", len(rs)+1)]
	vsym.Noteq("text", string(rs))
	totalText(rs)
}

// H_C13_corpus: every program of a corpus.
func H_C13_corpus() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	s := &tokSource{}
	s.frame(f)
	totality(s, mode)
}

// H_C13_near: programs near those of a corpus.
func H_C13_near() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	g, ok := near(f, vsym.Param("K"))
	if !ok {
		return
	}
	s := &tokSource{}
	s.frame(g)
	totality(s, mode)
}
