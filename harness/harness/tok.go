package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Parser harnesses run the parser over a sequence of symbolic tokens. In the
// engine the lexer's Lex, ReLex and Location are replaced by a tokSource; C01
// to C12 decide what the lexer does with texts. Natively the tokens are
// rendered to text, which the real lexer reads.

// voc is a vocabulary: entry i is a token type with a literal and a spelling.
type voc struct {
	n     int
	types []int
	lits  [][]string // by position modulo maxTok
	srcs  [][]string
	lens  [][]int
	re    int // entry of a regular expression starting with `/`, or -1
	reEq  int // entry of a regular expression starting with `/=`, or -1
}

const maxTok = 40

// special words of vocabulary descriptions
const (
	wIdent   = "<id>"  // identifier aN at position N
	wNumber  = "<num>" // number
	wString  = "<str>" // string literal
	wStrict  = "<us>"  // the directive 'use strict'
	wRegex   = "<re>"  // regular expression
	wRegexEq = "<re=>" // regular expression starting with =
	wPrivate = "<#id>" // private name
)

func tokSpelling(w string, i int) (t lexer.TokenType, lit, src string) {
	n := itoa(i)
	switch w {
	case wIdent:
		return lexer.TokenIdentifier, "a" + n, "a" + n
	case wNumber:
		return lexer.TokenLiteralNumber, "1" + n, "1" + n
	case wString:
		return lexer.TokenLiteralString, "'s" + n + "'", "'s" + n + "'"
	case wStrict:
		return lexer.TokenLiteralString, "'use strict'", "'use strict'"
	case wPrivate:
		return lexer.TokenPrivateIdentifier, "p" + n, "#p" + n
	case wRegex:
		return lexer.TokenPunctuatorDiv, "", "/r" + n + "/g"
	case wRegexEq:
		return lexer.TokenPunctuatorDivAssign, "", "/=r" + n + "/g"
	}
	for _, p := range puncts {
		if p.s == w {
			return p.t, "", w
		}
	}
	for _, k := range keywords {
		if k.s == w {
			return k.t, w, w
		}
	}
	return lexer.TokenIdentifier, w, w
}

func newVoc(words []string) *voc {
	v := &voc{n: len(words), re: -1, reEq: -1}
	for j, w := range words {
		t, _, _ := tokSpelling(w, 0)
		v.types = append(v.types, int(t))
		switch w {
		case wRegex:
			v.re = j
		case wRegexEq:
			v.reEq = j
		}
	}
	for i := 0; i < maxTok; i++ {
		var lits, srcs []string
		var lens []int
		for _, w := range words {
			_, lit, src := tokSpelling(w, i)
			lits = append(lits, lit)
			srcs = append(srcs, src)
			lens = append(lens, len(src))
		}
		v.lits = append(v.lits, lits)
		v.srcs = append(v.srcs, srcs)
		v.lens = append(v.lens, lens)
	}
	return v
}

// words splits a description at blanks.
func words(s string) []string {
	var ws []string
	w := ""
	for _, c := range s {
		if c == ' ' {
			if w != "" {
				ws = append(ws, w)
			}
			w = ""
		} else {
			w += string(c)
		}
	}
	if w != "" {
		ws = append(ws, w)
	}
	return ws
}

func allWords() []string {
	ws := []string{wIdent}
	for _, k := range keywords {
		ws = append(ws, k.s)
	}
	for _, p := range puncts {
		ws = append(ws, p.s)
	}
	return append(ws, wNumber, wString, wStrict, wRegex, wRegexEq, wPrivate)
}

// ttok is one token: entry k of a vocabulary, or a fixed word.
type ttok struct {
	v   *voc
	k   int
	nl  bool
	pos int // spelling position

	fixed bool
	t     lexer.TokenType
	lit   string
	src   string
	isRe  bool
	chars []rune // the spelling, where it is arbitrary
}

func (t *ttok) typ() lexer.TokenType {
	if t.fixed {
		return t.t
	}
	return lexer.TokenType(vsym.SelectInt(t.k, t.v.types))
}

func (t *ttok) literal() string {
	if t.fixed {
		return t.lit
	}
	return vsym.Select(t.k, t.v.lits[t.pos])
}

// source is the spelling.
func (t *ttok) source() string {
	if t.chars != nil {
		return string(t.chars)
	}
	if t.fixed {
		return t.src
	}
	return vsym.Select(t.k, t.v.srcs[t.pos])
}

func (t *ttok) srcLen() int {
	if t.fixed {
		return len(t.src)
	}
	return vsym.SelectInt(t.k, t.v.lens[t.pos])
}

// regex is whether the token spells a regular expression.
func (t *ttok) regex() bool {
	if t.fixed {
		return t.isRe
	}
	return vsym.Or(vsym.And(t.v.re >= 0, t.k == t.v.re), vsym.And(t.v.reEq >= 0, t.k == t.v.reEq))
}

// tokSource replaces the lexer.
type tokSource struct {
	toks   []ttok
	pos    int  // tokens delivered
	relexd bool // the last one was read again as a regular expression
	track  bool // compute locations
	row    int
	col    int
	ends   []ast.Location // with track, where the tokens end

	real bool           // the parser reads the text
	lead map[int][]rune // other text than a blank or a line break before a token
}

func (s *tokSource) add(t ttok) {
	s.toks = append(s.toks, t)
}

// word appends a fixed token.
func (s *tokSource) word(w string) {
	p := len(s.toks)
	t, lit, src := tokSpelling(w, p)
	s.add(ttok{fixed: true, t: t, lit: lit, src: src, isRe: w == wRegex || w == wRegexEq, pos: p % maxTok})
}

// words appends fixed tokens; `\n` stands for a line break before the next.
func (s *tokSource) words(ws string) {
	nl := false
	for _, w := range words(ws) {
		if w == "\\n" {
			nl = true
			continue
		}
		s.word(w)
		s.toks[len(s.toks)-1].nl = nl
		nl = false
	}
}

// any appends a token out of a vocabulary.
func (s *tokSource) any(v *voc) {
	p := len(s.toks)
	s.add(ttok{v: v, k: vsym.Int("t"+itoa(p), 0, v.n-1), pos: p % maxTok})
}

// mayBreak lets the last token follow a line break.
func (s *tokSource) mayBreak() {
	p := len(s.toks) - 1
	s.toks[p].nl = vsym.Bool("nl" + itoa(p))
}

// anyBreak appends a token that may follow a line break.
func (s *tokSource) anyBreak(v *voc) {
	s.any(v)
	s.mayBreak()
}

func (s *tokSource) advance(nl bool, n int) {
	if !s.track {
		return
	}
	first := s.pos == 0
	s.row = s.row + vsym.IteInt(nl, 1, 0)
	sep := 1
	if first {
		sep = 0
	}
	s.col = vsym.IteInt(nl, 1, s.col+sep) + n
}

// Lex returns the next token.
func (s *tokSource) Lex() lexer.Token {
	if s.pos > 0 && s.pos <= len(s.toks) && !s.relexd {
		vsym.Assume(vsym.Not(s.toks[s.pos-1].regex()))
	}
	s.relexd = false
	if s.pos >= len(s.toks) {
		s.pos = len(s.toks) + 1
		return lexer.Token{}
	}
	t := &s.toks[s.pos]
	if s.track {
		n := t.srcLen()
		if t.typ() == lexer.TokenPunctuatorDiv {
			n = 1
		} else if t.typ() == lexer.TokenPunctuatorDivAssign {
			n = 2
		}
		s.advance(t.nl, n)
		s.ends = append(s.ends, s.Location())
	}
	s.pos++
	return lexer.Token{Type: t.typ(), Literal: t.literal(), NewLine: t.nl}
}

// ReLex reads the last token again as a regular expression.
func (s *tokSource) ReLex() lexer.ReToken {
	if s.pos == 0 || s.pos > len(s.toks) {
		vsym.Assume(false)
	}
	t := &s.toks[s.pos-1]
	n := 1
	if t.fixed {
		vsym.Assume(t.isRe)
		if t.t == lexer.TokenPunctuatorDivAssign {
			n = 2
		}
	} else if t.typ() == lexer.TokenPunctuatorDiv {
		vsym.Assume(vsym.And(t.v.re >= 0, t.k == t.v.re))
	} else {
		vsym.Assume(vsym.And(t.v.reEq >= 0, t.k == t.v.reEq))
		n = 2
	}
	s.relexd = true
	src := t.source()
	if s.track {
		s.col += len(src) - n
		s.ends[s.pos-1] = s.Location()
	}
	re := lexer.ReToken{Pattern: src[1 : len(src)-2], Flags: "g"}
	re.Type = lexer.TokenLiteralRegExp
	re.Literal = src
	re.NewLine = t.nl
	return re
}

// Location is the location after the last token.
func (s *tokSource) Location() ast.Location {
	if !s.track {
		return ast.Location{Row: 1, Column: 1}
	}
	return ast.Location{Row: s.row, Column: s.col}
}

// runes renders the tokens, whose spellings are fixed or native.
func (s *tokSource) runes() []rune {
	var rs []rune
	for i := range s.toks {
		t := &s.toks[i]
		if l, ok := s.lead[i]; ok {
			rs = append(rs, l...)
		} else if t.nl {
			rs = append(rs, '\n')
		} else if i > 0 {
			rs = append(rs, ' ')
		}
		if t.chars != nil {
			rs = append(rs, t.chars...)
		} else {
			rs = append(rs, []rune(t.source())...)
		}
	}
	return append(rs, s.lead[len(s.toks)]...)
}

// lexer is the lexer over the tokens.
func (s *tokSource) lexer() *lexer.Lexer {
	if s.real || vsym.Native() {
		rs := s.runes()
		if vsym.Native() {
			vsym.Noteq("program", string(rs))
		}
		return newLexer(rs)
	}
	s.row, s.col = 1, 1
	l := newLexer(nil)
	vsym.TokenLexer(l, s)
	return l
}

type parseResult struct {
	tree ast.Node
	err  error
}

// parse parses the tokens.
func (s *tokSource) parse(mode parser.ParseMode) (r parseResult) {
	r.tree, r.err = parser.NewParser(s.lexer()).Parse(parser.ParseOptions{Mode: mode})
	return
}
