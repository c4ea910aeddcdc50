// Package harness states the properties as Go functions over symbolic inputs.
// Every function H_* is an entry point of the symbolic executor and, compiled
// natively, of the counterexample replay.
package harness

import (
	"errors"
	"io"
	"strconv"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/errs"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// runeReader is an io.RuneScanner over code points with the contract of the
// standard readers: UnreadRune only directly after a successful ReadRune.
type runeReader struct {
	rs     []rune
	i      int
	can    bool
	failAt int // position at which ReadRune fails with err; < 0: never
	err    error
}

var errUnread = errors.New("UnreadRune: previous operation was not a successful ReadRune")

func (r *runeReader) ReadRune() (rune, int, error) {
	if r.failAt >= 0 && r.i == r.failAt && r.err != nil {
		r.can = false
		return 0, 0, r.err
	}
	if r.i >= len(r.rs) {
		r.can = false
		return 0, 0, io.EOF
	}
	c := r.rs[r.i]
	r.i++
	r.can = true
	return c, 1, nil
}

func (r *runeReader) UnreadRune() error {
	if !r.can {
		return errUnread
	}
	r.can = false
	r.i--
	return nil
}

func newReader(rs []rune) *runeReader { return &runeReader{rs: rs, failAt: -1} }

func newLexer(rs []rune) *lexer.Lexer {
	return lexer.NewLexer(lexer.NewScanner(newReader(rs), nil))
}

var itoaTab = []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "40", "41", "42", "43", "44", "45", "46", "47", "48", "49", "50", "51", "52", "53", "54", "55", "56", "57", "58", "59", "60", "61", "62", "63"}

func itoa(i int) string {
	if i >= len(itoaTab) {
		return strconv.Itoa(i)
	}
	return itoaTab[i]
}

// anyText is a text of n arbitrary code points.
func anyText(name string, n int) []rune {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vsym.Rune(name + itoa(i))
	}
	if vsym.Native() {
		vsym.Noteq(name, string(rs))
	}
	return rs
}

// textOver is a text of n code points out of an alphabet.
func textOver(name string, n int, alphabet string) []rune {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vsym.Rune(name + itoa(i))
		vsym.Assume(inAlphabet(rs[i], alphabet))
	}
	if vsym.Native() {
		vsym.Noteq(name, string(rs))
	}
	return rs
}

func inAlphabet(r rune, alphabet string) bool {
	ok := false
	for _, c := range alphabet {
		ok = vsym.Or(ok, r == c)
	}
	return ok
}

type lexStep struct {
	tok lexer.Token
	err error        // syntax error, if any
	loc ast.Location // its location
	bad bool         // any other failure
}

// lexOne asks for one token.
func lexOne(l *lexer.Lexer) (s lexStep) {
	done := false
	defer func() {
		r := recover()
		if done {
			return
		}
		s.fill(r)
	}()
	s.tok = l.Lex()
	done = true
	return
}

func (s *lexStep) fill(r interface{}) {
	if e, ok := r.(*errs.SyntaxError); ok {
		s.err = e
		s.loc = e.Location
		return
	}
	s.bad = true
}

// lexAll lexes a text to the end or the first error; complete is false when
// more tokens were produced than the text can hold.
func lexAll(rs []rune) (toks []lexer.Token, failed bool, last lexStep) {
	l := newLexer(rs)
	for i := 0; i <= len(rs)+1; i++ {
		s := lexOne(l)
		if s.err != nil || s.bad {
			return toks, true, s
		}
		if s.tok.Type == lexer.TokenNone {
			return toks, false, s
		}
		toks = append(toks, s.tok)
	}
	return toks, true, lexStep{bad: true}
}

func runesEq(a []rune, b string) bool {
	bs := []rune(b)
	if len(a) != len(bs) {
		return false
	}
	ok := true
	for i := range a {
		ok = vsym.And(ok, a[i] == bs[i])
	}
	return ok
}
