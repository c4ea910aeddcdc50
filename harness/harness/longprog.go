package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Long and deep programs: a beginning, a repeated unit, a middle and for every
// unit its end, and the end of the program.
type longProg struct {
	mode                        parser.ParseMode
	open, unit, mid, undo, done string
}

const (
	lx = parser.ExpressionMode
	ls = parser.ScriptMode
	lm = parser.ModuleMode
)

var longProgs = []longProg{
	// lists
	{lx, "<id> (", "<id> ,", "<id>", "", ")"},
	{lx, "new <id> (", "... <id> ,", "", "", ")"},
	{lx, "[", "<num> ,", "", "", "]"},
	{lx, "[", ",", "<id>", "", "]"},
	{lx, "( {", "<id> : <str> ,", "<id>", "", "} )"},
	{lx, "( {", "get <id> ( ) { } , [ <id> ] ( ) { } ,", "", "", "} )"},
	{lx, "", "<id> ,", "<id>", "", ""},
	{lx, "(", "<id> ,", "<id>", "", ") => <id>"},
	{lx, "( [", "<id> , ,", "... <id>", "", "] ) => <id>"},
	{lx, "( {", "<id> , <id> : <id> = <num> ,", "<id>", "", "} ) => { }"},
	{lx, "async (", "<id> ,", "<id>", "", ")"},
	{lx, "class {", "<id> ( ) { } static get <id> ( ) { }", "", "", "}"},
	// operators
	{lx, "", "<id> +", "<id>", "", ""},
	{lx, "", "<id> * <id> - ", "<id>", "", ""},
	{lx, "", "<id> **", "<id>", "", ""},
	{lx, "", "<id> && <id> ||", "<id>", "", ""},
	{lx, "", "<id> ??", "<id>", "", ""},
	{lx, "", "<id> in <id> <", "<id>", "", ""},
	{lx, "", "<id> ? <id> :", "<id>", "", ""},
	{lx, "", "<id> ?", "<id>", ": <id>", ""},
	{lx, "", "<id> =", "<id>", "", ""},
	{lx, "", "<id> >>>=", "<id>", "", ""},
	{lx, "", "<id> =>", "<id>", "", ""},
	{lx, "", "async <id> =>", "<id>", "", ""},
	{lx, "", "! - typeof", "<id>", "", ""},
	{lx, "", "new", "<id>", "", ""},
	{lx, "", "new", "<id>", "( )", ""},
	{lx, "<id>", ". <id>", "", "", ""},
	{lx, "<id>", "[ <num> ]", "", "", ""},
	{lx, "<id>", "( ) . <id>", "", "", ""},
	{lx, "<id>", "?. <id>", "?. [ <id> ]", "", ""},
	// nesting
	{lx, "", "(", "<id>", ")", ""},
	{lx, "", "[", "<id>", "]", ""},
	{lx, "(", "{ <id> :", "<id>", "}", ")"},
	{lx, "", "<id> (", "<id>", ")", ""},
	{lx, "", "<id> [", "<id>", "]", ""},
	{lx, "(", "function ( ) { return", "<id>", "}", ")"},
	{lx, "", "class { <id> ( ) { return", "<id>", "} }", ""},
	{lx, "", "<id> => {", "", "}", ""},
	{lx, "", "( ) => (", "<id>", ")", ""},
	{lx, "(", "[", "<id>", "]", ") => <id>"},
	{lx, "(", "{ <id> :", "<id>", "}", ") => <id>"},
	{lx, "", "( <id> =", "<id>", ") => <id>", ""},
	// statements
	{ls, "", "<id> ;", "", "", ""},
	{ls, "", "\\n <id>", "", "", ""},
	{ls, "", "\\n <id> ( ) \\n <id> ++", "", "", ""},
	{ls, "", ";", "", "", ""},
	{ls, "", "<str> ;", "<id>", "", ""},
	{ls, "function <id> ( ) {", "\\n <str>", "", "", "}"},
	{ls, "var", "<id> = <num> ,", "<id>", "", ";"},
	{ls, "let [", "<id> ,", "... <id>", "", "] = <id>"},
	{ls, "", "{", "<id>", "}", ""},
	{ls, "", "if ( <id> ) <id> ; else", ";", "", ""},
	{ls, "", "if ( <id> )", ";", "else <id> ;", ""},
	{ls, "", "<id> :", ";", "", ""},
	{ls, "", "while ( <id> )", ";", "", ""},
	{ls, "", "do", ";", "while ( <id> )", ""},
	{ls, "", "for ( ; ; )", "{ }", "", ""},
	{ls, "", "for ( var <id> of <id> ) {", "", "}", ""},
	{ls, "switch ( <id> ) {", "case <num> : <id> ;", "default :", "", "}"},
	{ls, "switch ( <id> ) { case <num> :", "<id> ;", "", "", "}"},
	{ls, "", "switch ( <id> ) { default :", "", "}", ""},
	{ls, "", "try {", "", "} finally { }", ""},
	{ls, "", "try { } catch ( <id> ) {", "", "}", ""},
	{ls, "", "function <id> ( ) { }", "", "", ""},
	{ls, "", "function <id> ( ) {", "", "}", ""},
	{ls, "", "async ( ) => {", "<id>", "}", ""},
	{ls, "function <id> (", "<id> , { <id> } ,", "... <id>", "", ") { }"},
	{ls, "class <id> {", "<id> ( ) { }", "", "", "}"},
	{ls, "", "class <id> extends <id> { }", "", "", ""},
	{ls, "var", "[", "<id>", "]", "= <id>"},
	{lm, "import {", "<id> as <id> ,", "<id>", "", "} from <str> ;"},
	{lm, "", "import <id> from <str> ;", "", "", ""},
	{lm, "", "\\n import <id> from <str>", "\\n <id>", "", ""},
}

// longProgram is a program of n units; extra arbitrary tokens are in the
// middle, or before the end.
func longProgram(n, extra int) (*tokSource, parser.ParseMode) {
	p := longProgs[vsym.Pick("program", len(longProgs))]
	s := &tokSource{}
	at := -1
	if extra > 0 {
		at = []int{n / 2, n - 1, n, n + 1}[vsym.Pick("at", 4)]
	}
	put := func(k int) {
		if k != at {
			return
		}
		for i := 0; i < extra; i++ {
			s.anyBreak(fullVoc)
		}
	}
	s.words(p.open)
	for i := 0; i < n; i++ {
		s.words(p.unit)
		put(i)
	}
	s.words(p.mid)
	put(n)
	for i := 0; i < n; i++ {
		s.words(p.undo)
	}
	put(n + 1)
	s.words(p.done)
	return s, p.mode
}

func longSize() int {
	return []int{vsym.Param("L"), vsym.Param("M")}[vsym.Pick("size", 2)]
}

func longJudge(want int) {
	s, mode := longProgram(longSize(), vsym.Param("K"))
	judge(want, s.parse(mode), s)
}

func H_C13_long() {
	s, mode := longProgram(longSize(), vsym.Param("K"))
	totality(s, mode)
}

// H_C26_long: every long program is one of the grammar.
func H_C26_long() {
	s, mode := longProgram(longSize(), 0)
	r := s.parse(mode)
	vsym.Assert(r.err == nil, "a program of the grammar is rejected")
	vsym.Reach("tree")
}

func H_C15_long() { longJudge(wantTokens) }
func H_C17_long() { longJudge(wantSemis) }
func H_C18_long() { longJudge(wantNames) }
func H_C20_long() { longJudge(wantConvert) }
func H_C21_long() { longJudge(wantESTree) }
func H_C28_long() { longJudge(wantForms) }
func H_C29_long() {
	s, mode := longProgram(longSize(), vsym.Param("K"))
	covered(s, mode)
}
