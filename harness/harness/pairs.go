package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C17: a statement without its semicolon, a line break and what follows.

// How a statement without semicolon may go on in the next line.
const (
	endOperand = iota // like any operand
	endUpdate         // like an operand that is neither called nor accessed
	endShut           // not at all, or only with what begins no statement
)

var pairFirst = []struct {
	s   string
	end int
}{
	{"N", endOperand},
	{"<id> = N", endOperand},
	{"<id> = <id> . W", endOperand},
	{"<id> ( )", endOperand},
	{"<id> [ <id> ]", endOperand},
	{"<id> + X", endOperand},
	{"U <id>", endOperand},
	{"<str>", endOperand},
	{"<us>", endOperand},
	{"<num>", endOperand},
	{"<id> = { }", endOperand},
	{"<id> = [ ]", endOperand},
	{"<id> = function ( ) { }", endOperand},
	{"<id> = async function ( ) { }", endOperand},
	{"<id> = class { }", endOperand},
	{"<id> => <id>", endOperand},
	{"async <id> => <id>", endOperand},
	{"async ( <id> )", endOperand},
	{"new <id>", endOperand},
	{"new <id> . N", endOperand},
	{"<id> ?. N", endOperand},
	{"throw N", endOperand},
	{"return N", endOperand},
	{"var <id> = N", endOperand},
	{"let <id> = N", endOperand},
	{"const <id> = N", endOperand},
	{"var <id> , <id> = <id>", endOperand},
	{"<id> P", endUpdate},
	{"<id> = <id> ++", endUpdate},
	{"<id> => { }", endShut},
	{"async <id> => { }", endShut},
	{"async ( ) => { }", endShut},
	{"var N", endShut},
	{"let N", endShut},
	{"return", endShut},
	{"break", endShut},
	{"continue", endShut},
	{"break <id>", endShut},
	{"continue <id>", endShut},
	{"do ; while ( <id> )", endShut},
	{"import <str>", endShut},
	{"import N from <str>", endShut},
	{"if ( <id> ) N", endOperand},
	{"if ( <id> ) ; else <id>", endOperand},
	{"for ( ; ; ) <id>", endOperand},
	{"<id> : N", endOperand},
}

var pairSecond = []string{
	"",
	"N",
	"W",
	"<id> = <id>",
	"<id> => <id>",
	"<id> : ;",
	"async <id> => <id>",
	"async ( <id> ) => <id>",
	"async ( <id> )",
	"( async function ( ) { } )",
	"function <id> ( ) { }",
	"class <id> { }",
	"{ }",
	"{ <id> : <id> }",
	"var <id>",
	"let <id>",
	"let [ <id> ] = <id>",
	"const <id> = <id>",
	"let \\n <id>",
	"if ( <id> ) ;",
	"else <id>",
	"while ( <id> ) ;",
	"while ( <id> )",
	"do ; while ( <id> )",
	"for ( ; ; ) ;",
	"switch ( <id> ) { }",
	"case <id> :",
	"default :",
	"try { } finally { }",
	"return",
	"throw <id>",
	"break",
	"U <id>",
	"P <id>",
	"P",
	"new <id>",
	"X",
	"<us>",
	"import <str>",
	"( <id> )",
	"( <id> ) => <id>",
	"( ) => { }",
	"[ <id> ]",
	"[ <id> ] = <id>",
	"- <id>",
	"+ <id>",
	"/ <id> / <id>",
	"=> <id>",
	"=> { }",
	". N",
	"?. N",
	"A <id>",
	"? <id> : <id>",
	", <id>",
	"B <id>",
	"O",
	")",
	"]",
	";",
}

var pairPlaces = []struct{ pre, post string }{
	{"", ""},
	{"", "\\n <id>"},
	{"{", "}"},
	{"function <id> ( ) {", "}"},
	{"( async function ( ) {", "} )"},
	{"( ) => {", "}"},
	{"class <id> { <id> ( ) {", "} }"},
	{"switch ( <id> ) { case <id> :", "}"},
	{"<id> : for ( ; ; ) {", "}"},
	{"if ( <id> )", ""},
	{"if ( <id> ) ; else", ""},
	{"do", ""},
	{"while ( <id> )", ""},
	{"try {", "} catch { }"},
}

// continuesAs is whether a word in the next line continues a statement that
// lacks its semicolon, rather than having one inserted; words that begin no
// statement do, for else the program would have to be rejected anyway.
func continuesAs(end int, w string) bool {
	switch w {
	case "", "++", "--", "=>", "P", "U", "N", "X", "W":
		return false
	case "(", "[":
		return end == endOperand
	case "+", "-", "/":
		return end != endShut
	}
	return oneOf(w, words(". ?. A ? , B O ) ] ;"))
}

// pairOf is a first and a second statement with what separates them.
func H_C17_pairs() {
	f := pairFirst[vsym.Pick("first", len(pairFirst))]
	snd := words(pairSecond[vsym.Pick("second", len(pairSecond))])
	place := pairPlaces[vsym.Pick("place", vsym.Param("PLACES"))]
	mode := parser.ScriptMode
	if vsym.Pick("mode", 2) == 1 {
		mode = parser.ModuleMode
	}
	w := ""
	if len(snd) > 0 {
		w = snd[0]
	}
	s := &tokSource{}
	s.words(place.pre)
	for i, c := range words(f.s) {
		s.pairWord(c, i == 0 || i > 1 && oneOf(words(f.s)[i-1], words(") :")))
	}
	at := len(s.toks)
	if len(snd) > 0 {
		s.frame(snd[:1])
		s.toks[at].nl = true
		if w == "U" {
			u := s.toks[at].source()
			vsym.Assume(vsym.Not(vsym.Or(vsym.EqStr(u, "+"), vsym.EqStr(u, "-"))))
		}
		switch w {
		case "(":
			// The line break keeps async from being the arrow function's.
			if oneOf("=>", snd) {
				vsym.Assume(vsym.Not(vsym.EqStr(s.toks[at-1].source(), "async")))
			}
		case "X":
			vsym.Assume(vsym.Not(s.toks[at].regex()))
		case "W":
			vsym.Assume(vsym.Not(oneOf(s.toks[at].source(), words("in instanceof"))))
		case "B", "O":
			o := s.toks[at].source()
			vsym.Assume(vsym.Not(oneOf(o, words("++ --"))))
			if f.end == endShut {
				vsym.Assume(vsym.Not(oneOf(o, words("+ - /"))))
			}
		}
		s.frame(snd[1:])
	}
	s.words(place.post)
	if len(snd) == 0 && at < len(s.toks) && place.post[0] == '}' {
		s.toks[at].nl = vsym.Bool("nl")
	}
	o := &tokSource{}
	cont := continuesAs(f.end, w)
	for i, t := range s.toks {
		if i == at {
			if cont {
				t.nl = false
			} else {
				o.word(";")
			}
		}
		o.add(t)
	}
	if at == len(s.toks) {
		o.word(";")
	}
	r := s.parse(mode)
	q := o.parse(mode)
	if q.err != nil {
		vsym.Assert(r.err != nil, "accepted with a line break where the same with a semicolon or without the break is no program")
		vsym.Reach("rejected")
		return
	}
	if r.err != nil {
		if vsym.Native() {
			vsym.Noteq("error", r.err.Error())
		}
		vsym.Fail("rejected with a line break where the same with a semicolon or without the break is a program")
	}
	vsym.Reach("accepted")
	samePrograms(r.tree, q.tree, "a line break before this token changes what a program means")
}

// pairWord is one without yield and await, which are outside of the property,
// and without let where it begins a declaration.
func (s *tokSource) pairWord(c string, starts bool) {
	s.one(c, false)
	t := s.toks[len(s.toks)-1]
	if c == "N" {
		w := t.source()
		vsym.Assume(vsym.Not(vsym.Or(vsym.EqStr(w, "yield"), vsym.EqStr(w, "await"))))
		if starts {
			vsym.Assume(vsym.Not(vsym.EqStr(w, "let")))
		}
	}
	if c == "X" {
		vsym.Assume(vsym.Not(t.regex()))
	}
}

func samePrograms(a, b ast.Node, msg string) {
	x, _ := vsym.Tree(a.ESTree())
	y, _ := vsym.Tree(b.ESTree())
	eqDoc(x, y, msg)
}
