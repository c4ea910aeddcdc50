package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C18: a word at a place where a name is expected is accepted exactly when it
// is not reserved there.

// nameContext surrounds statements.
type nameContext struct {
	pre, post string
	strict    bool // turns on strict mode
	reset     bool // async and gen are those of the context, not of what is around
	async     bool
	gen       bool
}

var nameContexts = []nameContext{
	{"", "", false, false, false, false},
	{"function <id> ( ) {", "}", false, true, false, false},
	{"function <id> ( ) { <us> ;", "}", true, true, false, false},
	{"( function ( ) { <str> ; <us> ;", "} )", true, true, false, false},
	{"( function * ( ) {", "} )", false, true, false, true},
	{"( async function <id> ( ) {", "} )", false, true, true, false},
	{"( async function * ( ) {", "} )", false, true, true, true},
	{"( async ( ) => {", "} )", false, true, true, false},
	{"( async <id> => {", "} )", false, true, true, false},
	{"( ( <id> ) => {", "} )", false, true, false, false},
	{"( <id> => { <us> ;", "} )", true, true, false, false},
	{"( { * <id> ( ) {", "} } )", false, true, false, true},
	{"( { async <id> ( ) {", "} } )", false, true, true, false},
	{"( { async * <id> ( ) {", "} } )", false, true, true, true},
	{"( { get <id> ( ) {", "} } )", false, true, false, false},
	{"( { <id> ( ) { <us> ;", "} } )", true, true, false, false},
	{"class <id> { <id> ( ) {", "} }", true, true, false, false},
	{"( class { static get <id> ( ) {", "} } )", true, true, false, false},
	{"if ( <id> ) {", "}", false, false, false, false},
	{"for ( ; ; ) {", "}", false, false, false, false},
	{"try { } catch ( <id> ) {", "}", false, false, false, false},
	{"switch ( <id> ) { case <id> :", "}", false, false, false, false},
	{"( <id> = function ( ) {", "} )", false, true, false, false},
}

// Complete statements, after which everything is as before.
var nameBefore = []string{
	"",
	"function <id> ( ) { <us> ; }",
	"function <id> ( ) { }",
	"( async function ( ) { } ) ;",
	"( function * ( <id> ) { } ) ;",
	"class <id> extends <id> { <id> ( ) { } }",
	"( class <id> { } ) ;",
	"( async ( <id> ) => { <us> } ) ;",
	"( async <id> => <id> ) ;",
	"( <id> ) => { <us> } ;",
	"<id> => <id> ;",
	"( { async * <id> ( ) { } , get <id> ( ) { <us> } } ) ;",
	"( { * <id> ( ) { } } ) ;",
	"async ( <id> ) ;",
	"( async function * <id> ( ) { <us> } ) ;",
	"<us> . <id> ;",
	"{ <us> }",
}

// namePlace is a place for a name.
type namePlace struct {
	pre, post string
	strict    bool // is strict code
	own       bool // async and gen are those of the place
	async     bool
	gen       bool
	lexical   bool // declared by let or const
	any       bool // every word is accepted
	ref       bool // is an expression
	stmt      bool // starts a statement
	module    bool
	leak      bool // enough to tell contexts apart
	arrow     bool // belongs to an async arrow function
}

var namePlaces = []namePlace{
	{pre: "var", post: "", leak: true},
	{pre: "var <id> ,", post: "= <num>"},
	{pre: "let", post: "= <num>", lexical: true},
	{pre: "const", post: "= <num>", lexical: true},
	{pre: "let <id> ,", post: "", lexical: true},
	{pre: "var [", post: "] = <num>"},
	{pre: "let [ <id> ,", post: "= <num> ] = <num>", lexical: true},
	{pre: "let [ ...", post: "] = <num>", lexical: true},
	{pre: "var [ ...", post: "] = <num>"},
	{pre: "var [ ... [", post: "] ] = <num>"},
	{pre: "var {", post: "} = <num>"},
	{pre: "var { <id> ,", post: "= <num> } = <num>"},
	{pre: "var { <id> :", post: "} = <num>"},
	{pre: "let { <id> : {", post: "} } = <num>", lexical: true},
	{pre: "var { ...", post: "} = <num>"},
	{pre: "const { ...", post: "} = <id>", lexical: true},
	{pre: "var {", post: ": <id> } = <num>", any: true},
	{pre: "for ( var", post: "; ; ) ;"},
	{pre: "for ( var", post: "in <id> ) ;"},
	{pre: "for ( var", post: "of <id> ) ;"},
	{pre: "for ( let [", post: "] of <id> ) ;", lexical: true},
	{pre: "function", post: "( ) { }", leak: true},
	{pre: "function", post: "( ) { <us> }", strict: true},
	{pre: "( function", post: "( ) { } )", own: true},
	{pre: "( function", post: "( ) { <us> } )", own: true, strict: true},
	{pre: "( function *", post: "( ) { } )", own: true, gen: true},
	{pre: "( async function", post: "( ) { } )", own: true, async: true},
	{pre: "class", post: "{ }", strict: true},
	{pre: "( class", post: "{ } )", strict: true},
	{pre: "( class", post: "extends <id> { } )", strict: true},
	{pre: "class <id> extends", post: "{ }", strict: true, ref: true},
	{pre: "function <id> (", post: ") { }", own: true},
	{pre: "function <id> ( <id> ,", post: "= <num> ) { }", own: true},
	{pre: "function <id> ( ...", post: ") { }", own: true},
	{pre: "function <id> ( [", post: "] ) { }", own: true},
	{pre: "function <id> ( {", post: "} ) { }", own: true},
	{pre: "function <id> ( { <id> :", post: "} ) { }", own: true},
	{pre: "function <id> (", post: ") { <us> }", own: true, strict: true},
	{pre: "function <id> ( <id> = ", post: ") { }", own: true, ref: true},
	{pre: "( function * (", post: ") { } )", own: true, gen: true},
	{pre: "( async function (", post: ") { } )", own: true, async: true},
	{pre: "( { <id> (", post: ") { } } )", own: true},
	{pre: "( { <id> (", post: ") { <us> } } )", own: true, strict: true},
	{pre: "( { * <id> (", post: ") { } } )", own: true, gen: true},
	{pre: "( { async <id> (", post: ") { } } )", own: true, async: true},
	{pre: "( { set <id> (", post: ") { } } )", own: true},
	{pre: "class <id> { <id> (", post: ") { } }", own: true, strict: true},
	{pre: "class <id> { static set <id> (", post: ") { } }", own: true, strict: true},
	{pre: "", post: "=> <id>", stmt: true},
	{pre: "(", post: "=> <id> )"},
	{pre: "(", post: ") => <id>", leak: true},
	{pre: "(", post: ") => { <us> }", strict: true},
	{pre: "(", post: "=> { <us> } )", strict: true},
	{pre: "( <id> ,", post: "= <num> ) => <id>"},
	{pre: "( ...", post: ") => <id>"},
	{pre: "( [", post: "] ) => <id>"},
	{pre: "( [ <id> , ...", post: "] ) => <id>"},
	{pre: "( {", post: "} ) => <id>"},
	{pre: "( { <id> :", post: "} ) => <id>"},
	{pre: "( {", post: "= <num> } ) => <id>"},
	{pre: "( { ...", post: "} ) => <id>"},
	{pre: "( {", post: ": <id> } ) => <id>", any: true},
	{pre: "async", post: "=> <id>", arrow: true},
	{pre: "( async", post: "=> { <us> } )", arrow: true, strict: true},
	{pre: "async (", post: ") => <id>", arrow: true},
	{pre: "async (", post: ") => { <us> }", arrow: true, strict: true},
	{pre: "async ( <id> ,", post: "= <num> ) => <id>", arrow: true},
	{pre: "async ( ...", post: ") => <id>", arrow: true},
	{pre: "async ( [ ...", post: "] ) => <id>", arrow: true},
	{pre: "async ( { <id> :", post: "} ) => <id>", arrow: true},
	{pre: "async ( {", post: "} ) => <id>", arrow: true},
	{pre: "async ( { ...", post: "} ) => <id>", arrow: true},
	{pre: "async ( {", post: ": <id> } ) => <id>", any: true},
	{pre: "async ( <id> =", post: ") => <id>", arrow: true, ref: true},
	{pre: "async ( <id> = ( ", post: ") => <id> ) => <id>", arrow: true},
	{pre: "async ( <id> = <id> .", post: ") => <id>", any: true},
	{pre: "async (", post: ")", ref: true},
	{pre: "async ( ...", post: ")"},
	{pre: "try { } catch (", post: ") { }"},
	{pre: "try { } catch ( [", post: "] ) { }"},
	{pre: "try { } catch ( { <id> :", post: "} ) { }"},
	{pre: "", post: ": ;", stmt: true, leak: true},
	{pre: "<id> :", post: ": ;", stmt: true},
	{pre: "<id> : for ( ; ; ) break", post: ";"},
	{pre: "for ( ; ; ) { continue", post: "}"},
	{pre: "", post: ";", stmt: true, ref: true},
	{pre: "", post: "( ) ;", stmt: true, ref: true, leak: true},
	{pre: "", post: "= <num> ;", stmt: true, ref: true},
	{pre: "", post: ". <id> ;", stmt: true, ref: true},
	{pre: "(", post: ")", ref: true},
	{pre: "( <id> ,", post: ")", ref: true},
	{pre: "<id> +", post: "* <id>", ref: true},
	{pre: "- ", post: "", ref: true},
	{pre: "<id> = [", post: "]", ref: true},
	{pre: "<id> (", post: ", <id> )", ref: true},
	{pre: "<id> ( ...", post: ")", ref: true},
	{pre: "<id> [", post: "] ( )", ref: true},
	{pre: "( { <id> :", post: "} )", ref: true},
	{pre: "( {", post: "} )"},
	{pre: "( { <id> ,", post: ", } )"},
	{pre: "( {", post: ": <id> } )", any: true},
	{pre: "( {", post: "( ) { } } )", any: true},
	{pre: "( { get", post: "( ) { } } )", any: true},
	{pre: "( { set", post: "( <id> ) { } } )", any: true},
	{pre: "( { async", post: "( ) { } } )", any: true},
	{pre: "( { *", post: "( ) { } } )", any: true},
	{pre: "( { async *", post: "( ) { } } )", any: true},
	{pre: "class <id> {", post: "( ) { } }", any: true},
	{pre: "class <id> { static", post: "( ) { } }", any: true},
	{pre: "class <id> { get", post: "( ) { } }", any: true},
	{pre: "class <id> { static set", post: "( <id> ) { } }", any: true},
	{pre: "( class { <id> ( ) { }", post: "( ) { } } )", any: true},
	{pre: "<id> .", post: "", any: true},
	{pre: "<id> .", post: "= <num>", any: true},
	{pre: "<id> ?.", post: "", any: true},
	{pre: "<id> . <id> .", post: "( )", any: true},
	{pre: "new <id> .", post: "( )", any: true},
	{pre: "if ( <id> )", post: "( ) ;", stmt: true, ref: true},
	{pre: "while (", post: ") ;", ref: true},
	{pre: "switch (", post: ") { }", ref: true},
	{pre: "switch ( <id> ) { case", post: ": }", ref: true},
	{pre: "for ( <id> of", post: ") ;", ref: true},
	{pre: "for ( ; ", post: "; ) ;", ref: true},
	{pre: "throw", post: ";", ref: true},
	{pre: "import", post: "from <str> ;", module: true},
	{pre: "import {", post: "} from <str> ;", module: true},
	{pre: "import { <id> ,", post: ", } from <str> ;", module: true},
	{pre: "import {", post: "as <id> } from <str> ;", module: true, any: true},
	{pre: "import { <id> as", post: "} from <str> ;", module: true},
	{pre: "import * as", post: "from <str> ;", module: true},
	{pre: "import <id> , {", post: "} from <str> ;", module: true},
	{pre: "import <id> , * as", post: "from <str> ;", module: true},
}

// Words that are expressions or statements of their own.
var exprWords = words("this null true false")
var stmtWords = words("break continue return debugger default")

func (s *tokSource) place(pl *namePlace) int {
	s.words(pl.pre)
	p := len(s.toks)
	s.any(classes["W"])
	s.words(pl.post)
	return p
}

func reserved(w string, strict, async, gen, lexical bool) bool {
	r := oneOf(w, alwaysReserved)
	if strict {
		r = vsym.Or(r, oneOf(w, strictReserved))
	}
	if async {
		r = vsym.Or(r, vsym.EqStr(w, "await"))
	}
	if gen {
		r = vsym.Or(r, vsym.EqStr(w, "yield"))
	}
	if lexical {
		r = vsym.Or(r, vsym.EqStr(w, "let"))
	}
	return r
}

// H_C18_places puts any word at any place in any context.
func H_C18_places() {
	placed(&namePlaces[vsym.Pick("place", len(namePlaces))])
}

// H_C18_leak puts any word at a few places after complete statements in any
// context.
func H_C18_leak() {
	var pls []*namePlace
	for i := range namePlaces {
		pl := &namePlaces[i]
		if pl.leak {
			pls = append(pls, pl)
		}
	}
	placed(pls[vsym.Pick("place", len(pls))])
}

func placed(pl *namePlace) {
	s := &tokSource{}
	strict, async, gen := false, false, false
	mode := parser.ScriptMode
	post := ""
	if pl.module {
		mode, strict = parser.ModuleMode, true
		s.words(nameBefore[vsym.Pick("before", len(nameBefore))])
	} else {
		switch vsym.Pick("global", 3) {
		case 1:
			s.words("<us> ;")
			strict = true
		case 2:
			mode, strict = parser.ModuleMode, true
		}
		for i := 0; i < vsym.Param("DEPTH"); i++ {
			c := &nameContexts[vsym.Pick("context"+itoa(i), len(nameContexts))]
			s.words(c.pre)
			post = c.post + " " + post
			if c.strict {
				strict = true
			}
			if c.reset {
				async, gen = c.async, c.gen
			}
			b := vsym.Pick("before"+itoa(i), vsym.Param("BEFORE"))
			s.words(nameBefore[b])
		}
	}
	if pl.own {
		async, gen = pl.async, pl.gen
	}
	if pl.arrow {
		async = true
	}
	strict = strict || pl.strict
	p := s.place(pl)
	s.words(post)
	w := s.toks[p].source()
	res := false
	if !pl.any {
		res = reserved(w, strict, async, gen, pl.lexical)
	}
	if pl.ref {
		vsym.Assume(vsym.Not(oneOf(w, exprWords)))
	}
	if pl.stmt {
		vsym.Assume(vsym.Not(oneOf(w, stmtWords)))
	}
	r := s.parse(mode)
	if r.err != nil {
		vsym.Reach("rejected")
		vsym.Assert(res, "a word that is not reserved was rejected as a name")
	} else {
		vsym.Reach("accepted")
		vsym.Assert(vsym.Not(res), "a reserved word was accepted as a name")
	}
}
