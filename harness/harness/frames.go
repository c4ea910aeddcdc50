package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// A frame is a program as a list of words. Besides tokens these are:
//
//	_    any token, possibly after a line break
//	B    any binary operator
//	b    a binary operator of each level
//	A    any assignment operator
//	U    any prefix operator
//	P    any postfix operator
//	X    any operand of a single token
//	W    any identifier or keyword
//	N    an identifier or a contextual keyword
//	O    any operator that may follow an operand
//	;?   a semicolon or nothing
//	\n   a line break
//	\n?  a line break or nothing
var classes = map[string]*voc{
	"_": fullVoc,
	"B": newVoc(words("** * / % + - << >> >>> < > <= >= instanceof in == != === !== & ^ | && || ??")),
	"b": newVoc(words("** * + << < instanceof in == & ^ | && || ??")),
	"A": newVoc(words("= *= /= %= += -= <<= >>= >>>= &= ^= |= **= &&= ||= ??=")),
	"U": newVoc(words("delete void typeof + - ~ ! ++ --")),
	"P": newVoc(words("++ --")),
	"X": newVoc(words("<id> <num> <str> this null true false <re> <re=> async let of get")),
	"W": newVoc(wordTokens()),
	"N": newVoc(words("<id> as async from get meta of set target await yield let static")),
	"O": newVoc(words("** * / % + - << >> >>> < > <= >= instanceof in == != === !== & ^ | && || ?? = += ??= , . ?. ++ --")),
}

func wordTokens() []string {
	ws := []string{wIdent}
	for _, k := range keywords {
		ws = append(ws, k.s)
	}
	return ws
}

// one appends what a single word of a frame stands for.
func (s *tokSource) one(w string, nl bool) {
	if v, ok := classes[w]; ok {
		s.any(v)
		if w == "_" {
			s.mayBreak()
			return
		}
	} else {
		s.word(w)
	}
	s.toks[len(s.toks)-1].nl = nl
}

// frame appends a frame.
func (s *tokSource) frame(ws []string) {
	nl := false
	for _, w := range ws {
		switch w {
		case "\\n":
			nl = true
			continue
		case "\\n?":
			nl = vsym.Bool("nl" + itoa(len(s.toks)))
			continue
		case ";?":
			if vsym.Pick("semi"+itoa(len(s.toks)), 2) == 1 {
				continue
			}
			w = ";"
		}
		s.one(w, nl)
		nl = false
	}
}

// The corpora: programs around which the harnesses look.

var exprFrames = []string{
	"X B X B X",
	"U X B U X",
	"U X B X",
	"( X B X ) B X",
	"X B ( X B X )",
	"U U X P",
	"U X P B X",
	"X B U X P",
	"X \\n? P \\n? X",
	"X A X B X",
	"X B X A X",
	"X A X A X",
	"U X A X",
	"X P A X",
	"X ? X : X",
	"X B X ? X B X : X B X",
	"X A X ? X A X : X A X",
	"X ? X ? X : X : X ? X : X",
	"X , X A X , X",
	"X ? X , X : X",
	"X B X , U X",
	"<id> => X B X",
	"<id> => X , X",
	"<id> => X ? X : X",
	"X B <id> => X",
	"U <id> => X",
	"X A <id> => X",
	"X ? <id> => X : <id> => X",
	"<id> => <id> => X",
	"<id> => { } B X",
	"<id> => { } ( X )",
	"<id> => ( { } )",
	"( ) => X",
	"( <id> , <id> ) => { return X }",
	"( <id> , ... <id> ) => X",
	"( <id> = X , <id> ) => X",
	"( [ <id> , , <id> ] ) => X",
	"( [ <id> , ... <id> ] ) => X",
	"( [ <id> = X , ... [ <id> ] ] ) => X",
	"( { <id> , <id> = X } ) => X",
	"( { <id> : <id> = X , ... <id> } ) => X",
	"( { <id> : { <id> } , <id> : [ <id> ] } ) => X",
	"( { <id> : [ <id> ] = X } = X ) => X",
	"async <id> => X",
	"async ( <id> , <id> ) => X",
	"async ( ... <id> ) => X",
	"async ( X , X ) B X",
	"async ( ... <id> )",
	"async ( X , ) . W",
	"async \\n? <id> \\n? => X",
	"async \\n? ( <id> ) \\n? => X",
	"async B X",
	"async function ( <id> ) { }",
	"new async ( X )",
	"new async",
	"new X",
	"new X ( X , X )",
	"new X . W ( X ) . W ( X )",
	"new X [ X B X ] ( )",
	"new new X ( X ) ( X )",
	"new new X ( X )",
	"new ( X ( X ) ) ( X )",
	"new X ( X ) B X",
	"new X B X",
	"U new X ( X ) . W",
	"new X ?. W",
	"new X ( ) ?. W",
	"new function ( ) { } ( X )",
	"new class { } ( X )",
	"X . W . W",
	"X . W [ X , X ]",
	"X [ X ] . W ( X )",
	"X ?. W . W",
	"X ?. [ X ] ( X )",
	"X ?. ( X , X ) . W",
	"X ?. W ?. ( ) [ X ]",
	"X ( X ) ( X , ... X )",
	"X ( X , )",
	"X ( ... X A X , X )",
	"X ( X ? X : X , X => X )",
	"X . W A X . W P",
	"[ X , , X A X ]",
	"[ ]",
	"[ , ]",
	"[ X , ]",
	"[ X B X , [ X ] ]",
	"[ X , X ] = X",
	"{ } = X",
	"( { } )",
	"( { <id> } )",
	"( { W : X , W : X } )",
	"( { W , } )",
	"( { <str> : X , <num> : X A X } )",
	"( { [ X B X ] : X , } )",
	"( { get W ( ) { return X } , set W ( <id> ) { } } )",
	"( { W ( <id> , <id> ) { X } } )",
	"( { async W ( ) { } } )",
	"( { * W ( ) { } } )",
	"( { async * W ( ) { } } )",
	"( { get [ X ] ( ) { } } )",
	"( { get <str> ( ) { } , set <num> ( <id> ) { } } )",
	"( { get : X , set , async ( ) { } } )",
	"( { <id> : { <id> : X } , <id> : [ X ] } )",
	"( { <id> : <id> => X , <id> } )",
	"( function ( ) { } )",
	"( function <id> ( <id> , <id> = X , ... <id> ) { return X } )",
	"( function * ( <id> ) { } )",
	"( async function * <id> ( ) { } )",
	"( class { } )",
	"( class <id> extends <id> { } )",
	"( class extends X . W { W ( ) { } } )",
	"( class { static W ( ) { } get W ( ) { } set W ( <id> ) { } } )",
	"( class { get ( ) { } static ( ) { } set ( ) { } } )",
	"( class { static get [ X ] ( ) { } [ X ] ( <id> ) { } } )",
	"( X , X )",
	"( ( X ) )",
	"( X ) => X",
	"( X ) ( X )",
	"( X ) . W",
	"( X ) P",
	"( X , X ) B X",
	"<re> . W",
	"X B <re> B X",
	"U <re=>",
	"X \\n? ( X )",
	"X \\n? [ X ]",
	"X B \\n? X \\n? B X",
}

var stmtFrames = []string{
	";",
	"{ }",
	"{ X ;? }",
	"{ X ; X ;? }",
	"{ { } { } } ;",
	"{ X \\n? X }",
	"X \\n? X",
	"X P \\n? X",
	"X \\n? P X",
	"X B X \\n? { }",
	"var <id>",
	"var <id> , <id> = X B X",
	"var [ <id> , , <id> = X , ... <id> ] = X",
	"var { <id> , <id> : <id> , ... <id> } = X",
	"var { <id> = X , W : [ <id> ] = X } = X ;",
	"var { W : { W : <id> } }",
	"var [ ]",
	"var [ { <id> } , [ <id> ] ] ;",
	"let <id> = X , <id>",
	"let [ <id> ] = X",
	"let { <id> } = X ;? const <id> = X",
	"const <id> = X ;",
	"let \\n? <id>",
	"let ;? <id>",
	"let = X",
	"var <id> \\n? X",
	"var <id> = X \\n? X",
	"let <id> \\n? X",
	"if ( X ) X ;",
	"if ( X ) X ; else X",
	"if ( X ) { } else { }",
	"if ( X ) if ( X ) X ; else X ; else X",
	"if ( X ) while ( X ) if ( X ) ; else ;",
	"if ( X ) for ( ; ; ) if ( X ) ; else ;",
	"if ( X , X ) ; else if ( X ) ; else ;",
	"while ( X ) X ;",
	"while ( X B X ) { break ; }",
	"do X ; while ( X )",
	"do { } while ( X ) X",
	"do ; while ( X ) ; X",
	"do do ; while ( X ) while ( X )",
	"do if ( X ) ; else ; while ( X )",
	"for ( ; ; ) ;",
	"for ( X ; X ; X ) ;",
	"for ( var <id> = X ; X B X ; X P ) { }",
	"for ( var <id> in X ) ;",
	"for ( X in X ) ;",
	"for ( X of X ) ;",
	"for ( var <id> of X , X ) ;",
	"for ( let [ <id> ] of X ) ;",
	"for ( let [ <id> ] = X ; ; ) ;",
	"for ( var <id> = ( X in X ) ; ; ) ;",
	"for ( ( X in X ) ; ; ) ;",
	"for ( X [ X in X ] in X ) ;",
	"for ( X ? X in X : X ; ; ) ;",
	"for ( <id> => { X in X } ; ; ) ;",
	"for ( var <id> = <id> => { } ; ; ) ;",
	"for ( function ( <id> = X in X ) { } ; ; ) ;",
	"for ( X ; X in X ; X in X ) X in X ;",
	"for ( X ( X in X ) ; ; ) ;",
	"for ( var [ <id> = X in X ] in X ) ;",
	"for ( X B X ; X ; ) ;",
	"for ( X \\n? ; \\n? X ; \\n? ) ;",
	"for ( var <id> , <id> ; ; X , X ) ;",
	"<id> : X",
	"<id> : <id> : for ( ; ; ) continue <id>",
	"<id> : { break <id> ;? }",
	"<id> : if ( X ) ; else ;",
	"async : of : ;",
	"break",
	"break \\n? <id>",
	"break <id> ;? X",
	"continue",
	"continue \\n? <id>",
	"continue <id> ;? X",
	"return",
	"return X B X",
	"return \\n? X",
	"return ;? X",
	"{ return }",
	"return X , X ;",
	"throw X",
	"throw \\n? X",
	"throw X , X ; X",
	"throw new X ( )",
	"switch ( X ) { }",
	"switch ( X ) { case X : X ; case X : default : X }",
	"switch ( X ) { default : case X , X : { } }",
	"switch ( X ) { case X : break ; X case X : }",
	"switch ( X ) { case X ? X : X : X \\n? X }",
	"try { } catch { }",
	"try { X } catch ( <id> ) { X } finally { X }",
	"try { } finally { } X",
	"try { } catch ( [ <id> ] ) { }",
	"try { } catch ( { <id> } ) { } ;",
	"try { } catch ( { <id> : [ <id> ] = X } ) { }",
	"function <id> ( ) { }",
	"function <id> ( <id> , <id> ) { return X }",
	"function <id> ( <id> = X B X , [ <id> ] , { <id> } , ... <id> ) { X }",
	"function <id> ( [ <id> = X ] = X , { <id> : <id> = X } = X ) { }",
	"function <id> ( ) { <us> ; X }",
	"function <id> ( <id> , ) { } X",
	"function <id> ( ) { function <id> ( ) { } var <id> }",
	"class <id> { }",
	"class <id> extends <id> { } X",
	"class <id> extends X . W [ X ] { W ( ) { } }",
	"class <id> { W ( <id> ) { X } static W ( ) { } }",
	"class <id> { get W ( ) { } set W ( <id> ) { } static get W ( ) { } }",
	"class <id> { [ X ] ( ) { } static [ X ] ( ) { } }",
	"class <id> { static ( ) { } get ( ) { } set ( ) { } static static ( ) { } static get ( ) { } }",
	"<us> ; X",
	"<us> \\n? X",
	"<str> ; <us> \\n X",
	"X ; <us>",
	"<us> B X",
	"( <us> )",
	"<us> . W",
	"let [ <id> , <id> ] = [ X , X ]",
	"<id> => X \\n? X",
	"<id> => { } \\n? ( X )",
	"<id> => { } \\n? [ X ]",
	"<id> => { } ;? X",
	"X A function ( ) { } \\n? ( X )",
	"X A { <id> : X } \\n? X",
	"async \\n? function <id> ( ) { }",
	"X ; async function <id> ( ) { }",
	"( async \\n? function ( ) { } )",
	"( X ) \\n? ( X )",
	"X \\n? ? X : X",
	"X \\n? . W \\n? ( X )",
	"X \\n? <re>",
	"{ } <re>",
	"if ( X ) <re> . W",
	"X P <num>",
	"U X \\n? U X",
	"var <id> = X in X , <id>",
}

var moduleFrames = []string{
	"import <str>",
	"import <id> from <str>",
	"import * as <id> from <str>",
	"import { } from <str>",
	"import { <id> } from <str> ;",
	"import { <id> , <id> as <id> , } from <str>",
	"import { W as <id> , <id> } from <str>",
	"import <id> , * as <id> from <str>",
	"import <id> , { <id> as <id> } from <str>",
	"import <id> , { } from <str> \\n? X",
	"import <str> \\n? import <str> ;? X",
	"import as , { from as as } from <str>",
	"import from from <str>",
	"import { as } from <str>",
	"import { as as as , from } from <str>",
	"X ; import <id> from <str> ; X",
}

// costs is about how many ways the parser has through a word.
var costs = map[string]int{"X": 8, "B": 25, "b": 14, "A": 16, "U": 9, "P": 2, ";?": 2, "\\n?": 2, "W": 2, "N": 2, "O": 30, "_": 30}

func cost(w string) int {
	if c, ok := costs[w]; ok {
		return c
	}
	return 1
}

var substs = []struct {
	class string
	by    []string
}{
	{"X", []string{wIdent}},
	{"A", []string{"=", "+="}},
	{"B", []string{"b"}},
	{"P", []string{"++", "--"}},
	{"b", words("* + == && <")},
	{"U", words("- ! typeof ++")},
	{"W", []string{wIdent, "if", "get"}},
	{";?", []string{";"}},
	{"\\n?", []string{"\\n"}},
}

// thin replaces classes of a frame by examples until it costs at most max.
func thin(f []string, max int) []string {
	g := append([]string{}, f...)
	n := 1
	for _, w := range g {
		n *= cost(w)
	}
	for _, s := range substs {
		for i, w := range g {
			if n <= max {
				return g
			}
			if w == s.class {
				g[i] = s.by[(i+len(f))%len(s.by)]
				n = n / cost(w) * cost(g[i])
			}
		}
	}
	return g
}

// corpus picks a program and its mode.
func corpus(which, max int) ([]string, parser.ParseMode) {
	fs, mode := exprFrames, parser.ExpressionMode
	switch which {
	case 1:
		fs, mode = stmtFrames, parser.ScriptMode
	case 2:
		fs, mode = moduleFrames, parser.ModuleMode
	}
	return thin(words(fs[vsym.Pick("frame", len(fs))]), max), mode
}

// Every program of a corpus as it is.
func corpusPlain(want int) {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	s := &tokSource{}
	s.frame(f)
	judge(want, s.parse(mode), s)
}

// near is a frame with K adjacent tokens replaced by arbitrary tokens (a K of
// 0 stands for a deleted token), or with K arbitrary tokens put between.
func near(f []string, k int) ([]string, bool) {
	at := vsym.Pick("at", len(f)+1)
	drop := 1
	if k > 0 {
		drop = vsym.Pick("drop", 2) * k
	}
	if at+drop > len(f) {
		return nil, false
	}
	var g []string
	g = append(g, f[:at]...)
	for i := 0; i < k; i++ {
		g = append(g, "_")
	}
	return append(g, f[at+drop:]...), true
}

// Every program near one of a corpus.
func corpusNear(want int) {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	g, ok := near(f, vsym.Param("K"))
	if !ok {
		return
	}
	s := &tokSource{}
	s.frame(g)
	judge(want, s.parse(mode), s)
}

func H_C15_corpus() { corpusPlain(wantTokens) }
func H_C15_near()   { corpusNear(wantTokens) }
func H_C16_corpus() { corpusPlain(wantLevels) }
func H_C16_near()   { corpusNear(wantLevels) }
func H_C17_corpus() { corpusPlain(wantSemis) }
func H_C17_near()   { corpusNear(wantSemis) }
func H_C18_corpus() { corpusPlain(wantNames) }
func H_C18_near()   { corpusNear(wantNames) }
func H_C20_corpus() { corpusPlain(wantConvert) }
func H_C20_near()   { corpusNear(wantConvert) }
func H_C21_corpus() { corpusPlain(wantESTree) }
func H_C21_near()   { corpusNear(wantESTree) }
