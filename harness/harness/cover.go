package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// Programs with something at a place that means something only in patterns and
// parameter lists, which the parser reads before it knows what they are.

// covers are what the parser reads ahead of a =>.
var coverOnly = []string{
	"{ <id> = <id> }",
	"{ <id> , <id> = <num> }",
	"[ ... <id> ]",
	"[ <id> , ... [ <id> ] ]",
	"{ ... <id> }",
	"{ <id> : <id> , ... <id> }",
	"... <id>",
	"( )",
	"<id> ,",
}

// coverPlaces are the places H of an expression.
var coverPlaces = []string{
	"H",
	"H , <id>",
	"<id> , H",
	"<id> , H , <id>",
	"H + <id>",
	"<id> + H",
	"<id> ** H",
	"<id> && H",
	"<id> ?? H",
	"<id> in H",
	"H < <id>",
	"H ? <id> : <id>",
	"<id> ? H : <id>",
	"<id> ? <id> : H",
	"H . <id>",
	"H ?. <id>",
	"H [ <id> ]",
	"<id> [ H ]",
	"<id> ?. [ H ]",
	"H ( <id> )",
	"<id> ( H )",
	"<id> ( <id> , H )",
	"<id> ( ... H )",
	"<id> ?. ( H )",
	"new H",
	"new <id> ( H )",
	"- H",
	"typeof H",
	"H ++",
	"-- H",
	"[ H ]",
	"[ <id> , H ]",
	"[ , H , ]",
	"{ <id> : H }",
	"{ <id> , <id> : H }",
	"{ [ H ] : <id> }",
	"{ <id> ( <id> = H ) { } }",
	"{ get <id> ( ) { H } }",
	"<id> = H",
	"<id> += H",
	"H = <id>",
	"{ <id> = H }",
	"[ <id> = H ]",
	"[ ... H ]",
	"( H )",
	"<id> => H",
	"( <id> = H ) => <id>",
	"( H ) => <id>",
	"H => <id>",
	"async ( H )",
	"async ( H ) => <id>",
	"async <id> => H",
	"function ( <id> = H ) { }",
	"function ( ) { return H }",
	"class extends H { }",
	"class { <id> ( ) { H } }",
	"class { [ H ] ( ) { } }",
}

// put puts a text in the place H.
func put(place, by string) string {
	out := ""
	for i := 0; i < len(place); i++ {
		if place[i] == 'H' {
			out += by
		} else {
			out += string(place[i])
		}
	}
	return out
}

// coverProgram picks a program.
func coverProgram() (*tokSource, parser.ParseMode) {
	text := coverOnly[vsym.Pick("cover", len(coverOnly))]
	for i := 0; i < vsym.Param("DEPTH"); i++ {
		text = put(coverPlaces[vsym.Pick("place"+itoa(i), len(coverPlaces))], text)
	}
	text = put([]string{"( H )", "async ( H )", "H", "<id> = H"}[vsym.Pick("start", 4)], text)
	s := &tokSource{}
	s.words(text)
	n := vsym.Pick("more", vsym.Param("N")+1)
	for i := 0; i < n; i++ {
		s.any(fullVoc)
	}
	return s, parser.ExpressionMode
}

func coverJudge(want int) {
	s, mode := coverProgram()
	if len(s.toks) > maxTok {
		return
	}
	judge(want, s.parse(mode), s)
}

func H_C15_cover() { coverJudge(wantTokens) }
func H_C20_cover() { coverJudge(wantConvert) }
func H_C21_cover() { coverJudge(wantESTree) }
