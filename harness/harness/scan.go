package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C12: token lookahead. The oracle is the lexer itself, run over the same text
// without lookahead: toks[i] is token i, locs[i] the lexer location before it.
func lookahead(rs []rune, k, dist int) {
	l := newLexer(rs)
	var toks []lexer.Token
	var locs []ast.Location
	for i := 0; i < k*(dist+1)+1; i++ {
		locs = append(locs, l.Location())
		s := lexOne(l)
		if s.err != nil || s.bad {
			return
		}
		toks = append(toks, s.tok)
		if s.tok.Type == lexer.TokenNone && i > len(rs) {
			break
		}
	}
	at := func(i int) int {
		if i >= len(toks) {
			return len(toks) - 1
		}
		return i
	}
	s := parser.NewScanner(newLexer(rs))
	scanned := 0
	ahead := 0
	ops := ""
	for i := 0; i < k; i++ {
		op := vsym.Pick("op"+itoa(i), dist+1)
		if op == 0 {
			t := s.Scan()
			vsym.Assert(sameTok(t, toks[at(scanned)]), "scanning gives another token")
			scanned++
			if ahead > 0 {
				ahead--
			}
			ops += "s"
			vsym.Reach("scan")
		} else {
			t := s.PeekAt(op - 1)
			vsym.Assert(sameTok(t, toks[at(scanned+op-1)]), "peeking shows another token")
			if ahead < op {
				ahead = op
			}
			ops += itoa(op - 1)
			vsym.Reach("peek")
		}
		vsym.Assert(s.PeekLen() == ahead, "the lookahead length differs")
		loc := s.Location()
		want := locs[at(scanned)]
		vsym.Assert(vsym.And(loc.Row == want.Row, loc.Column == want.Column), "the location depends on lookahead")
	}
	vsym.Noteq("ops", ops)
}

func sameTok(a, b lexer.Token) bool {
	return vsym.And(a.Type == b.Type, vsym.And(vsym.EqStr(a.Literal, b.Literal), a.NewLine == b.NewLine))
}

func H_C12_ops() {
	texts := []string{"a\n+ 1 'x'\nb;/* */c d", "", "x", "f ( ) \n { }"}
	rs := []rune(texts[vsym.Pick("text", len(texts))])
	vsym.Noteq("text", string(rs))
	lookahead(rs, vsym.Param("K"), vsym.Param("D"))
}

func H_C12_any() {
	lookahead(anyText("c", vsym.Param("N")), vsym.Param("K"), vsym.Param("D"))
}
