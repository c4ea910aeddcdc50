package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C29: the span a node records begins after the token before the node, and not
// after its first token, and ends with its last token.

// place is a row and a column.
type place struct{ row, col int }

func (p place) is(l ast.Location) bool {
	return vsym.And(p.row == l.Row, p.col == l.Column)
}

func (p place) notAfter(l ast.Location) bool {
	return vsym.Or(p.row < l.Row, vsym.And(p.row == l.Row, p.col <= l.Column))
}

func (p place) notBefore(l ast.Location) bool {
	return vsym.Or(p.row > l.Row, vsym.And(p.row == l.Row, p.col >= l.Column))
}

// places computes where the tokens start and end.
func (s *tokSource) places() (starts, ends []place) {
	p := place{1, 1}
	for i := range s.toks {
		t := &s.toks[i]
		sep := 1
		if i == 0 {
			sep = 0
		}
		p.row += vsym.IteInt(t.nl, 1, 0)
		p.col = vsym.IteInt(t.nl, 1, p.col+sep)
		starts = append(starts, p)
		p.col += t.srcLen()
		ends = append(ends, p)
	}
	return
}

func unset(l ast.Location) bool { return l.Row == 0 && l.Column == 0 }

// recorded is whether a node must have a span.
func recorded(n ast.Node) bool {
	switch t := n.(type) {
	case ast.Identifier, ast.ThisExpression, ast.NullLiteral, ast.BooleanLiteral, ast.NumberLiteral, ast.StringLiteral,
		ast.ClassExpression, ast.SpreadElement:
		return false
	case ast.ExpressionStatement:
		return recorded(t.Expression)
	case ast.CallExpression:
		// The call of a function that is named async has none.
		id, ok := t.Callee.(ast.Identifier)
		return !ok || id.Name != "async"
	}
	return true
}

// covers asserts that a node that begins with token i and was just written has
// a span of its tokens, if it has any.
func (w *walker) covers(n ast.Node, i int) {
	if !w.spans {
		return
	}
	s := n.Span()
	if unset(s.Start) && unset(s.End) {
		vsym.Assert(!recorded(n), "a node without a span")
		return
	}
	vsym.Reach("span")
	vsym.Assert(!unset(s.Start), "a span without a start")
	vsym.Assert(!unset(s.End), "a span without an end")
	before := place{1, 1}
	if i > 0 {
		before = w.ends[i-1]
	}
	vsym.Assert(before.notAfter(s.Start), "a span starts within what comes before the node")
	if i < len(w.starts) {
		vsym.Assert(w.starts[i].notBefore(s.Start), "a span starts after the first token of the node")
	}
	j := w.i - 1
	if j < 0 {
		vsym.Assert(before.is(s.End), "the span of an empty program ends elsewhere")
		return
	}
	ok := w.ends[j].is(s.End)
	if _, isExpr := n.(ast.ExpressionStatement); isExpr && j > i {
		// with or without its semicolon
		ok = vsym.Or(ok, vsym.And(vsym.EqStr(w.s.toks[j].source(), ";"), w.ends[j-1].is(s.End)))
	}
	vsym.Assert(ok, "a span does not end with the last token of the node")
}

// covered is a program whose spans are looked at.
func covered(s *tokSource, mode parser.ParseMode) {
	s.track = true
	judge(wantSpans, s.parse(mode), s)
}

func H_C29_any() {
	mode := parser.ParseMode(vsym.Pick("mode", 3))
	covered(anyTokens(fullVoc, vsym.Param("N")), mode)
}

func H_C29_corpus() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	s := &tokSource{}
	s.frame(f)
	covered(s, mode)
}

func H_C29_near() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	g, ok := near(f, vsym.Param("K"))
	if !ok {
		return
	}
	s := &tokSource{}
	s.frame(g)
	covered(s, mode)
}

// generated programs
func (g *gen) covered(mode parser.ParseMode) {
	covered(g.s, mode)
}

func H_C29_expressions() {
	g := newGen()
	g.exprOf(g.kind(xKinds), gComma, false)
	g.covered(parser.ExpressionMode)
}

func H_C29_statements() {
	g := newGen()
	g.stmtOf(g.kind(sKinds), false)
	for i := g.pick(3); i > 0; i-- {
		g.stmt(false, false)
	}
	g.covered(parser.ScriptMode)
}

func H_C29_modules() {
	g := newGen()
	g.importDecl()
	if g.maybe() {
		g.importDecl()
	}
	g.covered(parser.ModuleMode)
}
