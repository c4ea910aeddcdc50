package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C24: the spans of the nodes below a program.

func below(n ast.Node) []ast.Node {
	switch t := n.(type) {
	case ast.ScriptNode:
		return t.Body
	case ast.ModuleNode:
		return t.Body
	case *ast.ScriptNode:
		return t.Body
	case *ast.ModuleNode:
		return t.Body
	}
	return nil
}

func cleared(s *tokSource, mode parser.ParseMode) {
	r := s.parse(mode)
	if r.err != nil {
		return
	}
	again := &tokSource{toks: s.toks}
	q := again.parse(mode)
	if q.err != nil {
		return
	}
	vsym.Reach("tree")
	if len(below(r.tree)) > 0 && !vsym.NoSpans(below(r.tree)) {
		vsym.Reach("spans")
	}
	ast.ClearSpans(r.tree)
	vsym.Assert(vsym.NoSpans(below(r.tree)), "a span is left")
	vsym.Assert(vsym.SameButSpans(r.tree, q.tree), "clearing spans changed something else")
	// a pointer to the root clears the root, too
	if t, ok := q.tree.(ast.ScriptNode); ok {
		ast.ClearSpans(&t)
		vsym.Assert(vsym.NoSpans(&t), "a span is left below a pointer")
		vsym.Assert(vsym.SameButSpans(r.tree, t), "clearing spans below a pointer changed something else")
	}
}

func H_C24_any() {
	mode := parser.ParseMode(vsym.Pick("mode", 2))
	cleared(anyTokens(fullVoc, vsym.Param("N")), mode)
}

func H_C24_corpus() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	s := &tokSource{}
	if mode == parser.ExpressionMode {
		s.words("<id> =")
		mode = parser.ScriptMode
	}
	s.frame(f)
	cleared(s, mode)
}

func H_C24_near() {
	f, mode := corpus(vsym.Param("C"), vsym.Param("MAX"))
	g, ok := near(f, vsym.Param("K"))
	if !ok {
		return
	}
	s := &tokSource{}
	if mode == parser.ExpressionMode {
		s.words("<id> =")
		mode = parser.ScriptMode
	}
	s.frame(g)
	cleared(s, mode)
}
