package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C19: the same tokens as parameters of an arrow function and of a function
// expression, and as a parenthesized expression and by themselves.

var paramVoc = newVoc(words("<id> = , ... [ ] { } : ( ) + => async await yield <str> if get"))

var paramFrames = []string{
	"",
	"<id>",
	"<id> , <id>",
	"<id> , <id> ,",
	"<id> = X",
	"<id> = X B X , <id> = X ? X : X",
	"<id> = <id> = X",
	"<id> = ( X , X )",
	"<id> = ( <id> ) => X , <id>",
	"<id> = <id> => X",
	"<id> = [ X , X ]",
	"<id> = { <id> : X , <id> }",
	"<id> = function ( <id> ) { }",
	"... <id>",
	"<id> , ... <id>",
	"<id> = X , ... <id>",
	"[ ]",
	"[ <id> ]",
	"[ , ]",
	"[ , <id> , , <id> , ]",
	"[ <id> = X , <id> ]",
	"[ <id> = X ] = X",
	"[ ... <id> ]",
	"[ <id> , ... [ <id> ] ]",
	"[ ... { <id> , <id> : <id> } ]",
	"[ ... [ <id> = X , ... <id> ] ]",
	"[ [ <id> ] , { <id> } ]",
	"[ [ <id> = X ] = X , { <id> = X } = X ]",
	"{ }",
	"{ <id> }",
	"{ <id> , }",
	"{ <id> , <id> = X }",
	"{ W : <id> }",
	"{ W : <id> = X , <id> }",
	"{ <id> : [ <id> ] , <id> : { <id> } }",
	"{ <id> : [ <id> = X ] = X , ... <id> }",
	"{ <id> : { <id> : <id> = X } = X } = X",
	"{ ... <id> }",
	"{ <id> , ... <id> } , <id>",
	"{ <id> = X , <id> : <id> } , [ <id> ] , ... <id>",
	"N , N = X",
	"[ N ] , { N } , ... N",
	"{ N : N , N = X }",
	"[ ... N ] , { ... N }",
	"{ get : <id> , async , set : <id> = X }",
	"X",
	"X B X",
	"X . W",
	"<id> = X . W",
	"[ X , <id> ]",
	"( <id> )",
	"[ ( <id> ) ]",
	"{ <id> : ( <id> ) }",
	"X A X",
	"[ <id> A X ]",
	"{ <id> : <id> A X }",
	"{ [ X ] : <id> }",
	"{ <str> : <id> }",
	"{ <num> : <id> }",
	"{ <id> ( ) { } }",
	"{ get <id> ( ) { } }",
}

// list appends the tokens of another source.
func (s *tokSource) list(t *tokSource) {
	for _, k := range t.toks {
		s.add(k)
	}
}

// eqDoc is sameDoc for two documents of the same making.
func eqDoc(a, b interface{}, msg string) {
	switch w := b.(type) {
	case obj:
		g, ok := a.(obj)
		vsym.Assert(ok, msg)
		vsym.Assert(len(g) == len(w), msg)
		for k, v := range w {
			f, there := g[k]
			vsym.Assert(there, msg)
			eqDoc(f, v, msg)
		}
	case arr:
		g, ok := a.(arr)
		vsym.Assert(ok, msg)
		vsym.Assert(len(g) == len(w), msg)
		for i := range w {
			eqDoc(g[i], w[i], msg)
		}
	case string:
		g, ok := a.(string)
		vsym.Assert(ok, msg)
		vsym.Assert(vsym.EqStr(g, w), msg)
	case bool:
		g, ok := a.(bool)
		vsym.Assert(ok, msg)
		vsym.Assert(vsym.Iff(g, w), msg)
	case float64:
		g, ok := a.(float64)
		vsym.Assert(ok, msg)
		vsym.Assert(vsym.SameNumber(g, w), msg)
	case absent:
		_, ok := a.(absent)
		vsym.Assert(ok, msg)
	case nil:
		vsym.Assert(a == nil, msg)
	default:
		vsym.Fail("unknown document value")
	}
}

func functionOf(n ast.Node) (ast.FunctionExpression, bool) {
	if p, ok := n.(ast.ParenthesizedExpression); ok {
		n = p.Expression
	}
	f, ok := n.(ast.FunctionExpression)
	return f, ok
}

// arrowParams compares an arrow function with a function.
func arrowParams(t *tokSource) {
	async := vsym.Pick("async", 2) == 1
	a, f := &tokSource{}, &tokSource{}
	if async {
		a.words("async")
	}
	a.words("(")
	a.list(t)
	a.words(") => { }")
	ra := a.parse(parser.ExpressionMode)
	if ra.err != nil {
		vsym.Reach("rejected")
		return
	}
	if async {
		f.words("( async function (")
	} else {
		f.words("( function (")
	}
	f.list(t)
	f.words(") { } )")
	af, ok := ra.tree.(ast.FunctionExpression)
	if !ok {
		// The list closes the parentheses itself.
		return
	}
	if !af.Arrow {
		return
	}
	if b, ok := af.Body.(ast.BlockStatement); !ok || len(b.Body) != 0 {
		return
	}
	rf := f.parse(parser.ExpressionMode)
	vsym.Assert(rf.err == nil, "a parameter list is accepted for an arrow function only")
	ff, ok := functionOf(rf.tree)
	vsym.Assert(ok && !ff.Arrow, "a function expression is something else")
	vsym.Reach("accepted")
	vsym.Assert(af.Async == async, "async differs")
	vsym.Assert(!ra.tree.ContainsTemporalNodes(), "a placeholder node remains")
	eqDoc(refParams(af.Params), refParams(ff.Params), "the parameters differ")
}

// parenthesized compares an expression with the same in parentheses.
func parenthesized(t *tokSource) {
	p := &tokSource{}
	p.words("(")
	p.list(t)
	p.words(")")
	rp := p.parse(parser.ExpressionMode)
	rt := t.parse(parser.ExpressionMode)
	if rt.err == nil {
		vsym.Reach("expression")
		vsym.Assert(rp.err == nil, "an expression is not accepted in parentheses")
		pe, ok := rp.tree.(ast.ParenthesizedExpression)
		vsym.Assert(ok, "a parenthesized expression became something else")
		eqDoc(refNode(pe.Expression), refNode(rt.tree), "an expression means something else in parentheses")
		return
	}
	if rp.err == nil {
		_, ok := rp.tree.(ast.ParenthesizedExpression)
		vsym.Assert(!ok, "a list of parameters became an expression")
	}
}

// arguments compares a call of async with another call.
func asyncCall(t *tokSource) {
	a, f := &tokSource{}, &tokSource{}
	a.words("async (")
	a.list(t)
	a.words(")")
	f.words("f (")
	f.list(t)
	f.words(")")
	ra := a.parse(parser.ExpressionMode)
	if ra.err != nil {
		return
	}
	ac, ok := ra.tree.(ast.CallExpression)
	if !ok {
		return
	}
	if i, ok := ac.Callee.(ast.Identifier); !ok || i.Name != "async" {
		return
	}
	rf := f.parse(parser.ExpressionMode)
	vsym.Assert(rf.err == nil, "arguments are accepted for async only")
	fc, ok := rf.tree.(ast.CallExpression)
	vsym.Assert(ok, "a call became something else")
	vsym.Reach("call")
	vsym.Assert(!ra.tree.ContainsTemporalNodes(), "a placeholder node remains")
	eqDoc(refList(ac.Arguments), refList(fc.Arguments), "the arguments of a call of async differ")
}

func arrowList(t *tokSource) {
	switch vsym.Pick("what", 3) {
	case 0:
		arrowParams(t)
	case 1:
		parenthesized(t)
	case 2:
		asyncCall(t)
	}
}

func H_C19_any() {
	t := &tokSource{}
	n := vsym.Pick("len", vsym.Param("N")+1)
	for i := 0; i < n; i++ {
		t.any(fullVoc)
	}
	arrowList(t)
}

func H_C19_params() {
	t := &tokSource{}
	n := vsym.Pick("len", vsym.Param("N")+1)
	for i := 0; i < n; i++ {
		t.any(paramVoc)
	}
	arrowList(t)
}

func H_C19_frames() {
	t := &tokSource{}
	f := words(paramFrames[vsym.Pick("frame", len(paramFrames))])
	t.frame(thin(f, vsym.Param("MAX")))
	arrowList(t)
}

func H_C19_near() {
	t := &tokSource{}
	f := words(paramFrames[vsym.Pick("frame", len(paramFrames))])
	k := vsym.Param("K")
	g, ok := near(thin(f, vsym.Param("MAX")), k)
	if !ok {
		return
	}
	t.frame(g)
	arrowList(t)
}
