package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// gen derives programs from the grammar the parser supports, together with
// their ESTree documents. A program differs from the plainest one of its kind
// in at most left choices; its operators are any of their level, and every
// token may follow a line break where the grammar gives that no meaning.
type gen struct {
	s       *tokSource
	left    int
	n       int
	omitted bool // a semicolon was left out before the next token
	dropped bool // the next token is not a semicolon
	same    bool // the next token is on the same line
	start   int  // where an expression statement or arrow body begins
	fn      bool // inside of a function
	loop    bool // inside of a loop
	sw      bool // inside of a switch
	labels  []string
	loops   []string // labels of loops
	each    bool     // operators and line breaks are independent of each other
	breaks  bool     // without each: there is a line break wherever one may be
	ops     bool     // without each: operators are independent of each other
	kinds   []int    // what a subexpression may be, or nil for anything
}

func newGen() *gen {
	g := &gen{s: &tokSource{}, left: vsym.Param("DIFF"), start: -1, each: vsym.Param("EACH") == 1}
	if !g.each {
		g.breaks = vsym.Bool("breaks")
	}
	return g
}

// broken is whether the token at a position follows a line break.
func (g *gen) broken(pos int) bool {
	if g.each {
		return vsym.Bool("nl" + itoa(pos))
	}
	return g.breaks
}

func (g *gen) pick(n int) int {
	if g.left == 0 {
		return 0
	}
	g.n++
	i := vsym.Pick("pick"+itoa(g.n), n)
	if i > 0 {
		g.left--
	}
	return i
}

func (g *gen) maybe() bool { return g.pick(2) == 1 }

// continues is whether a token may continue the statement before it.
func continues(w string) bool {
	return oneOf(w, words("( [ + - / . , * <re> <re=> ;"))
}

func (g *gen) placed(w string) {
	t := &g.s.toks[len(g.s.toks)-1]
	vsym.Assume(!g.dropped || w != ";")
	g.dropped = false
	switch {
	case g.omitted:
		g.omitted = false
		if w == "}" {
			t.nl = g.broken(t.pos)
		} else {
			vsym.Assume(!continues(w))
			t.nl = true
		}
	case g.same || t.pos == 0:
	default:
		t.nl = g.broken(t.pos)
	}
	g.same = false
}

// tok emits words.
func (g *gen) tok(ws ...string) {
	for _, w := range ws {
		g.s.word(w)
		g.placed(w)
	}
}

// any emits any word of a vocabulary and returns it.
func (g *gen) any(v *voc) string {
	vsym.Assume(len(g.s.toks) < maxTok)
	if !g.each && !g.ops {
		// The levels of two operators matter, not which of their levels they are.
		g.tok(v.srcs[0][0])
		return v.srcs[0][0]
	}
	g.s.any(v)
	t := &g.s.toks[len(g.s.toks)-1]
	g.placed("")
	return vsym.Select(t.k, v.srcs[t.pos])
}

// name emits a new identifier.
func (g *gen) name() string {
	n := "a" + itoa(len(g.s.toks))
	g.tok(wIdent)
	return n
}

func ident(n string) interface{} { return obj{"type": "Identifier", "name": n} }

// semi ends a statement.
func (g *gen) semi() {
	if g.maybe() {
		g.omitted = true
		return
	}
	g.tok(";")
}

// Levels of the generator: twice the walker's, so that ?? has its own.
const (
	gComma    = 2 * lComma
	gAssign   = 2 * lAssign
	gCond     = 2 * lCond
	gCoalesce = 2*lOr - 1
	gOr       = 2 * lOr
	gUnary    = 2 * lUnary
	gUpdate   = 2 * lUpdate
	gOptional = 2 * lOptional
	gNew      = 2 * lNew
	gCall     = 2 * lCall
	gMember   = 2 * lMember
	gPrimary  = 2 * lPrimary
)

type opLevel struct {
	ops, noIn   *voc
	level       int
	left, right int
	typ         string
}

var opLevels = []opLevel{
	{newVoc(words("+ -")), nil, 2 * lAdd, 2 * lAdd, 2 * lMul, "BinaryExpression"},
	{newVoc(words("* / %")), nil, 2 * lMul, 2 * lMul, 2 * lExp, "BinaryExpression"},
	{newVoc(words("**")), nil, 2 * lExp, gUpdate, 2 * lExp, "BinaryExpression"},
	{newVoc(words("<< >> >>>")), nil, 2 * lShift, 2 * lShift, 2 * lAdd, "BinaryExpression"},
	{newVoc(words("in < > <= >= instanceof")), newVoc(words("< > <= >= instanceof")), 2 * lRel, 2 * lRel, 2 * lShift, "BinaryExpression"},
	{newVoc(words("== != === !==")), nil, 2 * lEq, 2 * lEq, 2 * lRel, "BinaryExpression"},
	{newVoc(words("&")), nil, 2 * lBitAnd, 2 * lBitAnd, 2 * lEq, "BinaryExpression"},
	{newVoc(words("^")), nil, 2 * lBitXor, 2 * lBitXor, 2 * lBitAnd, "BinaryExpression"},
	{newVoc(words("|")), nil, 2 * lBitOr, 2 * lBitOr, 2 * lBitXor, "BinaryExpression"},
	{newVoc(words("&&")), nil, 2 * lAnd, 2 * lAnd, 2 * lBitOr, "LogicalExpression"},
	{newVoc(words("||")), nil, gOr, gOr, 2 * lAnd, "LogicalExpression"},
	{newVoc(words("??")), nil, gCoalesce, 2 * lBitOr, 2 * lBitOr, "LogicalExpression"},
}

var (
	vocUnary  = newVoc(words("delete void typeof + - ~ !"))
	vocUpdate = newVoc(words("++ --"))
	vocAssign = newVoc(words("*= /= %= += -= <<= >>= >>>= &= ^= |= **= &&= ||= ??="))
	vocDecl   = newVoc(words("let const"))
	vocWord   = newVoc(wordTokens())
)

// Kinds of expressions.
const (
	xName = iota
	xLiteral
	xBinary
	xUnary = xBinary + 12 + iota - 3
	xPrefix
	xPostfix
	xAssign
	xCompound
	xPattern
	xCond
	xSequence
	xParen
	xChain
	xNew
	xArray
	xObject
	xFunction
	xClass
	xArrow
	xKinds
)

// expr is an expression that binds at least as tightly as need.
func (g *gen) expr(need int, noIn bool) interface{} {
	if g.kinds != nil {
		return g.exprOf(g.kinds[g.pick(len(g.kinds))], need, noIn)
	}
	return g.exprOf(g.pick(xKinds), need, noIn)
}

// within is an expression between brackets or the like.
func (g *gen) within(need int) interface{} { return g.expr(need, false) }

func (g *gen) exprOf(kind, need int, noIn bool) interface{} {
	level := gPrimary
	var links []int
	withArgs := 0
	switch {
	case kind >= xBinary && kind < xUnary:
		level = opLevels[kind-xBinary].level
	case kind == xUnary:
		level = gUnary
	case kind == xPrefix || kind == xPostfix:
		level = gUpdate
	case kind == xAssign || kind == xCompound || kind == xPattern || kind == xArrow:
		level = gAssign
	case kind == xCond:
		level = gCond
	case kind == xSequence:
		level = gComma
	case kind == xChain:
		level = gMember
		for {
			l := g.pick(6)
			links = append(links, l)
			switch {
			case l >= 3 && level > gOptional:
				level = gOptional
			case l == 2 && level > gCall:
				level = gCall
			}
			if len(links) == 3 || !g.maybe() {
				break
			}
		}
	case kind == xNew:
		withArgs = g.pick(4)
		level = gMember
		if withArgs == 1 {
			level = gNew
		}
	}
	wrap := level < need
	if len(g.s.toks) == g.start {
		switch kind {
		case xLiteral, xObject, xFunction, xClass:
			wrap = true
		}
	}
	if wrap {
		g.tok("(")
		d := g.bare(kind, level, links, withArgs, false)
		g.tok(")")
		return d
	}
	return g.bare(kind, level, links, withArgs, noIn)
}

func (g *gen) bare(kind, level int, links []int, withArgs int, noIn bool) interface{} {
	if kind >= xBinary && kind < xUnary {
		o := opLevels[kind-xBinary]
		l := g.expr(o.left, noIn)
		v := o.ops
		if noIn && o.noIn != nil {
			v = o.noIn
		}
		op := g.any(v)
		return obj{"type": o.typ, "operator": op, "left": l, "right": g.expr(o.right, noIn)}
	}
	switch kind {
	case xLiteral:
		return g.literal()
	case xUnary:
		op := g.any(vocUnary)
		return obj{"type": "UnaryExpression", "operator": op, "prefix": true, "argument": g.expr(gUnary, noIn)}
	case xPrefix:
		op := g.any(vocUpdate)
		return obj{"type": "UpdateExpression", "operator": op, "prefix": true, "argument": g.target()}
	case xPostfix:
		t := g.target()
		g.same = true
		return obj{"type": "UpdateExpression", "operator": g.any(vocUpdate), "prefix": false, "argument": t}
	case xAssign:
		t := g.target()
		g.tok("=")
		return obj{"type": "AssignmentExpression", "operator": "=", "left": t, "right": g.expr(gAssign, noIn)}
	case xCompound:
		t := g.target()
		op := g.any(vocAssign)
		return obj{"type": "AssignmentExpression", "operator": op, "left": t, "right": g.expr(gAssign, noIn)}
	case xPattern:
		t := g.assignPattern(len(g.s.toks) != g.start)
		g.tok("=")
		return obj{"type": "AssignmentExpression", "operator": "=", "left": t, "right": g.expr(gAssign, noIn)}
	case xCond:
		t := g.expr(gCoalesce, noIn)
		g.tok("?")
		c := g.within(gAssign)
		g.tok(":")
		return obj{"type": "ConditionalExpression", "test": t, "consequent": c, "alternate": g.expr(gAssign, noIn)}
	case xSequence:
		l := arr{g.expr(gAssign, noIn)}
		for i := g.pick(2); i >= 0; i-- {
			g.tok(",")
			l = append(l, g.expr(gAssign, noIn))
		}
		return obj{"type": "SequenceExpression", "expressions": l}
	case xParen:
		g.tok("(")
		d := g.within(gComma)
		g.tok(")")
		return d
	case xChain:
		return g.chain(level, links, noIn)
	case xNew:
		g.tok("new")
		c := g.expr(gMember, noIn)
		args := arr{}
		if withArgs != 1 {
			args = g.args(withArgs)
		}
		return obj{"type": "NewExpression", "callee": c, "arguments": args}
	case xArray:
		g.tok("[")
		l := g.elements(arrayShapes, func() interface{} { return g.within(gAssign) }, nil)
		g.tok("]")
		return obj{"type": "ArrayExpression", "elements": l}
	case xObject:
		return g.object()
	case xFunction:
		return g.function()
	case xClass:
		return g.class("ClassExpression")
	case xArrow:
		return g.arrow(noIn)
	}
	return ident(g.name())
}

func lit(value interface{}, raw string) interface{} {
	return obj{"type": "Literal", "value": value, "raw": raw}
}

func (g *gen) literal() interface{} {
	p := len(g.s.toks)
	switch g.pick(7) {
	case 1:
		return g.str()
	case 2:
		g.tok("null")
		return lit(nil, "null")
	case 3:
		g.tok("true")
		return lit(true, "true")
	case 4:
		g.tok("false")
		return lit(false, "false")
	case 5:
		g.tok(wRegex)
		return obj{"type": "Literal", "raw": "/r" + itoa(p) + "/g", "regex": obj{"pattern": "r" + itoa(p), "flags": "g"}}
	case 6:
		g.tok("this")
		return obj{"type": "ThisExpression"}
	}
	return g.number()
}

func (g *gen) str() interface{} {
	v := "s" + itoa(len(g.s.toks))
	g.tok(wString)
	return lit(v, "'"+v+"'")
}

// number is 1N at position N.
func (g *gen) number() interface{} {
	p := len(g.s.toks)
	g.tok(wNumber)
	f := 10.0
	if p >= 10 {
		f = 100
	}
	return lit(f+float64(p), "1"+itoa(p))
}

// target is a name or a member.
func (g *gen) target() interface{} {
	switch g.pick(3) {
	case 1:
		return g.chain(gMember, []int{0}, false)
	case 2:
		return g.chain(gMember, []int{1}, false)
	}
	return ident(g.name())
}

// property emits the name of a property after a dot.
func (g *gen) property() interface{} {
	if g.maybe() {
		return ident(g.any(vocWord))
	}
	return ident(g.name())
}

// chain is member accesses and calls: 0 .a, 1 [a], 2 (), and 3 to 5 the same
// after ?. .
func (g *gen) chain(level int, links []int, noIn bool) interface{} {
	need := gCall
	if level > gCall {
		need = gMember
	}
	d := g.expr(need, noIn)
	optional := false
	for _, l := range links {
		opt := l >= 3
		if opt {
			optional = true
			g.tok("?.")
		}
		switch l % 3 {
		case 0:
			if !opt {
				g.tok(".")
			}
			d = obj{"type": "MemberExpression", "object": d, "property": g.property(), "computed": false, "optional": opt}
		case 1:
			g.tok("[")
			d = obj{"type": "MemberExpression", "object": d, "property": g.within(gComma), "computed": true, "optional": opt}
			g.tok("]")
		case 2:
			d = obj{"type": "CallExpression", "callee": d, "arguments": g.args(g.pick(4)), "optional": opt}
		}
	}
	if optional {
		return obj{"type": "ChainExpression", "expression": d}
	}
	return d
}

// args is the arguments of a call: none for 0 or 1, else one less than n.
func (g *gen) args(n int) arr {
	l := arr{}
	g.tok("(")
	for i := 1; i < n; i++ {
		if i > 1 {
			g.tok(",")
		}
		if g.maybe() {
			g.tok("...")
			l = append(l, obj{"type": "SpreadElement", "argument": g.within(gAssign)})
			continue
		}
		l = append(l, g.within(gAssign))
	}
	if n > 1 && g.maybe() {
		g.tok(",")
	}
	g.tok(")")
	return l
}

// The elements between the brackets of arrays and array patterns: e is an
// element and r a rest element.
var (
	arrayShapes   = []string{"", "e", "e,e", "e,", ",", ",e", ",,", ",,e", "e,,e", "e,,", "e,e,", "e,e,e", ",,,e,,,e,,"}
	bindingShapes = append(arrayShapes[:len(arrayShapes):len(arrayShapes)], "r", "e,r", ",r", ",,r", "e,,r", "e,e,r")
)

// The same for lists without holes.
var (
	propShapes  = words("- e e,e e, e,e, e,e,e")
	paramShapes = words("- e e,e e, e,e, e,e,e r e,r e,e,r")
)

// elements is the elements of one of some shapes.
func (g *gen) elements(shapes []string, element, rest func() interface{}) arr {
	l := arr{}
	hole := true
	for _, c := range shapes[g.pick(len(shapes))] {
		switch c {
		case '-':
		case 'e':
			l = append(l, element())
			hole = false
		case 'r':
			g.tok("...")
			l = append(l, rest())
		default:
			if hole {
				l = append(l, nil)
			}
			g.tok(",")
			hole = true
		}
	}
	return l
}

// assignPattern is a destructuring target.
func (g *gen) assignPattern(object bool) interface{} {
	element := func() interface{} {
		var t interface{}
		switch g.pick(3) {
		case 1:
			t = g.assignPattern(true)
		case 2:
			t = g.chain(gMember, []int{g.pick(2)}, false)
		default:
			t = ident(g.name())
		}
		return g.withDefault(t)
	}
	if object && g.maybe() {
		g.tok("{")
		l := arr{}
		n := g.pick(3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.tok(",")
			}
			p := obj{"type": "Property", "computed": false, "kind": "init", "method": false, "shorthand": false}
			switch g.pick(5) {
			case 1:
				p["key"] = ident(g.name())
				p["value"] = p["key"]
				p["shorthand"] = true
			case 2:
				p["key"] = g.str()
				g.tok(":")
				p["value"] = element()
			case 3:
				g.tok("[")
				p["key"] = g.within(gAssign)
				p["computed"] = true
				g.tok("]", ":")
				p["value"] = element()
			case 4:
				p["key"] = ident(g.any(vocWord))
				g.tok(":")
				p["value"] = element()
			default:
				p["key"] = ident(g.name())
				g.tok(":")
				p["value"] = element()
			}
			l = append(l, p)
		}
		if n > 0 && g.maybe() {
			g.tok(",")
		}
		g.tok("}")
		return obj{"type": "ObjectPattern", "properties": l}
	}
	g.tok("[")
	l := g.elements(arrayShapes, element, nil)
	g.tok("]")
	return obj{"type": "ArrayPattern", "elements": l}
}

// withDefault may add a default to a target or binding.
func (g *gen) withDefault(t interface{}) interface{} {
	if !g.maybe() {
		return t
	}
	g.tok("=")
	return obj{"type": "AssignmentPattern", "left": t, "right": g.within(gAssign)}
}

// binding is a name or a binding pattern.
func (g *gen) binding() interface{} {
	switch g.pick(3) {
	case 1:
		return g.arrayBinding()
	case 2:
		g.tok("{")
		l := arr{}
		n := g.pick(3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.tok(",")
			}
			p := obj{"type": "Property", "computed": false, "kind": "init", "method": false}
			switch g.pick(3) {
			case 1:
				p["key"] = ident(g.name())
				g.tok(":")
				p["value"] = g.withDefault(g.binding())
				p["shorthand"] = false
			case 2:
				p["key"] = ident(g.any(vocWord))
				g.tok(":")
				p["value"] = g.withDefault(g.binding())
				p["shorthand"] = false
			default:
				p["key"] = ident(g.name())
				p["value"] = g.withDefault(p["key"])
				p["shorthand"] = true
			}
			l = append(l, p)
		}
		switch {
		case g.maybe():
			if n > 0 {
				g.tok(",")
			}
			g.tok("...")
			l = append(l, refRest(ident(g.name())))
		case n > 0 && g.maybe():
			g.tok(",")
		}
		g.tok("}")
		return obj{"type": "ObjectPattern", "properties": l}
	}
	return ident(g.name())
}

func (g *gen) arrayBinding() interface{} {
	g.tok("[")
	l := g.elements(bindingShapes, func() interface{} { return g.withDefault(g.binding()) },
		func() interface{} { return refRest(g.binding()) })
	g.tok("]")
	return obj{"type": "ArrayPattern", "elements": l}
}

// params is a parameter list between parentheses.
func (g *gen) params() arr {
	g.tok("(")
	l := g.elements(paramShapes, func() interface{} { return g.withDefault(g.binding()) },
		func() interface{} { return refRest(ident(g.name())) })
	g.tok(")")
	return l
}

// body is a function body.
func (g *gen) body() interface{} {
	saved := *g
	g.fn, g.loop, g.sw, g.labels, g.loops = true, false, false, nil, nil
	g.tok("{")
	l := g.stmts(true)
	g.tok("}")
	g.fn, g.loop, g.sw, g.labels, g.loops = saved.fn, saved.loop, saved.sw, saved.labels, saved.loops
	return obj{"type": "BlockStatement", "body": l}
}

func funcDoc(typ string, id interface{}, params arr, body interface{}, gen, async, expression bool) obj {
	return obj{"type": typ, "id": id, "params": params, "body": body, "generator": gen, "async": async, "expression": expression}
}

func (g *gen) function() interface{} {
	form := g.pick(4)
	async, star := form&1 == 1, form&2 == 2
	if async {
		g.tok("async")
		g.same = true
	}
	g.tok("function")
	if star {
		g.tok("*")
	}
	var id interface{}
	if g.maybe() {
		id = ident(g.name())
	}
	p := g.params()
	return funcDoc("FunctionExpression", id, p, g.body(), star, async, false)
}

func (g *gen) arrow(noIn bool) interface{} {
	form := g.pick(4)
	async := form&1 == 1
	if async {
		g.tok("async")
		g.same = true
	}
	var p arr
	if form&2 == 2 {
		p = g.params()
	} else {
		p = arr{ident(g.name())}
	}
	g.same = true
	g.tok("=>")
	if g.maybe() {
		return funcDoc("ArrowFunctionExpression", nil, p, g.body(), false, async, false)
	}
	saved := g.start
	g.start = len(g.s.toks)
	b := g.expr(gAssign, noIn)
	g.start = saved
	return funcDoc("ArrowFunctionExpression", nil, p, b, false, async, true)
}

// methodDoc emits the parameters and the body of a method: 0 any, 1 a getter,
// 2 a setter.
func (g *gen) methodDoc(kind int, gen, async bool) interface{} {
	var p arr
	switch kind {
	case 0:
		p = g.params()
	case 1:
		p = arr{}
		g.tok("(", ")")
	case 2:
		g.tok("(")
		p = arr{g.withDefault(g.binding())}
		g.tok(")")
	}
	return funcDoc("FunctionExpression", nil, p, g.body(), gen, async, false)
}

// key emits a property key.
func (g *gen) key(literals bool) (interface{}, bool) {
	n := 3
	if literals {
		n = 5
	}
	switch g.pick(n) {
	case 1:
		return ident(g.any(vocWord)), false
	case 2:
		g.tok("[")
		k := g.within(gAssign)
		g.tok("]")
		return k, true
	case 3:
		return g.str(), false
	case 4:
		return g.number(), false
	}
	return ident(g.name()), false
}

func (g *gen) object() interface{} {
	g.tok("{")
	l := g.elements(propShapes, g.prop, nil)
	g.tok("}")
	return obj{"type": "ObjectExpression", "properties": l}
}

func (g *gen) prop() interface{} {
	p := obj{"type": "Property", "kind": "init", "method": false, "shorthand": false}
	kind := g.pick(8)
	switch kind {
	case 1:
		p["key"] = ident(g.name())
		p["computed"] = false
		p["value"] = p["key"]
		p["shorthand"] = true
	case 2, 3, 4, 5:
		async, star := kind&1 == 1, kind >= 4
		if async {
			g.tok("async")
			g.same = true
		}
		if star {
			g.tok("*")
		}
		p["key"], p["computed"] = g.key(true)
		p["method"] = true
		p["value"] = g.methodDoc(0, star, async)
	case 6:
		g.tok("get")
		p["kind"] = "get"
		p["key"], p["computed"] = g.key(true)
		p["value"] = g.methodDoc(1, false, false)
	case 7:
		g.tok("set")
		p["kind"] = "set"
		p["key"], p["computed"] = g.key(true)
		p["value"] = g.methodDoc(2, false, false)
	default:
		p["key"], p["computed"] = g.key(true)
		g.tok(":")
		p["value"] = g.within(gAssign)
	}
	return p
}

func (g *gen) class(typ string) interface{} {
	g.tok("class")
	var id, super interface{}
	if typ == "ClassDeclaration" || g.maybe() {
		id = ident(g.name())
	}
	if g.maybe() {
		g.tok("extends")
		super = g.expr(gOptional, false)
	}
	g.tok("{")
	l := arr{}
	for i := g.pick(3); i > 0; i-- {
		m := obj{"type": "MethodDefinition", "static": false, "kind": "method"}
		kind := g.pick(6)
		if kind >= 3 {
			g.tok("static")
			m["static"] = true
			kind -= 3
		}
		switch kind {
		case 1:
			g.tok("get")
			m["kind"] = "get"
		case 2:
			g.tok("set")
			m["kind"] = "set"
		}
		m["key"], m["computed"] = g.key(false)
		m["value"] = g.methodDoc(kind, false, false)
		l = append(l, m)
	}
	g.tok("}")
	return obj{"type": typ, "id": id, "superClass": super, "body": obj{"type": "ClassBody", "body": l}}
}

// Kinds of statements.
const (
	sExpr = iota
	sEmpty
	sBlock
	sVar
	sIf
	sWhile
	sDo
	sFor
	sForIn
	sForOf
	sSwitch
	sTry
	sThrow
	sLabel
	sReturn
	sBreak
	sContinue
	sLexical
	sFunction
	sClass
	sKinds
)

// stmts is a list of statements.
func (g *gen) stmts(body bool) arr {
	l := arr{}
	for i := g.pick(3); i > 0; i-- {
		l = append(l, g.stmt(false, false))
	}
	return l
}

// stmt is a statement: the only one where a list is not allowed, and one that
// does not end in an if without else.
func (g *gen) stmt(single, closed bool) interface{} {
	n := sKinds
	if single {
		n = sLexical
	}
	return g.stmtOf(g.pick(n), closed)
}

func (g *gen) expression() interface{} {
	saved := g.start
	g.start = len(g.s.toks)
	e := g.expr(gComma, false)
	g.start = saved
	return e
}

func (g *gen) condition() interface{} {
	g.tok("(")
	e := g.within(gComma)
	g.tok(")")
	return e
}

// loopBody is the body of a loop.
func (g *gen) loopBody(closed bool) interface{} {
	saved := g.loop
	g.loop = true
	b := g.stmt(true, closed)
	g.loop = saved
	return b
}

func (g *gen) declarations(kind string, noIn bool) interface{} {
	l := arr{}
	for i := g.pick(2); i >= 0; i-- {
		id := g.binding()
		d := obj{"type": "VariableDeclarator", "id": id, "init": nil}
		if id.(obj)["type"] != "Identifier" || kind == "const" || g.maybe() {
			g.tok("=")
			d["init"] = g.expr(gAssign, noIn)
		}
		l = append(l, d)
		if i > 0 {
			g.tok(",")
		}
	}
	return obj{"type": "VariableDeclaration", "kind": kind, "declarations": l}
}

// forHead is what a for-in or for-of assigns to.
func (g *gen) forHead() interface{} {
	decl := func(kind string, id interface{}) interface{} {
		return obj{"type": "VariableDeclaration", "kind": kind,
			"declarations": arr{obj{"type": "VariableDeclarator", "id": id, "init": nil}}}
	}
	switch g.pick(4) {
	case 1:
		return g.target()
	case 2:
		g.tok("let")
		return decl("let", g.arrayBinding())
	case 3:
		return g.assignPattern(true)
	}
	g.tok("var")
	return decl("var", g.binding())
}

// label may be one of the labels around.
func (g *gen) label(must bool) interface{} {
	if must || len(g.labels) > 0 && g.maybe() {
		return g.again(g.labels)
	}
	return nil
}

// again emits one of some names.
func (g *gen) again(l []string) interface{} {
	n := l[g.pick(len(l))]
	g.same = true
	g.tok(n)
	return ident(n)
}

func (g *gen) block() interface{} {
	g.tok("{")
	l := g.stmts(false)
	g.tok("}")
	return obj{"type": "BlockStatement", "body": l}
}

func (g *gen) stmtOf(kind int, closed bool) interface{} {
	switch kind {
	case sEmpty:
		g.tok(";")
		return obj{"type": "EmptyStatement"}
	case sBlock:
		return g.block()
	case sVar:
		g.tok("var")
		d := g.declarations("var", false)
		g.semi()
		return d
	case sLexical:
		kind := []string{"let", "const"}[g.pick(2)]
		g.tok(kind)
		d := g.declarations(kind, false)
		g.semi()
		return d
	case sIf:
		g.tok("if")
		t := g.condition()
		var c, a interface{}
		if closed || g.maybe() {
			c = g.stmt(true, true)
			g.tok("else")
			a = g.stmt(true, closed)
		} else {
			c = g.stmt(true, false)
		}
		return obj{"type": "IfStatement", "test": t, "consequent": c, "alternate": a}
	case sWhile:
		g.tok("while")
		t := g.condition()
		return obj{"type": "WhileStatement", "test": t, "body": g.loopBody(closed)}
	case sDo:
		g.tok("do")
		b := g.loopBody(false)
		g.tok("while")
		t := g.condition()
		if g.maybe() {
			g.dropped = true
		} else {
			g.tok(";")
		}
		return obj{"type": "DoWhileStatement", "test": t, "body": b}
	case sFor:
		d := obj{"type": "ForStatement", "init": nil, "test": nil, "update": nil}
		g.tok("for", "(")
		switch g.pick(3) {
		case 1:
			d["init"] = g.expr(gComma, true)
		case 2:
			g.tok("var")
			d["init"] = g.declarations("var", true)
		}
		g.tok(";")
		if g.maybe() {
			d["test"] = g.within(gComma)
		}
		g.tok(";")
		if g.maybe() {
			d["update"] = g.within(gComma)
		}
		g.tok(")")
		d["body"] = g.loopBody(closed)
		return d
	case sForIn:
		g.tok("for", "(")
		h := g.forHead()
		g.tok("in")
		r := g.within(gComma)
		g.tok(")")
		return obj{"type": "ForInStatement", "left": h, "right": r, "body": g.loopBody(closed)}
	case sForOf:
		g.tok("for", "(")
		h := g.forHead()
		g.tok("of")
		r := g.within(gAssign)
		g.tok(")")
		return obj{"type": "ForOfStatement", "await": false, "left": h, "right": r, "body": g.loopBody(closed)}
	case sSwitch:
		g.tok("switch")
		d := g.condition()
		g.tok("{")
		saved := g.sw
		g.sw = true
		l := arr{}
		def := false
		for i := g.pick(3); i > 0; i-- {
			c := obj{"type": "SwitchCase", "test": nil}
			if !def && g.maybe() {
				def = true
				g.tok("default")
			} else {
				g.tok("case")
				c["test"] = g.within(gComma)
			}
			g.tok(":")
			c["consequent"] = g.stmts(false)
			l = append(l, c)
		}
		g.sw = saved
		g.tok("}")
		return obj{"type": "SwitchStatement", "discriminant": d, "cases": l}
	case sTry:
		g.tok("try")
		b := g.block()
		var h, f interface{}
		how := g.pick(3)
		if how < 2 {
			g.tok("catch")
			var p interface{}
			if g.maybe() {
				g.tok("(")
				p = g.binding()
				g.tok(")")
			}
			h = obj{"type": "CatchClause", "param": p, "body": g.block()}
		}
		if how > 0 {
			g.tok("finally")
			f = g.block()
		}
		return obj{"type": "TryStatement", "block": b, "handler": h, "finalizer": f}
	case sThrow:
		g.tok("throw")
		g.same = true
		e := g.within(gComma)
		g.semi()
		return obj{"type": "ThrowStatement", "argument": e}
	case sLabel:
		n := g.name()
		g.tok(":")
		labels, loops := g.labels, g.loops
		g.labels = append(g.labels, n)
		kind := g.pick(sLexical)
		if kind == sWhile || kind == sDo || kind == sFor || kind == sForIn || kind == sForOf {
			g.loops = append(g.loops, n)
		}
		b := g.stmtOf(kind, closed)
		g.labels, g.loops = labels, loops
		return obj{"type": "LabeledStatement", "label": ident(n), "body": b}
	case sReturn:
		vsym.Assume(g.fn)
		g.tok("return")
		var e interface{}
		if g.maybe() {
			g.same = true
			e = g.within(gComma)
		}
		g.semi()
		return obj{"type": "ReturnStatement", "argument": e}
	case sBreak:
		vsym.Assume(g.loop || g.sw || len(g.labels) > 0)
		g.tok("break")
		l := g.label(!g.loop && !g.sw)
		g.semi()
		return obj{"type": "BreakStatement", "label": l}
	case sContinue:
		vsym.Assume(g.loop)
		g.tok("continue")
		var l interface{}
		if len(g.loops) > 0 && g.maybe() {
			l = g.again(g.loops)
		}
		g.semi()
		return obj{"type": "ContinueStatement", "label": l}
	case sFunction:
		g.tok("function")
		id := ident(g.name())
		p := g.params()
		return funcDoc("FunctionDeclaration", id, p, g.body(), false, false, false)
	case sClass:
		return g.class("ClassDeclaration")
	}
	e := g.expression()
	g.semi()
	return obj{"type": "ExpressionStatement", "expression": e, "directive": absent{}}
}

// accepted parses what was generated.
func (g *gen) accepted(mode parser.ParseMode, want interface{}) {
	r := g.s.parse(mode)
	if r.err != nil {
		if vsym.Native() {
			vsym.Noteq("error", r.err.Error())
		}
		vsym.Fail("a program of the grammar is rejected")
	}
	vsym.Reach("accepted")
	got, _ := vsym.Tree(r.tree.ESTree())
	sameDoc(got, want)
}

// kind is any of n kinds, or only KIND.
func (g *gen) kind(n int) int {
	if k := vsym.Param("KIND"); k >= 0 {
		return k
	}
	return vsym.Pick("kind", n)
}

func H_C26_expressions() {
	g := newGen()
	g.accepted(parser.ExpressionMode, g.exprOf(g.kind(xKinds), gComma, false))
}

func H_C26_statements() {
	g := newGen()
	mode := parser.ScriptMode
	typ := "script"
	if g.maybe() {
		mode = parser.ModuleMode
		typ = "module"
	}
	l := arr{g.stmtOf(g.kind(sKinds), false)}
	for i := g.pick(3); i > 0; i-- {
		l = append(l, g.stmt(false, false))
	}
	g.accepted(mode, obj{"type": "Program", "sourceType": typ, "body": l})
}

// importDecl is an import declaration.
func (g *gen) importDecl() interface{} {
	g.tok("import")
	l := arr{}
	how := g.pick(3)
	named := how < 2 && g.maybe()
	if how == 0 && !named || how > 0 && g.maybe() {
		l = append(l, obj{"type": "ImportDefaultSpecifier", "local": ident(g.name())})
		if named || how > 0 {
			g.tok(",")
		}
	}
	switch {
	case how == 2:
		g.tok("*", "as")
		l = append(l, obj{"type": "ImportNamespaceSpecifier", "local": ident(g.name())})
	case named || how == 1:
		g.tok("{")
		n := g.pick(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.tok(",")
			}
			var imported, local interface{}
			switch g.pick(3) {
			case 1:
				imported = ident(g.name())
				g.tok("as")
				local = ident(g.name())
			case 2:
				imported = ident(g.any(vocWord))
				g.tok("as")
				local = ident(g.name())
			default:
				imported = ident(g.name())
				local = imported
			}
			l = append(l, obj{"type": "ImportSpecifier", "imported": imported, "local": local})
		}
		if n > 0 && g.maybe() {
			g.tok(",")
		}
		g.tok("}")
	}
	if len(l) > 0 || how > 0 || named {
		g.tok("from")
	}
	src := g.str()
	g.semi()
	return obj{"type": "ImportDeclaration", "specifiers": l, "source": src}
}

// H_C26_modules: modules of imports and statements.
func H_C26_modules() {
	g := newGen()
	l := arr{}
	for i := 0; i < 2; i++ {
		if g.pick(2) == 0 {
			l = append(l, g.importDecl())
		} else {
			l = append(l, g.stmt(false, false))
		}
	}
	g.accepted(parser.ModuleMode, obj{"type": "Program", "sourceType": "module", "body": l})
}

// H_C26_directives: scripts, functions and methods whose body begins with
// directives.
func H_C26_directives() {
	g := newGen()
	prologue := func() arr {
		l := arr{}
		for i := g.pick(3); i >= 0; i-- {
			v := "use strict"
			if g.maybe() {
				v = "s" + itoa(len(g.s.toks))
				g.tok(wString)
			} else {
				g.tok(wStrict)
			}
			g.semi()
			l = append(l, obj{"type": "ExpressionStatement", "expression": lit(v, "'"+v+"'"), "directive": v})
		}
		for i := g.pick(3); i > 0; i-- {
			l = append(l, g.stmt(false, false))
		}
		return l
	}
	body := func() obj {
		g.tok("{")
		g.fn = true
		l := prologue()
		g.fn = false
		g.tok("}")
		return obj{"type": "BlockStatement", "body": l}
	}
	var l arr
	switch vsym.Pick("place", 3) {
	case 0:
		l = prologue()
	case 1:
		g.tok("function")
		id := ident(g.name())
		p := arr{}
		g.tok("(")
		for i := g.pick(3); i > 0; i-- {
			p = append(p, ident(g.name()))
			if i > 1 {
				g.tok(",")
			}
		}
		g.tok(")")
		l = arr{funcDoc("FunctionDeclaration", id, p, body(), false, false, false)}
	case 2:
		p := arr{ident(g.name())}
		g.same = true
		g.tok("=>")
		f := funcDoc("ArrowFunctionExpression", nil, p, body(), false, false, false)
		l = arr{obj{"type": "ExpressionStatement", "expression": f, "directive": absent{}}}
		g.semi()
	}
	g.accepted(parser.ScriptMode, obj{"type": "Program", "sourceType": "script", "body": l})
}

// H_C17_omitted: omitted semicolons and line breaks of the grammar.
func H_C17_omitted() { H_C26_statements() }

// H_C16_operators: every operator within every other.
func H_C16_operators() {
	g := newGen()
	g.ops = true
	for k := 0; k < xKinds; k++ {
		switch k {
		case xLiteral, xPattern, xParen, xArray, xObject, xFunction, xClass:
		default:
			g.kinds = append(g.kinds, k)
		}
	}
	k := g.kinds[vsym.Pick("kind", len(g.kinds))]
	g.accepted(parser.ExpressionMode, g.exprOf(k, gComma, false))
}

// H_C26_heads: expressions in the first part of a for header, where in is no
// operator.
func H_C26_heads() {
	g := newGen()
	g.tok("for", "(")
	var init interface{}
	if vsym.Pick("var", 2) == 1 {
		g.tok("var")
		id := ident(g.name())
		g.tok("=")
		init = obj{"type": "VariableDeclaration", "kind": "var", "declarations": arr{
			obj{"type": "VariableDeclarator", "id": id, "init": g.exprOf(g.kind(xKinds), gAssign, true)}}}
	} else {
		init = g.exprOf(g.kind(xKinds), gComma, true)
	}
	g.tok(";", ";", ")", ";")
	l := arr{obj{"type": "ForStatement", "init": init, "test": nil, "update": nil, "body": obj{"type": "EmptyStatement"}}}
	g.accepted(parser.ScriptMode, obj{"type": "Program", "sourceType": "script", "body": l})
}
