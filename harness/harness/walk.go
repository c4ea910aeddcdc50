package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// The walker writes a tree out again, token by token, next to the tokens it
// was parsed from. What it asserts on the way depends on the property.
type walker struct {
	s *tokSource
	i int // next token

	tokens bool // C15: the tree spells the tokens
	levels bool // C16: operands bind at least as tightly as required
	semis  bool // C17: semicolon insertion and line breaks
	names  bool // C18: reserved words
	forms  bool // C28: what the grammar asks for beyond that
	spans  bool // C29: spans cover the tokens of their node

	starts, ends []place // with spans, where the tokens start and end

	noIn   bool
	tail   int // what the last expression ends in
	strict bool
	async  bool
	gen    bool
	cover  bool // inside of parameters whose body turns on strict mode
	noLet  bool // inside of the patterns of a lexical declaration
}

const (
	tailNone = iota
	tailOperand
	tailPostfix
	tailArrow
)

// levels of expressions
const (
	lComma = iota
	lAssign
	lCond
	lOr
	lAnd
	lBitOr
	lBitXor
	lBitAnd
	lEq
	lRel
	lShift
	lAdd
	lMul
	lExp
	lUnary
	lUpdate
	lOptional
	lNew
	lCall
	lMember
	lPrimary
)

type opInfo struct {
	s string
	l int
}

var binaryOps = map[ast.BinaryOperator]opInfo{
	ast.BinaryExponentOp:         {"**", lExp},
	ast.BinaryMultOp:             {"*", lMul},
	ast.BinaryDivOp:              {"/", lMul},
	ast.BinaryModOp:              {"%", lMul},
	ast.BinaryAddOp:              {"+", lAdd},
	ast.BinarySubOp:              {"-", lAdd},
	ast.BinaryLShiftOp:           {"<<", lShift},
	ast.BinaryRShiftOp:           {">>", lShift},
	ast.BinaryUnsignedRShiftOp:   {">>>", lShift},
	ast.BinaryLessThanOp:         {"<", lRel},
	ast.BinaryGreaterThanOp:      {">", lRel},
	ast.BinaryLessThanEqualOp:    {"<=", lRel},
	ast.BinaryGreaterThanEqualOp: {">=", lRel},
	ast.BinaryInstanceOfOp:       {"instanceof", lRel},
	ast.BinaryInOp:               {"in", lRel},
	ast.BinaryEqualOp:            {"==", lEq},
	ast.BinaryNotEqualOp:         {"!=", lEq},
	ast.BinaryStrictEqualOp:      {"===", lEq},
	ast.BinaryStrictNotEqualOp:   {"!==", lEq},
	ast.BinaryBitAndOp:           {"&", lBitAnd},
	ast.BinaryBitXorOp:           {"^", lBitXor},
	ast.BinaryBitOrOp:            {"|", lBitOr},
	ast.BinaryLogicalAndOp:       {"&&", lAnd},
	ast.BinaryLogicalOrOp:        {"||", lOr},
	ast.BinaryCoalesceOp:         {"??", lOr},
}

var assignOps = map[ast.AssignmentOperator]string{
	ast.AssignmentOp:               "=",
	ast.AssignmentMultOp:           "*=",
	ast.AssignmentDivOp:            "/=",
	ast.AssignmentModOp:            "%=",
	ast.AssignmentAddOp:            "+=",
	ast.AssignmentSubOp:            "-=",
	ast.AssignmentLShiftOp:         "<<=",
	ast.AssignmentRShiftOp:         ">>=",
	ast.AssignmentUnsignedRShiftOp: ">>>=",
	ast.AssignmentBitAndOp:         "&=",
	ast.AssignmentBitXorOp:         "^=",
	ast.AssignmentBitOrOp:          "|=",
	ast.AssignmentExponentOp:       "**=",
	ast.AssignmentLogicalAndOp:     "&&=",
	ast.AssignmentLogicalOr:        "||=",
	ast.AssignmentCoalesceOp:       "??=",
}

var unaryOps = map[ast.UnaryOperator]string{
	ast.UnaryDeleteOp: "delete",
	ast.UnaryVoidOp:   "void",
	ast.UnaryTypeOfOp: "typeof",
	ast.UnaryPlusOp:   "+",
	ast.UnaryMinusOp:  "-",
	ast.UnaryBitNotOp: "~",
	ast.UnaryNotOp:    "!",
}

var updateOps = map[ast.UpdateOperator]string{
	ast.UpdatePreIncrementOp:  "++",
	ast.UpdatePreDecrementOp:  "--",
	ast.UpdatePostIncrementOp: "++",
	ast.UpdatePostDecrementOp: "--",
}

// check asserts ok for the property at hand; for the others a tree that
// fails it is not looked at.
func check(on, ok bool, msg string) {
	if on {
		vsym.Assert(ok, msg)
	} else {
		vsym.Assume(ok)
	}
}

func (w *walker) emitIf(on bool, word string) {
	check(on, w.i < len(w.s.toks), "the tree has more tokens than the program")
	check(on, vsym.EqStr(w.s.toks[w.i].source(), word), "the tree has another token than the program")
	w.i++
}

func (w *walker) emit(word string) {
	w.emitIf(w.tokens, word)
}

func (w *walker) typ() lexer.TokenType {
	if w.i >= len(w.s.toks) {
		return lexer.TokenNone
	}
	return w.s.toks[w.i].typ()
}

func (w *walker) typAt(i int) lexer.TokenType {
	if w.i+i >= len(w.s.toks) {
		return lexer.TokenNone
	}
	return w.s.toks[w.i+i].typ()
}

// newLine is whether the next token follows a line break.
func (w *walker) newLine() bool {
	return w.i < len(w.s.toks) && w.s.toks[w.i].nl
}

// sameLine asserts that the next token does not follow a line break.
func (w *walker) sameLine(msg string) {
	if w.semis && w.i < len(w.s.toks) {
		vsym.Assert(vsym.Not(w.s.toks[w.i].nl), msg)
	}
}

// optionalComma skips a trailing comma.
func (w *walker) optionalComma() {
	if w.typ() == lexer.TokenPunctuatorComma {
		w.i++
	}
}

// semi ends a statement that needs a semicolon.
func (w *walker) semi() {
	t := w.typ()
	if t == lexer.TokenPunctuatorSemicolon {
		w.i++
		return
	}
	if !w.semis || w.i >= len(w.s.toks) {
		return
	}
	brace := t == lexer.TokenPunctuatorCloseBrace
	nl := w.s.toks[w.i].nl
	vsym.Assert(vsym.Or(nl, brace), "a semicolon was inserted in the middle of a line")
	if brace {
		return
	}
	switch w.tail {
	case tailOperand:
		vsym.Assert(vsym.Not(vsym.Or(vsym.Or(t == lexer.TokenPunctuatorOpenParen, t == lexer.TokenPunctuatorOpenBracket),
			vsym.Or(vsym.Or(t == lexer.TokenPunctuatorPlus, t == lexer.TokenPunctuatorMinus), t == lexer.TokenPunctuatorDiv))),
			"a semicolon was inserted although the expression continues")
	case tailPostfix:
		vsym.Assert(vsym.Not(vsym.Or(vsym.Or(t == lexer.TokenPunctuatorPlus, t == lexer.TokenPunctuatorMinus), t == lexer.TokenPunctuatorDiv)),
			"a semicolon was inserted although the expression continues")
	}
}

var alwaysReserved = words("break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with")
var strictReserved = words("implements interface let package private protected public static")

func oneOf(s string, ws []string) bool {
	ok := false
	for _, w := range ws {
		ok = vsym.Or(ok, vsym.EqStr(s, w))
	}
	return ok
}

// name writes an identifier that must not be reserved.
func (w *walker) name(s string) {
	if w.names {
		vsym.Assert(vsym.Not(oneOf(s, alwaysReserved)), "a reserved word became a name")
		if w.strict {
			if w.cover {
				// Only simple parameters can be made strict by the body.
				vsym.Assume(vsym.Not(oneOf(s, strictReserved)))
			}
			vsym.Assert(vsym.Not(oneOf(s, strictReserved)), "a word reserved in strict code became a name")
		}
		if w.async {
			vsym.Assert(vsym.Not(vsym.EqStr(s, "await")), "await became a name in an async function")
		}
		if w.noLet {
			vsym.Assert(vsym.Not(vsym.EqStr(s, "let")), "let became a name in a lexical declaration")
		}
		if w.gen {
			vsym.Assert(vsym.Not(vsym.EqStr(s, "yield")), "yield became a name in a generator")
		}
	}
	w.emit(s)
}

func (w *walker) level(ok bool, msg string) {
	if w.levels {
		vsym.Assert(ok, msg)
	}
}

// operand writes an operand of at least a level.
func (w *walker) operand(n ast.Node, need int) int {
	l := w.expr(n)
	w.level(l >= need, "an operand binds less tightly than the grammar requires")
	return l
}

// closed writes an expression between brackets.
func (w *walker) closed(n ast.Node, need int) {
	noIn, noLet := w.noIn, w.noLet
	w.noIn, w.noLet = false, false
	w.operand(n, need)
	w.noIn, w.noLet = noIn, noLet
}

func isCoalesce(n ast.Node) bool {
	b, ok := n.(ast.BinaryExpression)
	return ok && b.Operator == ast.BinaryCoalesceOp
}

func (w *walker) expr(n ast.Node) int {
	i := w.i
	l := w.expr1(n)
	w.covers(n, i)
	return l
}

func (w *walker) leaf() int {
	w.tail = tailOperand
	return lPrimary
}

func (w *walker) expr1(n ast.Node) int {
	switch t := n.(type) {
	case ast.Identifier:
		w.name(t.Name)
		return w.leaf()
	case ast.ThisExpression:
		w.emit("this")
		return w.leaf()
	case ast.NullLiteral:
		w.emit("null")
		return w.leaf()
	case ast.BooleanLiteral:
		if t.Value {
			w.emit("true")
		} else {
			w.emit("false")
		}
		return w.leaf()
	case ast.NumberLiteral:
		w.number(t)
		return w.leaf()
	case ast.StringLiteral:
		w.str(t)
		return w.leaf()
	case ast.RegExpLiteral:
		w.emit(t.Raw)
		check(w.tokens, "/"+t.Pattern+"/"+t.Flags == t.Raw, "a regular expression of other text than its source")
		return w.leaf()
	case ast.ParenthesizedExpression:
		w.emit("(")
		w.closed(t.Expression, lComma)
		w.emit(")")
		return w.leaf()
	case ast.ArrayExpression:
		w.emit("[")
		for i, e := range t.Elements {
			if e == nil {
				w.emit(",")
				continue
			}
			w.closed(e, lAssign)
			if i < len(t.Elements)-1 {
				w.emit(",")
			} else {
				w.optionalComma()
			}
		}
		w.emit("]")
		return w.leaf()
	case ast.ObjectExpression:
		w.emit("{")
		for i, p := range t.Properties {
			w.property(p)
			if i < len(t.Properties)-1 {
				w.emit(",")
			} else {
				w.optionalComma()
			}
		}
		w.emit("}")
		return w.leaf()
	case ast.FunctionExpression:
		return w.function(t)
	case ast.ClassExpression:
		w.class(t.ID, t.SuperClass, t.Body)
		return w.leaf()
	case ast.MemberExpression:
		l := w.expr(t.Object)
		w.level(vsym.Or(l == lOptional, l >= lCall), "the object of a member access")
		if t.Optional {
			w.emit("?.")
			l = lOptional
		} else if l > lMember {
			l = lMember
		}
		if t.Computed {
			w.emit("[")
			w.closed(t.Property, lComma)
			w.emit("]")
		} else {
			if !t.Optional {
				w.emit(".")
			}
			p, ok := t.Property.(ast.Identifier)
			check(w.tokens, ok, "a property name that is no identifier")
			w.emit(p.Name)
		}
		w.tail = tailOperand
		return l
	case ast.CallExpression:
		l := w.expr(t.Callee)
		w.level(vsym.Or(l == lOptional, l >= lCall), "the callee of a call")
		if t.Optional {
			w.emit("?.")
			l = lOptional
		} else if l > lCall {
			l = lCall
		}
		w.arguments(t.Arguments)
		w.tail = tailOperand
		return l
	case ast.NewExpression:
		w.emit("new")
		l := w.expr(t.Callee)
		w.tail = tailOperand
		if len(t.Arguments) == 0 && w.typ() != lexer.TokenPunctuatorOpenParen {
			w.level(vsym.Or(l == lNew, l >= lMember), "the callee of new")
			return lNew
		}
		w.level(l >= lMember, "the callee of new")
		w.arguments(t.Arguments)
		w.tail = tailOperand
		return lMember
	case *ast.UnaryExpression:
		return w.unary(*t)
	case ast.UnaryExpression:
		return w.unary(t)
	case *ast.UpdateExpression:
		return w.update(*t)
	case ast.UpdateExpression:
		return w.update(t)
	case ast.BinaryExpression:
		return w.binary(t)
	case ast.ConditionalExpression:
		w.operand(t.Test, lOr)
		w.emit("?")
		w.closed(t.Consequent, lAssign)
		w.emit(":")
		w.operand(t.Alternate, lAssign)
		return lCond
	case ast.AssignmentExpression:
		w.operand(t.Left, lOptional)
		op, ok := assignOps[ast.AssignmentOperator(vsym.Conc(int(t.Operator)))]
		w.form(simpleTarget(t.Left) || op == "=" && assignable(t.Left), "an assignment to something else than a target")
		check(w.tokens, ok, "an unknown assignment operator")
		w.emit(op)
		w.operand(t.Right, lAssign)
		return lAssign
	case ast.SequenceExpression:
		w.level(len(t.Expressions) > 1, "a sequence of less than two expressions")
		for i, e := range t.Expressions {
			if i > 0 {
				w.emit(",")
			}
			w.operand(e, lAssign)
		}
		return lComma
	}
	check(w.tokens, false, "a node that is no expression")
	return lPrimary
}

// form asserts something the grammar asks for.
func (w *walker) form(ok bool, msg string) {
	if w.forms {
		vsym.Assert(ok, msg)
	}
}

// simpleTarget is whether an expression can be assigned to as it is; calls are
// let through.
func simpleTarget(n ast.Node) bool {
	switch t := n.(type) {
	case ast.Identifier:
		return true
	case ast.MemberExpression:
		return !inChain(t)
	case ast.CallExpression:
		return !inChain(t)
	case ast.ParenthesizedExpression:
		return simpleTarget(t.Expression)
	}
	return false
}

// inChain is whether an expression is part of an optional chain.
func inChain(n ast.Node) bool {
	for {
		switch t := n.(type) {
		case ast.MemberExpression:
			if t.Optional {
				return true
			}
			n = t.Object
		case ast.CallExpression:
			if t.Optional {
				return true
			}
			n = t.Callee
		default:
			return false
		}
	}
}

// assignable is whether an expression can stand on the left of =.
func assignable(n ast.Node) bool {
	switch t := n.(type) {
	case ast.ArrayExpression:
		for _, e := range t.Elements {
			if e != nil && !assignableElement(e) {
				return false
			}
		}
		return true
	case ast.ObjectExpression:
		for _, p := range t.Properties {
			if p.Kind != ast.InitProperty || p.Method || p.Value != nil && !assignableElement(p.Value) {
				return false
			}
		}
		return true
	}
	return simpleTarget(n)
}

func assignableElement(n ast.Node) bool {
	if a, ok := n.(ast.AssignmentExpression); ok && a.Operator == ast.AssignmentOp {
		return assignable(a.Left)
	}
	return assignable(n)
}

func (w *walker) unary(t ast.UnaryExpression) int {
	op, ok := unaryOps[ast.UnaryOperator(vsym.Conc(int(t.Operator)))]
	check(w.tokens, ok, "an unknown unary operator")
	w.emit(op)
	w.operand(t.Argument, lUnary)
	return lUnary
}

func (w *walker) update(t ast.UpdateExpression) int {
	o := ast.UpdateOperator(vsym.Conc(int(t.Operator)))
	op, ok := updateOps[o]
	check(w.tokens, ok, "an unknown update operator")
	if o == ast.UpdatePreIncrementOp || o == ast.UpdatePreDecrementOp {
		w.emit(op)
		w.operand(t.Argument, lUnary)
		w.form(simpleTarget(t.Argument), "an increment of something else than a target")
		return lUpdate
	}
	w.operand(t.Argument, lOptional)
	w.form(simpleTarget(t.Argument), "an increment of something else than a target")
	w.sameLine("a line break before a postfix operator")
	w.emit(op)
	w.tail = tailPostfix
	return lUpdate
}

func (w *walker) binary(t ast.BinaryExpression) int {
	op, ok := binaryOps[ast.BinaryOperator(vsym.Conc(int(t.Operator)))]
	check(w.tokens, ok, "an unknown binary operator")
	left, right := op.l, op.l+1
	switch op.s {
	case "**":
		left, right = lUpdate, lExp
	case "??":
		right = lBitOr
		if !isCoalesce(t.Left) {
			left = lBitOr
		}
	case "||":
		w.level(!isCoalesce(t.Left), "?? as operand of ||")
	case "in":
		w.level(!w.noIn, "an in operator in the head of a for statement")
	}
	w.operand(t.Left, left)
	w.emit(op.s)
	w.operand(t.Right, right)
	return op.l
}

func (w *walker) arguments(args []ast.Node) {
	w.emit("(")
	for i, a := range args {
		if s, ok := a.(ast.SpreadElement); ok {
			i := w.i
			w.emit("...")
			w.closed(s.Argument, lAssign)
			w.covers(s, i)
		} else {
			w.closed(a, lAssign)
		}
		if i < len(args)-1 {
			w.emit(",")
		} else {
			w.optionalComma()
		}
	}
	w.emit(")")
}

func (w *walker) property(p ast.Property) {
	check(w.tokens, p.DestructureInit == nil, "a placeholder in an object")
	fn, isFn := p.Value.(ast.FunctionExpression)
	switch ast.PropertyKind(vsym.Conc(int(p.Kind))) {
	case ast.GetProperty:
		check(w.tokens, isFn, "a getter that is no function")
		w.emit("get")
		w.key(p.Key, p.Computed)
		w.method(fn)
		return
	case ast.SetProperty:
		check(w.tokens, isFn, "a setter that is no function")
		w.emit("set")
		w.key(p.Key, p.Computed)
		w.method(fn)
		return
	}
	if p.Method {
		check(w.tokens, isFn, "a method that is no function")
		if fn.Async {
			w.emit("async")
		}
		if fn.Generator {
			w.emit("*")
		}
		w.key(p.Key, p.Computed)
		w.method(fn)
		return
	}
	if p.Value == nil {
		id, ok := p.Key.(ast.Identifier)
		check(w.tokens, ok && !p.Computed, "a shorthand property without a name")
		w.name(id.Name)
		w.covers(id, w.i-1)
		return
	}
	w.key(p.Key, p.Computed)
	w.emit(":")
	w.closed(p.Value, lAssign)
}

func (w *walker) key(k ast.Node, computed bool) {
	if computed {
		w.emit("[")
		w.closed(k, lComma)
		w.emit("]")
		return
	}
	i := w.i
	switch t := k.(type) {
	case ast.Identifier:
		w.emit(t.Name)
	case ast.StringLiteral:
		w.str(t)
	case ast.NumberLiteral:
		w.number(t)
	default:
		check(w.tokens, false, "a property key that is no name")
	}
	w.covers(k, i)
}

// str writes a string literal, whose value is the text between its quotes.
func (w *walker) str(t ast.StringLiteral) {
	w.emit(t.Raw)
	check(w.tokens, len(t.Raw) >= 2 && t.Value == t.Raw[1:len(t.Raw)-1], "a string of another value than its source")
}

// number writes a number, whose value is that of its digits.
func (w *walker) number(t ast.NumberLiteral) {
	w.emit(t.Raw)
	v := refValue(t.Raw)
	check(w.tokens, t.Value == v, "a number of another value than its source")
}

// refValue is the value of a number of few digits, with at most one digit
// after the dot.
func refValue(raw string) float64 {
	base, v, i := 10.0, 0.0, 0
	if len(raw) > 2 && raw[0] == '0' {
		switch raw[1] {
		case 'x':
			base, i = 16, 2
		case 'o':
			base, i = 8, 2
		case 'b':
			base, i = 2, 2
		}
	}
	for ; i < len(raw); i++ {
		c := raw[i]
		switch {
		case c == '_':
		case c >= '0' && c <= '9':
			v = base*v + float64(c-'0')
		case base == 16 && c >= 'a' && c <= 'f':
			v = base*v + float64(c-'a'+10)
		case base == 16 && c >= 'A' && c <= 'F':
			v = base*v + float64(c-'A'+10)
		case c == '.':
			if i+1 < len(raw) && raw[i+1] >= '0' && raw[i+1] <= '9' {
				v = (10*v + float64(raw[i+1]-'0')) / 10
				i++
			}
		case c == 'e':
			for n := raw[i+1]; n > '0'; n-- {
				v *= 10
			}
			i++
		}
	}
	return v
}

// method writes the parameters and the body of a method.
func (w *walker) method(fn ast.FunctionExpression) {
	ctx := *w
	i := w.i
	check(w.tokens, fn.ID == "" && !fn.Arrow, "a method with a name of its own")
	w.inner(fn.Async, fn.Generator)
	w.enter(fn.Body)
	w.parameters(fn.Params)
	w.body(fn.Body)
	w.covers(fn, i)
	w.leave(ctx)
}

func (w *walker) leave(ctx walker) {
	i := w.i
	*w = ctx
	w.i = i
}

func (w *walker) inner(async, gen bool) {
	w.async = async
	w.gen = gen
	w.noIn = false
	w.noLet = false
}

// useStrict is whether a function body turns on strict mode.
func useStrict(body []ast.Node) bool {
	for _, s := range body {
		e, ok := s.(ast.ExpressionStatement)
		if !ok {
			return false
		}
		str, ok := e.Expression.(ast.StringLiteral)
		if !ok {
			return false
		}
		if str.Raw == "'use strict'" || str.Raw == "\"use strict\"" {
			return true
		}
	}
	return false
}

// enter turns on strict mode for a function with a directive.
func (w *walker) enter(body ast.Node) {
	if b, ok := body.(ast.BlockStatement); ok && !w.strict && (w.names || w.forms) && useStrict(b.Body) {
		w.strict = true
		w.cover = true
	}
}

func (w *walker) function(t ast.FunctionExpression) int {
	ctx := *w
	if t.Arrow {
		if t.Async {
			w.emit("async")
			w.sameLine("a line break after async")
		}
		check(w.tokens, t.ID == "" && !t.Generator, "an arrow function with a name")
		w.async = vsym.Or(w.async, t.Async)
		noIn := w.noIn
		w.noIn = false
		w.enter(t.Body)
		if w.typ() == lexer.TokenPunctuatorOpenParen {
			w.parameters(t.Params)
		} else {
			ps := t.Params.Parameters
			check(w.tokens, len(ps) == 1 && t.Params.RestParameter == "" && ps[0].Init == nil &&
				ps[0].Value.ArrayPattern == nil && ps[0].Value.ObjectPattern == nil, "a bare parameter")
			w.cover = false
			w.name(ps[0].Value.Identifier)
		}
		w.sameLine("a line break before =>")
		w.emit("=>")
		w.cover = false
		w.async = t.Async
		w.gen = false
		if _, ok := t.Body.(ast.BlockStatement); ok {
			w.body(t.Body)
			w.leave(ctx)
			w.tail = tailArrow
			return lAssign
		}
		w.noIn = noIn
		w.level(w.typ() != lexer.TokenPunctuatorOpenBrace, "an arrow function body that starts with a brace")
		w.operand(t.Body, lAssign)
		tail := w.tail
		w.leave(ctx)
		w.tail = tail
		return lAssign
	}
	if t.Async {
		w.emit("async")
		w.sameLine("a line break after async")
	}
	w.emit("function")
	if t.Generator {
		w.emit("*")
	}
	w.inner(t.Async, t.Generator)
	w.enter(t.Body)
	if t.ID != "" {
		cover := w.cover
		w.cover = false
		w.name(t.ID)
		w.cover = cover
	}
	w.parameters(t.Params)
	w.body(t.Body)
	w.leave(ctx)
	return w.leaf()
}

// body writes a function body.
func (w *walker) body(n ast.Node) {
	w.cover = false
	b, ok := n.(ast.BlockStatement)
	check(w.tokens, ok, "a function body that is no block")
	w.block(b)
}

func (w *walker) parameters(p ast.FormalParameters) {
	simple := p.RestParameter == ""
	for _, b := range p.Parameters {
		if b.Init != nil || b.Value.ArrayPattern != nil || b.Value.ObjectPattern != nil {
			simple = false
		}
	}
	if simple {
		w.cover = false
	}
	w.emit("(")
	for i, b := range p.Parameters {
		w.element(b)
		if i < len(p.Parameters)-1 || p.RestParameter != "" {
			w.emit(",")
		} else {
			w.optionalComma()
		}
	}
	if p.RestParameter != "" {
		w.emit("...")
		w.name(p.RestParameter)
	}
	w.emit(")")
}

func (w *walker) element(b ast.BindingElement) {
	w.pattern(b.Value)
	if b.Init != nil {
		w.emit("=")
		w.closed(b.Init, lAssign)
	}
}

func noPattern(p ast.BindingPattern) bool {
	return p.Identifier == "" && p.ArrayPattern == nil && p.ObjectPattern == nil
}

func (w *walker) pattern(p ast.BindingPattern) {
	n := 0
	if p.Identifier != "" {
		n++
		w.name(p.Identifier)
	}
	if p.ArrayPattern != nil {
		n++
		a := *p.ArrayPattern
		w.emit("[")
		rest := !noPattern(a.RestElement)
		for i, e := range a.Elements {
			if noPattern(e.Value) && e.Init == nil {
				w.emit(",")
				continue
			}
			w.element(e)
			if i < len(a.Elements)-1 || rest {
				w.emit(",")
			} else {
				w.optionalComma()
			}
		}
		if rest {
			w.emit("...")
			w.pattern(a.RestElement)
		}
		w.emit("]")
	}
	if p.ObjectPattern != nil {
		n++
		o := *p.ObjectPattern
		w.emit("{")
		for i, e := range o.Properties {
			if noPattern(e.Value) {
				w.name(e.PropertyName)
			} else {
				w.emit(e.PropertyName)
				w.emit(":")
				w.pattern(e.Value)
			}
			if e.Init != nil {
				w.emit("=")
				w.closed(e.Init, lAssign)
			}
			if i < len(o.Properties)-1 || o.RestElement != "" {
				w.emit(",")
			} else {
				w.optionalComma()
			}
		}
		if o.RestElement != "" {
			w.emit("...")
			w.name(o.RestElement)
		}
		w.emit("}")
	}
	check(w.tokens, n == 1, "a binding without a name or pattern")
}

func (w *walker) class(id string, super ast.Node, body []ast.Node) {
	ctx := *w
	w.emit("class")
	w.strict = true
	w.noIn = false
	if id != "" {
		w.name(id)
	}
	if super != nil {
		w.emit("extends")
		w.operand(super, lOptional)
	}
	w.emit("{")
	for _, n := range body {
		m, ok := n.(ast.MethodDefinition)
		check(w.tokens, ok, "a class member that is no method")
		if m.Static {
			w.emit("static")
		}
		switch ast.MethodKind(vsym.Conc(int(m.Kind))) {
		case ast.GetMethod:
			w.emit("get")
		case ast.SetMethod:
			w.emit("set")
		}
		if m.Value.Async {
			w.emit("async")
		}
		if m.Value.Generator {
			w.emit("*")
		}
		w.key(m.Key, m.Computed)
		w.method(m.Value)
	}
	w.emit("}")
	w.leave(ctx)
}

func (w *walker) block(b ast.BlockStatement) {
	i := w.i
	w.emit("{")
	w.list(b.Body)
	w.emit("}")
	w.covers(b, i)
	w.tail = tailNone
}

func (w *walker) list(ns []ast.Node) {
	for _, n := range ns {
		w.stmt(n)
	}
}

// openIf is whether a statement ends in an if without else.
func openIf(n ast.Node) bool {
	switch t := n.(type) {
	case ast.IfStatement:
		return t.Alternate == nil || openIf(t.Alternate)
	case ast.WhileStatement:
		return openIf(t.Body)
	case ast.ForStatement:
		return openIf(t.Body)
	case ast.ForInStatement:
		return openIf(t.Body)
	case ast.ForOfStatement:
		return openIf(t.Body)
	case ast.LabeledStatement:
		return openIf(t.Body)
	}
	return false
}

func (w *walker) test(n ast.Node) {
	w.emit("(")
	w.closed(n, lComma)
	w.emit(")")
}

// initialized asserts that the bindings of a declaration that need one have an
// initializer.
func (w *walker) initialized(t ast.VariableDeclaration) {
	for _, d := range t.Declarations {
		w.form(d.Init != nil || d.ID.Identifier != "" && t.Kind != ast.ConstDeclaration, "a declaration without initializer")
	}
}

// loopTarget asserts that a for-in or for-of can assign to its left side.
func (w *walker) loopTarget(n ast.Node, in bool) {
	t, ok := n.(ast.VariableDeclaration)
	if !ok {
		w.form(assignable(n), "a loop over something else than a target")
		return
	}
	w.form(len(t.Declarations) == 1, "a loop over more than one variable")
	d := t.Declarations[0]
	w.form(d.Init == nil || in && !w.strict && t.Kind == ast.VarDeclaration && d.ID.Identifier != "", "an initializer in the head of a loop")
}

// sub writes the statement another one is made of.
func (w *walker) sub(n ast.Node) {
	switch t := n.(type) {
	case ast.FunctionDeclaration, ast.ClassDeclaration, ast.ImportDeclNode:
		w.form(false, "a declaration in the place of a statement")
	case ast.VariableDeclaration:
		w.form(t.Kind == ast.VarDeclaration, "a declaration in the place of a statement")
	}
	w.stmt(n)
}

func (w *walker) declaration(t ast.VariableDeclaration, noIn bool) {
	switch ast.VarKind(vsym.Conc(int(t.Kind))) {
	case ast.VarDeclaration:
		w.emit("var")
	case ast.LetDeclaration:
		w.emit("let")
	case ast.ConstDeclaration:
		w.emit("const")
	default:
		check(w.tokens, false, "an unknown kind of declaration")
	}
	check(w.tokens, len(t.Declarations) > 0, "a declaration without a binding")
	old := w.noIn
	w.noIn = noIn
	for i, d := range t.Declarations {
		if i > 0 {
			w.emit(",")
		}
		w.noLet = t.Kind != ast.VarDeclaration
		w.pattern(d.ID)
		w.noLet = false
		w.tail = tailNone
		if d.Init != nil {
			w.emit("=")
			w.operand(d.Init, lAssign)
		}
	}
	w.noIn = old
}

// head writes the first part of a for header.
func (w *walker) head(n ast.Node) {
	if v, ok := n.(ast.VariableDeclaration); ok {
		i := w.i
		w.declaration(v, true)
		w.covers(v, i)
		return
	}
	old := w.noIn
	w.noIn = true
	w.operand(n, lComma)
	w.noIn = old
}

func (w *walker) stmt(n ast.Node) {
	i := w.i
	w.stmt1(n)
	if _, ok := n.(ast.BlockStatement); !ok {
		w.covers(n, i)
	}
}

func (w *walker) stmt1(n ast.Node) {
	on := w.tokens || w.semis
	switch t := n.(type) {
	case ast.BlockStatement:
		w.block(t)
	case ast.EmptyStatement:
		w.emitIf(on, ";")
	case ast.ExpressionStatement:
		f := w.typ()
		w.level(vsym.Not(vsym.Or(f == lexer.TokenPunctuatorOpenBrace, vsym.Or(f == lexer.TokenKeywordFunction, f == lexer.TokenKeywordClass))),
			"an expression statement that starts like a declaration or block")
		w.form(vsym.Not(vsym.And(f == lexer.TokenKeywordLet, w.typAt(1) == lexer.TokenPunctuatorOpenBracket)),
			"an expression statement that starts with let [")
		if w.i+1 < len(w.s.toks) {
			w.form(vsym.Not(vsym.And(vsym.And(f == lexer.TokenKeywordAsync, w.typAt(1) == lexer.TokenKeywordFunction), vsym.Not(w.s.toks[w.i+1].nl))),
				"an expression statement that starts with async function")
		}
		w.operand(t.Expression, lComma)
		w.semi()
	case ast.VariableDeclaration:
		w.initialized(t)
		w.declaration(t, false)
		w.semi()
	case ast.FunctionDeclaration:
		ctx := *w
		check(w.tokens, !t.Async && !t.Generator, "an async or generator declaration")
		w.emit("function")
		w.enter(t.Body)
		cover := w.cover
		w.cover = false
		w.name(t.ID)
		w.cover = cover
		w.inner(t.Async, t.Generator)
		w.parameters(t.Params)
		w.body(t.Body)
		w.leave(ctx)
	case ast.ClassDeclaration:
		w.class(t.ID, t.SuperClass, t.Body)
	case ast.ReturnStatement:
		w.emit("return")
		w.tail = tailNone
		if t.Argument != nil {
			w.sameLine("a line break after return")
			w.operand(t.Argument, lComma)
		}
		w.semi()
	case ast.ThrowStatement:
		w.emit("throw")
		w.sameLine("a line break after throw")
		w.operand(t.Argument, lComma)
		w.semi()
	case ast.BreakStatement:
		w.emit("break")
		w.jump(t.Label)
	case ast.ContinueStatement:
		w.emit("continue")
		w.jump(t.Label)
	case ast.IfStatement:
		w.emit("if")
		w.test(t.Test)
		w.sub(t.Consequent)
		if t.Alternate != nil {
			w.level(!openIf(t.Consequent), "an else that does not belong to the nearest if")
			w.emit("else")
			w.sub(t.Alternate)
		}
	case ast.WhileStatement:
		w.emit("while")
		w.test(t.Test)
		w.sub(t.Body)
	case ast.DoWhileStatement:
		w.emit("do")
		w.sub(t.Body)
		w.emit("while")
		w.test(t.Test)
		if w.typ() == lexer.TokenPunctuatorSemicolon {
			w.i++
		}
	case ast.ForStatement:
		w.emit("for")
		w.emit("(")
		if t.Init != nil {
			if v, ok := t.Init.(ast.VariableDeclaration); ok {
				w.initialized(v)
			}
			w.head(t.Init)
		}
		w.emitIf(on, ";")
		if t.Test != nil {
			w.closed(t.Test, lComma)
		}
		w.emitIf(on, ";")
		if t.Update != nil {
			w.closed(t.Update, lComma)
		}
		w.emit(")")
		w.sub(t.Body)
	case ast.ForInStatement:
		w.emit("for")
		w.emit("(")
		w.loopTarget(t.Left, true)
		w.head(t.Left)
		w.emit("in")
		w.closed(t.Right, lComma)
		w.emit(")")
		w.sub(t.Body)
	case ast.ForOfStatement:
		w.emit("for")
		w.emit("(")
		w.loopTarget(t.Left, false)
		if _, ok := t.Left.(ast.VariableDeclaration); !ok {
			w.form(w.typ() != lexer.TokenKeywordLet, "a for-of statement that starts with let")
		}
		w.head(t.Left)
		w.emit("of")
		_, seq := t.Right.(ast.SequenceExpression)
		w.form(!seq, "a sequence as the iterable of for-of")
		w.closed(t.Right, lComma)
		w.emit(")")
		w.sub(t.Body)
	case ast.SwitchStatement:
		w.emit("switch")
		w.test(t.Discriminant)
		w.emit("{")
		defaults := 0
		for _, c := range t.Cases {
			if c.Test != nil {
				w.emit("case")
				w.closed(c.Test, lComma)
			} else {
				w.emit("default")
				defaults++
				w.form(defaults == 1, "more than one default")
			}
			w.emit(":")
			w.list(c.Consequent)
		}
		w.emit("}")
	case ast.LabeledStatement:
		w.name(t.Label)
		w.emit(":")
		w.sub(t.Body)
	case ast.TryStatement:
		w.form(t.Handler != nil || t.Finalizer != nil, "a try without catch and finally")
		w.emit("try")
		w.stmt(t.Block)
		if t.Handler != nil {
			h, ok := t.Handler.(ast.CatchClause)
			check(w.tokens, ok, "a handler that is no catch clause")
			i := w.i
			w.emit("catch")
			if !noPattern(h.Param) {
				w.emit("(")
				w.pattern(h.Param)
				w.emit(")")
			}
			w.stmt(h.Body)
			w.covers(h, i)
		}
		if t.Finalizer != nil {
			w.emit("finally")
			w.stmt(t.Finalizer)
		}
	case ast.ImportDeclNode:
		w.imports(t)
	default:
		check(w.tokens, false, "a node that is no statement")
	}
}

func (w *walker) jump(label string) {
	w.tail = tailNone
	if label != "" {
		w.sameLine("a line break before a label")
		w.name(label)
	}
	w.semi()
}

func (w *walker) imports(t ast.ImportDeclNode) {
	w.emit("import")
	from := false
	if t.DefaultBinding != nil {
		from = true
		w.name(t.DefaultBinding.Identifier)
		if w.typ() == lexer.TokenPunctuatorComma {
			w.i++
			check(w.tokens, t.NameSpace != nil || t.NamedImports != nil, "a lost import clause")
		} else {
			check(w.tokens, t.NameSpace == nil && len(t.NamedImports) == 0, "an import clause out of nothing")
		}
	}
	if t.NameSpace != nil {
		from = true
		check(w.tokens, len(t.NamedImports) == 0, "two import clauses")
		w.emit("*")
		w.emit("as")
		w.name(t.NameSpace.Identifier)
	} else if w.typ() == lexer.TokenPunctuatorOpenBrace {
		from = true
		w.emit("{")
		for i, m := range t.NamedImports {
			if m.AsBinding != "" {
				w.emit(m.Identifier)
				w.emit("as")
				w.name(m.AsBinding)
			} else {
				w.name(m.Identifier)
			}
			if i < len(t.NamedImports)-1 {
				w.emit(",")
			} else {
				w.optionalComma()
			}
		}
		w.emit("}")
	} else {
		check(w.tokens, len(t.NamedImports) == 0, "an import clause out of nothing")
	}
	if from {
		w.emit("from")
	}
	w.str(ast.StringLiteral{Value: t.Module, Raw: t.Raw})
	w.tail = tailNone
	w.semi()
}

// program writes a whole tree.
func (w *walker) program(n ast.Node) {
	switch t := n.(type) {
	case ast.ScriptNode:
		w.strict = (w.names || w.forms) && useStrict(t.Body)
		w.list(t.Body)
		w.covers(n, 0)
	case ast.ModuleNode:
		w.strict = true
		w.list(t.Body)
		w.covers(n, 0)
	default:
		w.expr(n)
	}
	check(w.tokens, w.i == len(w.s.toks), "tokens missing from the tree")
}

const (
	wantTokens = 1 << iota
	wantLevels
	wantSemis
	wantNames
	wantConvert
	wantESTree
	wantForms
	wantSpans
)

// judge checks what parsing the tokens gave.
func judge(want int, r parseResult, s *tokSource) {
	if r.err != nil {
		return
	}
	vsym.Reach("tree")
	if want&(wantTokens|wantLevels|wantSemis|wantNames|wantForms|wantSpans) != 0 {
		w := &walker{s: s, tokens: want&wantTokens != 0, levels: want&wantLevels != 0, semis: want&wantSemis != 0, names: want&wantNames != 0, forms: want&wantForms != 0, spans: want&wantSpans != 0}
		if w.spans {
			w.starts, w.ends = s.places()
		}
		w.program(r.tree)
	}
	if want&(wantConvert|wantESTree) != 0 {
		vsym.Assert(convertible(r.tree), "the tree can not be converted")
	}
	if want&wantESTree != 0 {
		sameESTree(r.tree)
	}
}

// convertible is whether a tree converts to ESTree and JSON.
func convertible(n ast.Node) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	_, ok = vsym.Tree(n.ESTree())
	return
}
