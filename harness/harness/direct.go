package harness

import (
	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// maker builds trees of every kind of node with arbitrary operators, flags,
// kinds and numbers of children, which are identifiers of different names or
// again nodes of any kind. A tree differs from the plainest one of its kind
// in at most left of these choices.
type maker struct {
	n    int // names used
	left int // choices left
}

func (m *maker) name() string {
	m.n++
	return "n" + itoa(m.n)
}

func (m *maker) flag() bool { return vsym.Bool("flag" + itoa(m.n)) }

func (m *maker) pick(n int) int {
	if m.left == 0 {
		return 0
	}
	i := vsym.Pick("pick"+itoa(m.n), n)
	if i > 0 {
		m.left--
	}
	return i
}

func (m *maker) leaf() ast.Node { return ast.Identifier{Name: m.name()} }

// grow is an identifier or any other expression.
func (m *maker) grow() ast.Node {
	return m.expression(m.pick(expressionKinds))
}

func (m *maker) kids(n int) []ast.Node {
	var ns []ast.Node
	for i := 0; i < n; i++ {
		ns = append(ns, m.grow())
	}
	return ns
}

// list is 0 to 2 children.
func (m *maker) list() []ast.Node { return m.kids(m.pick(3)) }

// opt is a child or nothing.
func (m *maker) opt() ast.Node {
	if m.pick(2) == 0 {
		return nil
	}
	return m.grow()
}

func (m *maker) optName() string {
	if m.pick(2) == 0 {
		return ""
	}
	return m.name()
}

func (m *maker) block() ast.BlockStatement {
	b := ast.BlockStatement{}
	for _, n := range m.list() {
		b.Body = append(b.Body, m.statementOf(n))
	}
	return b
}

func (m *maker) element() ast.BindingElement {
	return ast.BindingElement{Value: m.pattern(), Init: m.opt()}
}

// pattern is a binding pattern.
func (m *maker) pattern() ast.BindingPattern {
	switch m.pick(3) {
	case 1:
		p := &ast.ArrayBindingPattern{}
		for i := m.pick(3); i > 0; i-- {
			if m.pick(2) == 0 {
				p.Elements = append(p.Elements, ast.BindingElement{})
			} else {
				p.Elements = append(p.Elements, m.element())
			}
		}
		if m.pick(2) == 1 {
			p.RestElement = m.pattern()
		}
		return ast.BindingPattern{ArrayPattern: p}
	case 2:
		p := &ast.ObjectBindingPattern{}
		for i := m.pick(3); i > 0; i-- {
			e := ast.BindingProperty{PropertyName: m.name(), Init: m.opt()}
			if m.pick(2) == 1 {
				e.Value = m.pattern()
			}
			p.Properties = append(p.Properties, e)
		}
		p.RestElement = m.optName()
		return ast.BindingPattern{ObjectPattern: p}
	}
	return ast.BindingPattern{Identifier: m.name()}
}

func (m *maker) params() ast.FormalParameters {
	p := ast.FormalParameters{}
	switch m.pick(3) {
	case 1:
		p.Parameters = append(p.Parameters, m.element())
	case 2:
		p.Parameters = append(p.Parameters, ast.BindingElement{Value: ast.BindingPattern{Identifier: m.name()}}, m.element())
	}
	p.RestParameter = m.optName()
	return p
}

func (m *maker) function() ast.FunctionExpression {
	f := ast.FunctionExpression{ID: m.optName(), Generator: m.flag(), Async: m.flag()}
	if m.pick(2) == 0 {
		f.Params = m.params()
		f.Body = ast.BlockStatement{}
	} else {
		f.Body = m.block()
	}
	return f
}

func (m *maker) key() (ast.Node, bool) {
	switch m.pick(5) {
	case 0:
		return m.leaf(), false
	case 1:
		return ast.StringLiteral{Value: "s", Raw: "'s'"}, false
	case 2:
		return ast.NumberLiteral{Value: 2, Raw: "0x2"}, false
	case 3:
		return ast.Identifier{Name: "constructor"}, m.flag()
	}
	return m.grow(), true
}

func (m *maker) members() []ast.Node {
	var ns []ast.Node
	for i := m.pick(3); i > 0; i-- {
		k, computed := m.key()
		v := ast.FunctionExpression{Body: ast.BlockStatement{}}
		if m.pick(2) == 1 {
			v = m.function()
		}
		ns = append(ns, ast.MethodDefinition{Key: k, Computed: computed, Value: v, Kind: ast.MethodKind(vsym.Int("kind", 0, 2)), Static: m.flag()})
	}
	return ns
}

const expressionKinds = 25

func (m *maker) expression(kind int) ast.Node {
	switch kind {
	case 24:
		return ast.ThisExpression{}
	case 1:
		return ast.NullLiteral{}
	case 2:
		if m.pick(2) == 0 {
			return ast.BooleanLiteral{Value: true, Raw: "true"}
		}
		return ast.BooleanLiteral{Value: false, Raw: "false"}
	case 3:
		return ast.StringLiteral{Value: "a<>&\u2028\"b", Raw: "'a<>&\u2028\"b'"}
	case 4:
		return ast.NumberLiteral{Value: 1.5, Raw: "1.50"}
	case 5:
		return ast.RegExpLiteral{Pattern: "[/]<", Flags: "gi", Raw: "/[/]</gi"}
	case 6:
		e := ast.ArrayExpression{Elements: m.list()}
		if len(e.Elements) > 0 && m.pick(2) == 1 {
			e.Elements[0] = nil
		}
		return e
	case 7:
		o := ast.ObjectExpression{}
		for i := m.pick(3); i > 0; i-- {
			k, computed := m.key()
			p := ast.Property{Key: k, Computed: computed, Kind: ast.PropertyKind(vsym.Int("kind", 0, 2)), Method: m.flag()}
			p.Value = m.opt()
			o.Properties = append(o.Properties, p)
		}
		return o
	case 8:
		return m.function()
	case 9:
		f := ast.FunctionExpression{Arrow: true, Async: m.flag(), Params: m.params()}
		if m.pick(2) == 0 {
			f.Body = m.grow()
		} else {
			f.Body = m.block()
		}
		return f
	case 10:
		return ast.ClassExpression{ID: m.optName(), SuperClass: m.opt(), Body: m.members()}
	case 11:
		k := m.kids(2)
		return ast.MemberExpression{Object: k[0], Property: k[1], Computed: m.flag(), Optional: m.pick(2) == 1}
	case 12:
		return ast.CallExpression{Callee: m.grow(), Arguments: m.list(), Optional: m.pick(2) == 1}
	case 13:
		return ast.NewExpression{Callee: m.grow(), Arguments: m.list()}
	case 14:
		return ast.SpreadElement{Argument: m.grow()}
	case 15:
		return &ast.UnaryExpression{Operator: ast.UnaryOperator(m.pick(len(unaryOps))), Argument: m.grow()}
	case 16:
		return ast.UnaryExpression{Operator: ast.UnaryOperator(m.pick(len(unaryOps))), Argument: m.grow()}
	case 17:
		return &ast.UpdateExpression{Operator: ast.UpdateOperator(m.pick(len(updateOps))), Argument: m.grow()}
	case 18:
		return ast.UpdateExpression{Operator: ast.UpdateOperator(m.pick(len(updateOps))), Argument: m.grow()}
	case 19:
		k := m.kids(2)
		return ast.BinaryExpression{Operator: ast.BinaryOperator(m.pick(len(binaryOps))), Left: k[0], Right: k[1]}
	case 20:
		k := m.kids(3)
		return ast.ConditionalExpression{Test: k[0], Consequent: k[1], Alternate: k[2]}
	case 21:
		k := m.kids(2)
		return ast.AssignmentExpression{Operator: ast.AssignmentOperator(m.pick(len(assignOps))), Left: k[0], Right: k[1]}
	case 22:
		return ast.SequenceExpression{Expressions: m.kids(2 + m.pick(2))}
	case 23:
		return ast.ParenthesizedExpression{Expression: m.grow()}
	}
	return m.leaf()
}

func (m *maker) declaration() ast.VariableDeclaration {
	d := ast.VariableDeclaration{Kind: ast.VarKind(vsym.Int("varkind", 0, 2))}
	for i := 1 + m.pick(2); i > 0; i-- {
		d.Declarations = append(d.Declarations, ast.VariableDeclarator{ID: m.pattern(), Init: m.opt()})
	}
	return d
}

// statementOf is an expression as a statement that is no directive.
func (m *maker) statementOf(n ast.Node) ast.Node {
	if _, str := n.(ast.StringLiteral); str {
		n = ast.ParenthesizedExpression{Expression: n}
	}
	return ast.ExpressionStatement{Expression: n}
}

func (m *maker) stmt() ast.Node {
	return m.statement(m.pick(statementKinds))
}

func (m *maker) stmts() []ast.Node {
	var ns []ast.Node
	for i := m.pick(3); i > 0; i-- {
		ns = append(ns, m.stmt())
	}
	return ns
}

const statementKinds = 22

func (m *maker) statement(kind int) ast.Node {
	switch kind {
	case 0:
		return m.statementOf(m.grow())
	case 1:
		return ast.EmptyStatement{}
	case 2:
		return ast.BlockStatement{Body: m.stmts()}
	case 3:
		return m.declaration()
	case 4:
		f := m.function()
		return ast.FunctionDeclaration{ID: m.name(), Params: f.Params, Body: f.Body.(ast.BlockStatement), Generator: f.Generator, Async: f.Async}
	case 5:
		return ast.ClassDeclaration{ID: m.name(), SuperClass: m.opt(), Body: m.members()}
	case 6:
		return ast.ReturnStatement{Argument: m.opt()}
	case 7:
		return ast.ThrowStatement{Argument: m.grow()}
	case 8:
		return ast.BreakStatement{Label: m.optName()}
	case 9:
		return ast.ContinueStatement{Label: m.optName()}
	case 10:
		s := ast.IfStatement{Test: m.grow(), Consequent: m.stmt()}
		if m.pick(2) == 1 {
			s.Alternate = m.stmt()
		}
		return s
	case 11:
		return ast.WhileStatement{Test: m.grow(), Body: m.stmt()}
	case 12:
		return ast.DoWhileStatement{Test: m.grow(), Body: m.stmt()}
	case 13:
		s := ast.ForStatement{Test: m.opt(), Update: m.opt(), Body: m.stmt()}
		switch m.pick(3) {
		case 1:
			s.Init = m.grow()
		case 2:
			s.Init = m.declaration()
		}
		return s
	case 14:
		s := ast.ForInStatement{Right: m.leaf(), Body: m.stmt()}
		if m.pick(2) == 0 {
			s.Left = m.grow()
		} else {
			s.Left = m.declaration()
		}
		return s
	case 15:
		s := ast.ForOfStatement{Right: m.leaf(), Body: m.stmt()}
		if m.pick(2) == 0 {
			s.Left = m.grow()
		} else {
			s.Left = m.declaration()
		}
		return s
	case 16:
		s := ast.SwitchStatement{Discriminant: m.leaf()}
		for i := m.pick(3); i > 0; i-- {
			s.Cases = append(s.Cases, ast.SwitchCase{Test: m.opt(), Consequent: m.stmts()})
		}
		return s
	case 17:
		return ast.LabeledStatement{Label: m.name(), Body: m.stmt()}
	case 18:
		s := ast.TryStatement{Block: ast.BlockStatement{Body: m.stmts()}}
		switch m.pick(3) {
		case 0:
			s.Finalizer = ast.BlockStatement{Body: m.stmts()}
		case 1:
			s.Handler = ast.CatchClause{Param: m.pattern(), Body: ast.BlockStatement{}}
		case 2:
			s.Handler = ast.CatchClause{Body: ast.BlockStatement{Body: m.stmts()}}
			s.Finalizer = ast.BlockStatement{}
		}
		return s
	case 19:
		return ast.ScriptNode{Body: m.stmts()}
	case 20:
		return ast.ModuleNode{Body: m.stmts()}
	case 21:
		d := ast.ImportDeclNode{Module: "m", Raw: "\"m\""}
		if m.pick(2) == 1 {
			d.DefaultBinding = &ast.ImportDefaultBinding{Identifier: m.name()}
		}
		if m.pick(2) == 1 {
			d.NameSpace = &ast.NameSpaceImport{Identifier: m.name()}
		}
		for i := m.pick(3); i > 0; i-- {
			d.NamedImports = append(d.NamedImports, ast.NamedImport{Identifier: m.name(), AsBinding: m.optName()})
		}
		return d
	}
	return m.leaf()
}

func made(n ast.Node) {
	vsym.Assert(convertible(n), "the tree can not be converted")
	vsym.Reach("node")
	sameESTree(n)
}

func H_C21_expressions() {
	m := &maker{left: vsym.Param("DIFF")}
	made(m.expression(vsym.Pick("kind", expressionKinds)))
}

func H_C21_statements() {
	m := &maker{left: vsym.Param("DIFF")}
	made(m.statement(vsym.Pick("kind", statementKinds)))
}

// H_C21_chains: member accesses and calls on each other.
func H_C21_chains() {
	m := &maker{left: 1000}
	n := m.leaf()
	for i := vsym.Param("N"); i > 0; i-- {
		switch m.pick(7) {
		case 0:
			n = ast.MemberExpression{Object: n, Property: m.leaf(), Computed: m.flag(), Optional: m.pick(2) == 1}
		case 1:
			n = ast.CallExpression{Callee: n, Optional: m.pick(2) == 1}
		case 2:
			n = ast.ParenthesizedExpression{Expression: n}
		case 3:
			n = ast.NewExpression{Callee: n}
		case 4:
			n = ast.MemberExpression{Object: m.leaf(), Property: n, Computed: true, Optional: m.pick(2) == 1}
		case 5:
			n = ast.CallExpression{Callee: m.leaf(), Arguments: []ast.Node{n}, Optional: m.pick(2) == 1}
		case 6:
			n = &ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: n}
		}
	}
	made(n)
}
