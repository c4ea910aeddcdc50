package harness

import (
	"math"

	"github.com/jchv/cleansheets/ecmascript/ast"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// The reference conversion of a tree to ESTree (https://github.com/estree/estree)
// as the generic tree of its JSON document.

type obj = map[string]interface{}
type arr = []interface{}

// absent stands for a field that must not be there.
type absent struct{}

func refIdent(name string) interface{} {
	if name == "" {
		return nil
	}
	return obj{"type": "Identifier", "name": name}
}

func refOpt(n ast.Node) interface{} {
	if n == nil {
		return nil
	}
	return refNode(n)
}

func refList(ns []ast.Node) arr {
	l := arr{}
	for _, n := range ns {
		l = append(l, refOpt(n))
	}
	return l
}

// refBody converts statements that may start with directives.
func refBody(ns []ast.Node, prologue bool) arr {
	l := arr{}
	for _, n := range ns {
		e, ok := n.(ast.ExpressionStatement)
		if !ok {
			prologue = false
			l = append(l, refNode(n))
			continue
		}
		o := obj{"type": "ExpressionStatement", "expression": refNode(e.Expression), "directive": absent{}}
		str, ok := e.Expression.(ast.StringLiteral)
		prologue = prologue && ok
		if prologue {
			o["directive"] = str.Value
		}
		l = append(l, o)
	}
	return l
}

func refFunctionBody(n ast.Node) interface{} {
	if b, ok := n.(ast.BlockStatement); ok {
		return obj{"type": "BlockStatement", "body": refBody(b.Body, true)}
	}
	return refNode(n)
}

func refDefault(left interface{}, init ast.Node) interface{} {
	if init == nil {
		return left
	}
	return obj{"type": "AssignmentPattern", "left": left, "right": refNode(init)}
}

func refRest(arg interface{}) interface{} {
	return obj{"type": "RestElement", "argument": arg}
}

func refBinding(p ast.BindingPattern) interface{} {
	if p.Identifier != "" {
		return refIdent(p.Identifier)
	}
	if p.ArrayPattern != nil {
		l := arr{}
		for _, e := range p.ArrayPattern.Elements {
			l = append(l, refElement(e))
		}
		if !noPattern(p.ArrayPattern.RestElement) {
			l = append(l, refRest(refBinding(p.ArrayPattern.RestElement)))
		}
		return obj{"type": "ArrayPattern", "elements": l}
	}
	if p.ObjectPattern != nil {
		l := arr{}
		for _, e := range p.ObjectPattern.Properties {
			short := noPattern(e.Value)
			v := refBinding(e.Value)
			if short {
				v = refIdent(e.PropertyName)
			}
			l = append(l, obj{"type": "Property", "key": refIdent(e.PropertyName), "computed": false,
				"value": refDefault(v, e.Init), "kind": "init", "method": false, "shorthand": short})
		}
		if p.ObjectPattern.RestElement != "" {
			l = append(l, refRest(refIdent(p.ObjectPattern.RestElement)))
		}
		return obj{"type": "ObjectPattern", "properties": l}
	}
	return nil
}

func refElement(e ast.BindingElement) interface{} {
	return refDefault(refBinding(e.Value), e.Init)
}

func refParams(p ast.FormalParameters) arr {
	l := arr{}
	for _, e := range p.Parameters {
		l = append(l, refElement(e))
	}
	if p.RestParameter != "" {
		l = append(l, refRest(refIdent(p.RestParameter)))
	}
	return l
}

func refFunction(typ, id string, p ast.FormalParameters, body ast.Node, gen, async bool) obj {
	_, block := body.(ast.BlockStatement)
	return obj{"type": typ, "id": refIdent(id), "params": refParams(p), "body": refFunctionBody(body),
		"generator": gen, "async": async, "expression": !block}
}

func refClass(typ, id string, super ast.Node, body []ast.Node) interface{} {
	return obj{"type": typ, "id": refIdent(id), "superClass": refOpt(super),
		"body": obj{"type": "ClassBody", "body": refList(body)}}
}

var propertyKinds = map[ast.PropertyKind]string{ast.InitProperty: "init", ast.GetProperty: "get", ast.SetProperty: "set"}
var methodKinds = map[ast.MethodKind]string{ast.Method: "method", ast.GetMethod: "get", ast.SetMethod: "set"}
var varKinds = map[ast.VarKind]string{ast.VarDeclaration: "var", ast.LetDeclaration: "let", ast.ConstDeclaration: "const"}

func refProperty(p ast.Property, pattern bool) interface{} {
	key := refNode(p.Key)
	v := key
	if p.Value != nil {
		if pattern {
			v = refTargetElement(p.Value)
		} else {
			v = refNode(p.Value)
		}
	}
	return obj{"type": "Property", "key": key, "computed": p.Computed, "value": v,
		"kind": propertyKinds[ast.PropertyKind(vsym.Conc(int(p.Kind)))], "method": p.Method, "shorthand": p.Value == nil}
}

// refTarget converts the target of an assignment.
func refTarget(n ast.Node) interface{} {
	switch t := n.(type) {
	case ast.ArrayExpression:
		l := arr{}
		for _, e := range t.Elements {
			if e == nil {
				l = append(l, nil)
			} else {
				l = append(l, refTargetElement(e))
			}
		}
		return obj{"type": "ArrayPattern", "elements": l}
	case ast.ObjectExpression:
		l := arr{}
		for _, p := range t.Properties {
			l = append(l, refProperty(p, true))
		}
		return obj{"type": "ObjectPattern", "properties": l}
	}
	return refNode(n)
}

func refTargetElement(n ast.Node) interface{} {
	if t, ok := n.(ast.AssignmentExpression); ok && t.Operator == ast.AssignmentOp {
		return refDefault(refTarget(t.Left), t.Right)
	}
	return refTarget(n)
}

func hasChain(n ast.Node) bool {
	switch t := n.(type) {
	case ast.MemberExpression:
		return t.Optional || hasChain(t.Object)
	case ast.CallExpression:
		return t.Optional || hasChain(t.Callee)
	}
	return false
}

// refLink converts an element of a member and call chain.
func refLink(n ast.Node) interface{} {
	switch t := n.(type) {
	case ast.MemberExpression:
		return obj{"type": "MemberExpression", "object": refLink(t.Object), "property": refNode(t.Property),
			"computed": t.Computed, "optional": t.Optional}
	case ast.CallExpression:
		return obj{"type": "CallExpression", "callee": refLink(t.Callee), "arguments": refList(t.Arguments), "optional": t.Optional}
	}
	return refNode(n)
}

func refUnary(t ast.UnaryExpression) interface{} {
	return obj{"type": "UnaryExpression", "operator": unaryOps[ast.UnaryOperator(vsym.Conc(int(t.Operator)))], "prefix": true, "argument": refNode(t.Argument)}
}

func refUpdate(t ast.UpdateExpression) interface{} {
	o := ast.UpdateOperator(vsym.Conc(int(t.Operator)))
	return obj{"type": "UpdateExpression", "operator": updateOps[o],
		"prefix": o == ast.UpdatePreIncrementOp || o == ast.UpdatePreDecrementOp, "argument": refNode(t.Argument)}
}

func refDeclaration(t ast.VariableDeclaration) interface{} {
	l := arr{}
	for _, d := range t.Declarations {
		l = append(l, obj{"type": "VariableDeclarator", "id": refBinding(d.ID), "init": refOpt(d.Init)})
	}
	return obj{"type": "VariableDeclaration", "kind": varKinds[ast.VarKind(vsym.Conc(int(t.Kind)))], "declarations": l}
}

func refImport(t ast.ImportDeclNode) interface{} {
	l := arr{}
	if t.DefaultBinding != nil {
		l = append(l, obj{"type": "ImportDefaultSpecifier", "local": refIdent(t.DefaultBinding.Identifier)})
	}
	if t.NameSpace != nil {
		l = append(l, obj{"type": "ImportNamespaceSpecifier", "local": refIdent(t.NameSpace.Identifier)})
	}
	for _, m := range t.NamedImports {
		local := m.AsBinding
		if local == "" {
			local = m.Identifier
		}
		l = append(l, obj{"type": "ImportSpecifier", "imported": refIdent(m.Identifier), "local": refIdent(local)})
	}
	return obj{"type": "ImportDeclaration", "specifiers": l, "source": obj{"type": "Literal", "value": t.Module, "raw": t.Raw}}
}

func refNode(n ast.Node) interface{} {
	switch t := n.(type) {
	case ast.Identifier:
		return obj{"type": "Identifier", "name": t.Name}
	case ast.ThisExpression:
		return obj{"type": "ThisExpression"}
	case ast.NullLiteral:
		return obj{"type": "Literal", "value": nil, "raw": "null"}
	case ast.BooleanLiteral:
		return obj{"type": "Literal", "value": t.Value, "raw": t.Raw}
	case ast.NumberLiteral:
		if math.IsInf(t.Value, 0) {
			return obj{"type": "Literal", "value": nil, "raw": t.Raw}
		}
		return obj{"type": "Literal", "value": t.Value, "raw": t.Raw}
	case ast.StringLiteral:
		return obj{"type": "Literal", "value": t.Value, "raw": t.Raw}
	case ast.RegExpLiteral:
		return obj{"type": "Literal", "raw": t.Raw, "regex": obj{"pattern": t.Pattern, "flags": t.Flags}}
	case ast.ParenthesizedExpression:
		return refNode(t.Expression)
	case ast.ArrayExpression:
		return obj{"type": "ArrayExpression", "elements": refList(t.Elements)}
	case ast.ObjectExpression:
		l := arr{}
		for _, p := range t.Properties {
			l = append(l, refProperty(p, false))
		}
		return obj{"type": "ObjectExpression", "properties": l}
	case ast.FunctionExpression:
		if t.Arrow {
			return refFunction("ArrowFunctionExpression", t.ID, t.Params, t.Body, t.Generator, t.Async)
		}
		return refFunction("FunctionExpression", t.ID, t.Params, t.Body, t.Generator, t.Async)
	case ast.ClassExpression:
		return refClass("ClassExpression", t.ID, t.SuperClass, t.Body)
	case ast.MemberExpression, ast.CallExpression:
		if hasChain(n) {
			return obj{"type": "ChainExpression", "expression": refLink(n)}
		}
		return refLink(n)
	case ast.NewExpression:
		return obj{"type": "NewExpression", "callee": refNode(t.Callee), "arguments": refList(t.Arguments)}
	case ast.SpreadElement:
		return obj{"type": "SpreadElement", "argument": refNode(t.Argument)}
	case *ast.UnaryExpression:
		return refUnary(*t)
	case ast.UnaryExpression:
		return refUnary(t)
	case *ast.UpdateExpression:
		return refUpdate(*t)
	case ast.UpdateExpression:
		return refUpdate(t)
	case ast.BinaryExpression:
		op := binaryOps[ast.BinaryOperator(vsym.Conc(int(t.Operator)))].s
		typ := "BinaryExpression"
		if op == "&&" || op == "||" || op == "??" {
			typ = "LogicalExpression"
		}
		return obj{"type": typ, "operator": op, "left": refNode(t.Left), "right": refNode(t.Right)}
	case ast.ConditionalExpression:
		return obj{"type": "ConditionalExpression", "test": refNode(t.Test), "consequent": refNode(t.Consequent), "alternate": refNode(t.Alternate)}
	case ast.AssignmentExpression:
		op := ast.AssignmentOperator(vsym.Conc(int(t.Operator)))
		left := refNode(t.Left)
		if op == ast.AssignmentOp {
			left = refTarget(t.Left)
		} else {
			switch t.Left.(type) {
			case ast.ArrayExpression, ast.ObjectExpression:
				vsym.Assume(false) // no program, no ESTree
			}
		}
		return obj{"type": "AssignmentExpression", "operator": assignOps[op], "left": left, "right": refNode(t.Right)}
	case ast.SequenceExpression:
		return obj{"type": "SequenceExpression", "expressions": refList(t.Expressions)}

	case ast.ScriptNode:
		return obj{"type": "Program", "sourceType": "script", "body": refBody(t.Body, true)}
	case ast.ModuleNode:
		return obj{"type": "Program", "sourceType": "module", "body": refBody(t.Body, true)}
	case ast.ImportDeclNode:
		return refImport(t)
	case ast.BlockStatement:
		return obj{"type": "BlockStatement", "body": refBody(t.Body, false)}
	case ast.EmptyStatement:
		return obj{"type": "EmptyStatement"}
	case ast.ExpressionStatement:
		return refBody([]ast.Node{t}, false)[0]
	case ast.VariableDeclaration:
		return refDeclaration(t)
	case ast.FunctionDeclaration:
		return refFunction("FunctionDeclaration", t.ID, t.Params, t.Body, t.Generator, t.Async)
	case ast.ClassDeclaration:
		return refClass("ClassDeclaration", t.ID, t.SuperClass, t.Body)
	case ast.MethodDefinition:
		kind := methodKinds[ast.MethodKind(vsym.Conc(int(t.Kind)))]
		if key, ok := t.Key.(ast.Identifier); ok && !t.Computed && !t.Static && kind == "method" && key.Name == "constructor" {
			kind = "constructor"
		}
		return obj{"type": "MethodDefinition", "key": refNode(t.Key), "computed": t.Computed, "static": t.Static, "kind": kind,
			"value": refFunction("FunctionExpression", t.Value.ID, t.Value.Params, t.Value.Body, t.Value.Generator, t.Value.Async)}
	case ast.ReturnStatement:
		return obj{"type": "ReturnStatement", "argument": refOpt(t.Argument)}
	case ast.ThrowStatement:
		return obj{"type": "ThrowStatement", "argument": refNode(t.Argument)}
	case ast.BreakStatement:
		return obj{"type": "BreakStatement", "label": refIdent(t.Label)}
	case ast.ContinueStatement:
		return obj{"type": "ContinueStatement", "label": refIdent(t.Label)}
	case ast.IfStatement:
		return obj{"type": "IfStatement", "test": refNode(t.Test), "consequent": refNode(t.Consequent), "alternate": refOpt(t.Alternate)}
	case ast.WhileStatement:
		return obj{"type": "WhileStatement", "test": refNode(t.Test), "body": refNode(t.Body)}
	case ast.DoWhileStatement:
		return obj{"type": "DoWhileStatement", "test": refNode(t.Test), "body": refNode(t.Body)}
	case ast.ForStatement:
		return obj{"type": "ForStatement", "init": refOpt(t.Init), "test": refOpt(t.Test), "update": refOpt(t.Update), "body": refNode(t.Body)}
	case ast.ForInStatement:
		return obj{"type": "ForInStatement", "left": refTarget(t.Left), "right": refNode(t.Right), "body": refNode(t.Body)}
	case ast.ForOfStatement:
		return obj{"type": "ForOfStatement", "await": false, "left": refTarget(t.Left), "right": refNode(t.Right), "body": refNode(t.Body)}
	case ast.SwitchStatement:
		l := arr{}
		for _, c := range t.Cases {
			l = append(l, obj{"type": "SwitchCase", "test": refOpt(c.Test), "consequent": refList(c.Consequent)})
		}
		return obj{"type": "SwitchStatement", "discriminant": refNode(t.Discriminant), "cases": l}
	case ast.LabeledStatement:
		return obj{"type": "LabeledStatement", "label": refIdent(t.Label), "body": refNode(t.Body)}
	case ast.TryStatement:
		return obj{"type": "TryStatement", "block": refNode(t.Block), "handler": refOpt(t.Handler), "finalizer": refOpt(t.Finalizer)}
	case ast.CatchClause:
		return obj{"type": "CatchClause", "param": refBinding(t.Param), "body": refNode(t.Body)}
	}
	vsym.Fail("an unexpected kind of node")
	return nil
}

// sameESTree asserts that a tree converts to what the reference says.
func sameESTree(n ast.Node) {
	got, _ := vsym.Tree(n.ESTree())
	sameDoc(got, refNode(n))
}

func sameDoc(got, want interface{}) {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		vsym.Assert(ok, "an ESTree node is missing")
		for k, v := range w {
			f, there := g[k]
			if _, no := v.(absent); no {
				vsym.Assert(!there, "an ESTree field that must not be there")
				continue
			}
			vsym.Assert(there, "an ESTree field is missing")
			sameDoc(f, v)
		}
	case arr:
		g, ok := got.(arr)
		vsym.Assert(ok, "an ESTree list is missing")
		vsym.Assert(len(g) == len(w), "an ESTree list has another length")
		for i := range w {
			sameDoc(g[i], w[i])
		}
	case string:
		g, ok := got.(string)
		vsym.Assert(ok, "an ESTree string is missing")
		vsym.Assert(vsym.EqStr(g, w), "an ESTree string differs")
	case bool:
		g, ok := got.(bool)
		vsym.Assert(ok, "an ESTree truth value is missing")
		vsym.Assert(vsym.Iff(g, w), "an ESTree truth value differs")
	case float64:
		g, ok := got.(float64)
		vsym.Assert(ok, "an ESTree number is missing")
		vsym.Assert(vsym.SameNumber(g, w), "an ESTree number differs")
	case nil:
		vsym.Assert(got == nil, "an ESTree field is not null")
	default:
		vsym.Fail("unknown reference value")
	}
}
