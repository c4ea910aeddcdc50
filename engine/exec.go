package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symPtr is the address of a table element selected by a symbolic index; it
// can be loaded from (the load merges the elements).
type symPtr struct {
	cells []value // backing elements, read at load time through base
	idx   *Term
}

// iterators
type strIter struct {
	e   []sElem
	off *Term
	k   int
}
type mapIter struct {
	m *mapV
	k int
}

func (in *Interp) nilDeref() {
	in.rtPanic("invalid memory address or nil pointer dereference")
}

// load reads through a pointer.
func (in *Interp) load(p value, ty types.Type) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.nilDeref()
		}
		v := *p
		switch v.(type) {
		case structV, arrayV:
			return copyVal(v)
		}
		return v
	case *symPtr:
		idx := in.simp(p.idx)
		if idx.isConst() {
			return copyVal(p.cells[idx.c])
		}
		if r, ok := in.selectVal(idx, p.cells, ty); ok {
			return r
		}
		return copyVal(p.cells[in.concTerm(idx)])
	}
	unsup("load through %T", p)
	return nil
}

// selectVal builds cells[idx] as one value.
func (in *Interp) selectVal(idx *Term, cells []value, ty types.Type) (value, bool) {
	if len(cells) == 0 {
		return nil, false
	}
	r := cells[len(cells)-1]
	// group equal values
	for i := len(cells) - 2; i >= 0; i-- {
		if sameVal(cells[i], r) {
			continue
		}
		m, ok := in.mergeVals(in.tt.Eq(idx, in.tt.Const(idx.w, uint64(i))), cells[i], r, ty)
		if !ok {
			return nil, false
		}
		r = m
	}
	return r, true
}

// storeTo writes through a pointer; aggregates are written in place.
func (in *Interp) storeTo(p *value, v value) {
	switch s := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(s) {
			for i := range s {
				in.storeTo(&d[i], s[i])
			}
			return
		}
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(s) {
			for i := range s {
				in.storeTo(&d[i], s[i])
			}
			return
		}
	}
	in.store(p, v)
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(deref(x.Type()))
		fr.env[ci.dst] = p
	case *ssa.BinOp:
		fr.env[ci.dst] = in.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		fr.env[ci.dst] = in.unop(x, fr.get(&ci.ops[0]))
	case *ssa.Store:
		p := fr.get(&ci.ops[0])
		switch p := p.(type) {
		case *value:
			if p == nil {
				in.nilDeref()
			}
			in.storeTo(p, copyVal(fr.get(&ci.ops[1])))
		case *symPtr:
			k := in.concTerm(p.idx)
			in.storeTo(&p.cells[k], copyVal(fr.get(&ci.ops[1])))
		default:
			unsup("store through %T", p)
		}
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0])
		pp, ok := p.(*value)
		if !ok {
			if sp, ok := p.(*symPtr); ok {
				k := in.concTerm(sp.idx)
				pp = &sp.cells[k]
			} else {
				unsup("field address of %T in %s", p, fr.fi.fn)
			}
		}
		if pp == nil {
			in.nilDeref()
		}
		s, ok := (*pp).(structV)
		if !ok {
			unsup("field address in %T (%s)", *pp, fr.fi.fn)
		}
		fr.env[ci.dst] = &s[x.Field]
	case *ssa.Field:
		fr.env[ci.dst] = copyVal(fr.get(&ci.ops[0]).(structV)[x.Field])
	case *ssa.IndexAddr:
		base := fr.get(&ci.ops[0])
		var cells []value
		switch b := base.(type) {
		case sliceV:
			cells = b.a
		case *value:
			if b == nil {
				in.nilDeref()
			}
			cells = (*b).(arrayV)
		default:
			unsup("index address of %T", base)
		}
		idx := in.simpInt(fr.get(&ci.ops[1]), x.Index.Type())
		if t, ok := idx.(*Term); ok && in.inInit == 0 && selectable(cells) {
			inb := in.tt.Bin(OpUlt, t, in.tt.Const(t.w, uint64(len(cells))))
			if t.w < 64 && uint64(len(cells)) > mask(t.w) {
				inb = in.tt.True
			}
			if !in.decide(inb) {
				in.rtPanic(fmt.Sprintf("index out of range with length %d", len(cells)))
			}
			fr.env[ci.dst] = &symPtr{cells, t}
			return
		}
		k := in.boundedIndex(idx, len(cells))
		fr.env[ci.dst] = &cells[k]
	case *ssa.Index:
		base := fr.get(&ci.ops[0])
		idx := in.simpInt(fr.get(&ci.ops[1]), x.Index.Type())
		if a, ok := base.(arrayV); ok {
			if t, ok := idx.(*Term); ok && selectable(a) {
				inb := in.tt.Bin(OpUlt, t, in.tt.Const(t.w, uint64(len(a))))
				if t.w < 64 && uint64(len(a)) > mask(t.w) {
					inb = in.tt.True
				}
				if !in.decide(inb) {
					in.rtPanic(fmt.Sprintf("index out of range with length %d", len(a)))
				}
				if r, ok := in.selectVal(t, a, x.Type()); ok {
					fr.env[ci.dst] = r
					return
				}
			}
			fr.env[ci.dst] = copyVal(a[in.boundedIndex(idx, len(a))])
			return
		}
		fr.env[ci.dst] = in.indexStr(base, idx)
	case *ssa.Lookup:
		fr.env[ci.dst] = in.lookup(x, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*mapV)
		if m == nil {
			in.rtPanicPlain("assignment to entry in nil map")
		}
		in.mapSet(m, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
	case *ssa.Slice:
		fr.env[ci.dst] = in.slice(fr, x, ci)
	case *ssa.MakeSlice:
		n := in.concInt(fr.get(&ci.ops[0]))
		c := in.concInt(fr.get(&ci.ops[1]))
		if n < 0 || n > 1<<24 || c < n || c > 1<<24 {
			in.rtPanic("makeslice: len out of range")
		}
		a := make([]value, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		for i := range a {
			a[i] = zero(et)
		}
		fr.env[ci.dst] = sliceV{a[:n:c]}
	case *ssa.MakeChan:
		fr.env[ci.dst] = &hostChan{}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		fr.env[ci.dst] = newMap(mt)
	case *ssa.MakeClosure:
		env := make([]value, 0, len(ci.ops)-1)
		for i := range ci.ops[1:] {
			env = append(env, fr.get(&ci.ops[i+1]))
		}
		fr.env[ci.dst] = &closure{x.Fn.(*ssa.Function), env}
	case *ssa.MakeInterface:
		fr.env[ci.dst] = iface{x.X.Type(), fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.env[ci.dst] = in.convert(x.X.Type(), x.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = in.convert(x.X.Type(), x.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(sliceV)
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if int64(len(s.a)) < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		p := new(value)
		*p = arrayV(s.a[:n])
		fr.env[ci.dst] = p
	case *ssa.TypeAssert:
		fr.env[ci.dst] = in.typeAssert(x, fr.get(&ci.ops[0]))
	case *ssa.Extract:
		fr.env[ci.dst] = fr.get(&ci.ops[0]).(tupleV)[x.Index]
	case *ssa.Range:
		v := fr.get(&ci.ops[0])
		switch v := v.(type) {
		case *mapV:
			fr.env[ci.dst] = &mapIter{m: v}
		default:
			fr.env[ci.dst] = &strIter{e: in.strElems(v), off: in.tt.Const(64, 0)}
		}
	case *ssa.Next:
		fr.env[ci.dst] = in.next(x, fr.get(&ci.ops[0]))
	case *ssa.Call:
		fr.env[ci.dst] = in.doCall(fr, &x.Call, ci)
	case *ssa.Defer:
		d := &deferred{next: fr.defers}
		if x.Call.IsInvoke() {
			d.meth = x.Call.Method
			d.recv = fr.get(&ci.ops[0])
			if d.recv.(iface).t == nil {
				in.nilDeref()
			}
		} else {
			d.fn = fr.get(&ci.ops[0])
		}
		for i := range x.Call.Args {
			d.args = append(d.args, copyVal(fr.get(&ci.ops[i+1])))
		}
		fr.defers = d
	case *ssa.DebugRef:
	default:
		unsup("instruction %T in %s", ci.in, fr.fi.fn)
	}
}

func (in *Interp) rtPanicPlain(msg string) {
	if in.pureEv > 0 {
		panic(mergeAbort{})
	}
	panic(targetPanic{v: iface{t: hostErrType, v: msg}})
}

func selectable(cells []value) bool {
	if len(cells) == 0 || len(cells) > 600 {
		return false
	}
	for _, c := range cells {
		switch c.(type) {
		case int64, bool, string, *Term, *TStr:
		default:
			return false
		}
	}
	return true
}

func (in *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) value {
	args := make([]value, len(c.Args))
	for i := range c.Args {
		v := fr.get(&ci.ops[i+1])
		switch v.(type) {
		case structV, arrayV:
			v = copyVal(v)
		}
		args[i] = v
	}
	if c.IsInvoke() {
		if in.pureEv > 0 {
			panic(mergeAbort{})
		}
		return in.invoke(fr, fr.get(&ci.ops[0]), c.Method, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, b, args, c)
	}
	fv := fr.get(&ci.ops[0])
	if in.pureEv > 0 {
		fn, ok := fv.(*ssa.Function)
		if !ok {
			panic(mergeAbort{})
		}
		fi := in.info(fn)
		if fi.intr == nil && anySymArg(args) {
			if v, ok := in.mergeCall(fr, fi, args, nil); ok {
				return v
			}
			panic(mergeAbort{})
		}
	}
	return in.callValue(fr, fv, args)
}

func (in *Interp) next(x *ssa.Next, it value) value {
	switch it := it.(type) {
	case *strIter:
		if it.k >= len(it.e) {
			return tupleV{false, int64(0), int64(0)}
		}
		e := it.e[it.k]
		off := in.termVal(in.simp(it.off))
		it.off = in.tt.Bin(OpAdd, it.off, in.elemLen(e))
		it.k++
		if e.bad {
			return tupleV{true, off, int64(utf8.RuneError)}
		}
		return tupleV{true, off, e.r}
	case *mapIter:
		if it.m == nil {
			return tupleV{false, nil, nil}
		}
		for it.k < len(it.m.ents) {
			e := it.m.ents[it.k]
			it.k++
			if !e.del {
				return tupleV{true, e.k, copyVal(e.v)}
			}
		}
		return tupleV{false, zero(it.m.kt), zero(it.m.vt)}
	}
	unsup("next %T", it)
	return nil
}

// ---- maps ----

func newMap(mt *types.Map) *mapV {
	return &mapV{kt: mt.Key(), vt: mt.Elem(), idx: map[interface{}]int{}}
}

func (in *Interp) symKey(k value) bool {
	_, ok := mapKey(k)
	return !ok
}

// eqConds lists (condition, index) for live entries that may equal the key.
func (in *Interp) mapFind(m *mapV, k value) (int, bool) {
	k = in.concKey(k, m.kt)
	h, ok := mapKey(k)
	if !ok {
		unsup("map key %T", k)
	}
	i, ok := m.idx[h]
	return i, ok
}

// concKey makes a map key concrete.
func (in *Interp) concKey(k value, kt types.Type) value {
	switch x := k.(type) {
	case *Term:
		x = in.simp(x)
		if x.w == 0 {
			return in.decide(x)
		}
		if !isSigned(kt) {
			return int64(in.concTerm(x))
		}
		return sext64(in.concTerm(x), x.w)
	case *SStr, *TStr, *LStr:
		return in.concStr(k)
	case structV:
		st := kt.Underlying().(*types.Struct)
		r := make(structV, len(x))
		for i := range x {
			r[i] = in.concKey(x[i], st.Field(i).Type())
		}
		return r
	case iface:
		if x.t != nil {
			return iface{x.t, in.concKey(x.v, x.t)}
		}
	}
	return k
}

func (in *Interp) mapSet(m *mapV, k, v value) {
	k = in.concKey(k, m.kt)
	h, ok := mapKey(k)
	if !ok {
		unsup("map key %T", k)
	}
	if i, ok := m.idx[h]; ok {
		in.store(&m.ents[i].v, v)
		return
	}
	m.idx[h] = len(m.ents)
	m.ents = append(m.ents, mapEntry{k: k, v: v})
	m.n++
	in.logf(func() {
		delete(m.idx, h)
		m.ents = m.ents[:len(m.ents)-1]
		m.n--
	})
}

func (in *Interp) mapDelete(m *mapV, k value) {
	if m == nil {
		return
	}
	i, ok := in.mapFind(m, k)
	if !ok {
		return
	}
	h, _ := mapKey(m.ents[i].k)
	delete(m.idx, h)
	m.ents[i].del = true
	m.n--
	in.logf(func() { m.idx[h] = i; m.ents[i].del = false; m.n++ })
}

func (in *Interp) lookup(x *ssa.Lookup, mv, k value) value {
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return in.indexStr(mv, in.simpInt(k, x.Index.Type()))
	}
	m, _ := mv.(*mapV)
	z := zero(mt.Elem())
	ret := func(v value, ok value) value {
		if x.CommaOk {
			return tupleV{v, ok}
		}
		return v
	}
	if m == nil || m.n == 0 {
		return ret(z, false)
	}
	if s, ok := k.(*LStr); ok {
		k = in.force(s)
	}
	k = in.simpKey(k, mt.Key())
	if h, ok := mapKey(k); ok {
		if i, ok := m.idx[h]; ok {
			return ret(copyVal(m.ents[i].v), true)
		}
		return ret(z, false)
	}
	// symbolic key: conditions per entry
	var conds []*Term
	var ents []int
	found := in.tt.False
	for i := range m.ents {
		e := &m.ents[i]
		if e.del {
			continue
		}
		c := in.eq(mt.Key(), k, e.k)
		ct := in.simp(in.toTerm(c, 0))
		if ct.isFalse() {
			continue
		}
		conds = append(conds, ct)
		ents = append(ents, i)
	}
	if len(conds) == 0 {
		return ret(z, false)
	}
	found = in.tt.Or(conds...)
	// merged result; entries with the same value share one condition
	res := z
	ok := true
	type grp struct {
		v  value
		cs []*Term
	}
	var groups []*grp
outer:
	for i, ei := range ents {
		v := m.ents[ei].v
		for _, g := range groups {
			if sameVal(g.v, v) || emptyStruct(v) {
				g.cs = append(g.cs, conds[i])
				continue outer
			}
		}
		groups = append(groups, &grp{v, []*Term{conds[i]}})
	}
	for i := len(groups) - 1; i >= 0; i-- {
		if emptyStruct(groups[i].v) {
			res = groups[i].v
			continue
		}
		r, mok := in.mergeVals(in.tt.Or(groups[i].cs...), groups[i].v, res, mt.Elem())
		if !mok {
			ok = false
			break
		}
		res = r
	}
	if ok {
		return ret(copyVal(res), in.termVal(found))
	}
	for i, c := range conds {
		if in.decide(c) {
			return ret(copyVal(m.ents[ents[i]].v), true)
		}
	}
	return ret(z, false)
}

func emptyStruct(v value) bool {
	s, ok := v.(structV)
	return ok && len(s) == 0
}

func (in *Interp) simpKey(k value, kt types.Type) value {
	switch x := k.(type) {
	case *Term:
		return in.termInt(in.simp(x), kt)
	case *TStr:
		t := in.simp(x.idx)
		if t.isConst() {
			return x.tab[t.c]
		}
	case *SStr:
		return in.simpSStr(x)
	}
	return k
}

func (in *Interp) simpSStr(x *SStr) value {
	ch := false
	for _, e := range x.e {
		if t, ok := e.r.(*Term); ok && in.simp(t) != t {
			ch = true
			break
		}
	}
	if !ch {
		return x
	}
	ne := make([]sElem, len(x.e))
	for i, e := range x.e {
		ne[i] = e
		if t, ok := e.r.(*Term); ok {
			ne[i].r = in.termVal(in.simp(t))
		}
	}
	return mkStr(ne)
}

// ---- type assertions ----

func (in *Interp) implements(t types.Type, i *types.Interface, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := in.implMemo[k]; ok {
		return r
	}
	var r bool
	if t == hostErrType || t == hostErrPtrType {
		r = true
		for m := 0; m < i.NumMethods(); m++ {
			if n := i.Method(m).Name(); n != "Error" && n != "RuntimeError" {
				r = false
			}
		}
	} else {
		r = types.Implements(t, i)
	}
	in.implMemo[k] = r
	return r
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v value) value {
	i := v.(iface)
	ok := false
	var res value
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if in.implements(i.t, it, x.AssertedType) {
				ok, res = true, i
			}
		} else if i.t == x.AssertedType || types.Identical(i.t, x.AssertedType) {
			ok, res = true, copyVal(i.v)
		}
	}
	if ok {
		if x.CommaOk {
			return tupleV{res, true}
		}
		return res
	}
	if x.CommaOk {
		return tupleV{zero(x.AssertedType), false}
	}
	if i.t == nil {
		in.rtPanicPlain(fmt.Sprintf("interface conversion: interface is nil, not %s", x.AssertedType))
	}
	in.rtPanicPlain(fmt.Sprintf("interface conversion: %s is not %s", i.t, x.AssertedType))
	return nil
}

// ---- operators ----

func (in *Interp) unop(x *ssa.UnOp, v value) value {
	switch x.Op {
	case token.MUL:
		return in.load(v, x.Type())
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return in.termVal(in.tt.Not(b))
		}
	case token.SUB:
		switch a := v.(type) {
		case int64:
			return norm(x.Type(), -a)
		case float64:
			return -a
		case *Term:
			return in.termInt(in.tt.Bin(OpSub, in.tt.Const(a.w, 0), a), x.Type())
		}
	case token.XOR:
		switch a := v.(type) {
		case int64:
			return norm(x.Type(), ^a)
		case *Term:
			return in.termInt(in.tt.Bin(OpBXor, a, in.tt.Const(a.w, mask(a.w))), x.Type())
		}
	}
	unsup("unop %s on %T", x.Op, v)
	return nil
}

// opaque float produced from symbolic text
type symFloat struct {
	kind string
	s    value
}

// eq compares values of static type t.
func (in *Interp) eq(t types.Type, a, b value) value {
	switch x := a.(type) {
	case *Term:
		y := in.toTerm(b, x.w)
		return in.termVal(in.simp(in.tt.Eq(in.simp(x), in.simp(y))))
	case int64:
		if y, ok := b.(*Term); ok {
			return in.termVal(in.tt.Eq(in.simp(y), in.tt.Const(y.w, uint64(x))))
		}
		return x == b.(int64)
	case bool:
		if y, ok := b.(*Term); ok {
			return in.termVal(in.tt.Eq(y, in.tt.Bool(x)))
		}
		return x == b.(bool)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		unsup("float comparison with symbolic float")
	case *symFloat:
		if y, ok := b.(*symFloat); ok {
			if x.kind == y.kind {
				e := in.eqStr(x.s, y.s)
				if eb, ok := e.(bool); ok && eb {
					return true
				}
				if t, ok := e.(*Term); ok && in.decide(t) {
					return true
				}
				// different texts may denote equal numbers: fall back to values
				return in.concFloat(x) == in.concFloat(y)
			}
			return in.concFloat(x) == in.concFloat(y)
		}
		return in.concFloat(x) == b.(float64)
	case string, *SStr, *TStr, *LStr:
		return in.eqStr(a, b)
	case *value:
		switch y := b.(type) {
		case *value:
			return x == y
		case *symPtr:
			return false
		}
	case *mapV:
		y, _ := b.(*mapV)
		return x == y
	case *closure:
		y, ok := b.(*closure)
		return ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *hostFunc:
		return a == b
	case sliceV:
		// comparison with nil only
		y, _ := b.(sliceV)
		return x.a == nil && y.a == nil
	case iface:
		y, ok := b.(iface)
		if !ok {
			unsup("interface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return false
		}
		return in.eq(x.t, x.v, y.v)
	case structV:
		st := t.Underlying().(*types.Struct)
		y := b.(structV)
		acc := in.tt.True
		for i := range x {
			e := in.eq(st.Field(i).Type(), x[i], y[i])
			et := in.toTerm(e, 0)
			if et.isFalse() {
				return false
			}
			acc = in.tt.And(acc, et)
		}
		return in.termVal(acc)
	case arrayV:
		at := t.Underlying().(*types.Array)
		y := b.(arrayV)
		acc := in.tt.True
		for i := range x {
			e := in.eq(at.Elem(), x[i], y[i])
			et := in.toTerm(e, 0)
			if et.isFalse() {
				return false
			}
			acc = in.tt.And(acc, et)
		}
		return in.termVal(acc)
	case *rType:
		y, ok := b.(*rType)
		return ok && types.Identical(x.t, y.t)
	case nil:
		return b == nil
	}
	unsup("== on %T and %T", a, b)
	return nil
}

func (in *Interp) notV(v value) value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return in.termVal(in.tt.Not(b))
	}
	panic("notV")
}

func (in *Interp) binop(op token.Token, tx, ty types.Type, a, b value) value {
	switch op {
	case token.EQL:
		return in.eq(tx, a, b)
	case token.NEQ:
		return in.notV(in.eq(tx, a, b))
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return in.concatStr(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			x, y := in.concStr(a), in.concStr(b)
			switch op {
			case token.LSS:
				return x < y
			case token.GTR:
				return x > y
			case token.LEQ:
				return x <= y
			default:
				return x >= y
			}
		}
		unsup("string op %s", op)
	}
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		if !ok {
			unsup("float op on %T", b)
		}
		r := func(f float64) value {
			if bt := tx.Underlying().(*types.Basic); bt.Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		unsup("float op %s", op)
	case *symFloat:
		return in.binop(op, tx, ty, in.concFloat(x), in.concF(b))
	case bool:
		if y, ok := b.(bool); ok {
			switch op {
			case token.AND, token.LAND:
				return x && y
			case token.OR, token.LOR:
				return x || y
			case token.XOR:
				return x != y
			}
		}
	}
	if isBool(tx) {
		x, y := in.toTerm(a, 0), in.toTerm(b, 0)
		switch op {
		case token.AND, token.LAND:
			return in.termVal(in.tt.And(x, y))
		case token.OR, token.LOR:
			return in.termVal(in.tt.Or(x, y))
		}
	}
	w, ok := intWidth(tx)
	if !ok {
		unsup("binop %s on %s", op, tx)
	}
	signed := isSigned(tx)
	xi, xc := a.(int64)
	yi, yc := b.(int64)
	if op == token.SHL || op == token.SHR {
		return in.shift(op, tx, ty, a, b)
	}
	if xc && yc {
		switch op {
		case token.ADD:
			return norm(tx, xi+yi)
		case token.SUB:
			return norm(tx, xi-yi)
		case token.MUL:
			return norm(tx, xi*yi)
		case token.QUO, token.REM:
			if yi == 0 {
				in.rtPanic("integer divide by zero")
			}
			if signed {
				if yi == -1 {
					if op == token.QUO {
						return norm(tx, -xi)
					}
					return int64(0)
				}
				if op == token.QUO {
					return norm(tx, xi/yi)
				}
				return norm(tx, xi%yi)
			}
			if op == token.QUO {
				return int64(uint64(xi) / uint64(yi))
			}
			return int64(uint64(xi) % uint64(yi))
		case token.AND:
			return xi & yi
		case token.OR:
			return xi | yi
		case token.XOR:
			return norm(tx, xi^yi)
		case token.AND_NOT:
			return xi &^ yi
		case token.LSS:
			if signed {
				return xi < yi
			}
			return uint64(xi) < uint64(yi)
		case token.LEQ:
			if signed {
				return xi <= yi
			}
			return uint64(xi) <= uint64(yi)
		case token.GTR:
			if signed {
				return xi > yi
			}
			return uint64(xi) > uint64(yi)
		case token.GEQ:
			if signed {
				return xi >= yi
			}
			return uint64(xi) >= uint64(yi)
		}
		unsup("int op %s", op)
	}
	x, y := in.simp(in.toTerm(a, w)), in.simp(in.toTerm(b, w))
	tt := in.tt
	pick := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return in.termInt(tt.Bin(OpAdd, x, y), tx)
	case token.SUB:
		return in.termInt(tt.Bin(OpSub, x, y), tx)
	case token.MUL:
		return in.termInt(tt.Bin(OpMul, x, y), tx)
	case token.QUO, token.REM:
		if in.decide(tt.Eq(y, tt.Const(w, 0))) {
			in.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return in.termInt(tt.Bin(pick(OpSdiv, OpUdiv), x, y), tx)
		}
		return in.termInt(tt.Bin(pick(OpSrem, OpUrem), x, y), tx)
	case token.AND:
		return in.termInt(tt.Bin(OpBAnd, x, y), tx)
	case token.OR:
		return in.termInt(tt.Bin(OpBOr, x, y), tx)
	case token.XOR:
		return in.termInt(tt.Bin(OpBXor, x, y), tx)
	case token.AND_NOT:
		return in.termInt(tt.Bin(OpBAnd, x, tt.Bin(OpBXor, y, tt.Const(w, mask(w)))), tx)
	case token.LSS:
		return in.termVal(tt.Bin(pick(OpSlt, OpUlt), x, y))
	case token.LEQ:
		return in.termVal(tt.Bin(pick(OpSle, OpUle), x, y))
	case token.GTR:
		return in.termVal(tt.Bin(pick(OpSlt, OpUlt), y, x))
	case token.GEQ:
		return in.termVal(tt.Bin(pick(OpSle, OpUle), y, x))
	}
	unsup("int op %s", op)
	return nil
}

func (in *Interp) concF(v value) value {
	if s, ok := v.(*symFloat); ok {
		return in.concFloat(s)
	}
	return v
}

func (in *Interp) shift(op token.Token, tx, ty types.Type, a, b value) value {
	w, _ := intWidth(tx)
	yw, _ := intWidth(ty)
	signed := isSigned(tx)
	if xi, ok := a.(int64); ok {
		if yi, ok := b.(int64); ok {
			if isSigned(ty) && yi < 0 {
				in.rtPanic("negative shift amount")
			}
			n := uint64(yi)
			if op == token.SHL {
				if n >= 64 {
					return int64(0)
				}
				return norm(tx, xi<<n)
			}
			if n >= 64 {
				if signed && xi < 0 {
					return int64(-1)
				}
				return int64(0)
			}
			if signed {
				return xi >> n
			}
			return int64(uint64(xi) >> n)
		}
	}
	x, y := in.simp(in.toTerm(a, w)), in.simp(in.toTerm(b, yw))
	tt := in.tt
	if isSigned(ty) {
		if in.decide(tt.Bin(OpSlt, y, tt.Const(yw, 0))) {
			in.rtPanic("negative shift amount")
		}
	}
	// bring the count to the operand width, saturating
	if yw > w {
		big := tt.Bin(OpUle, tt.Const(yw, uint64(w)), y)
		y = tt.Ite(big, tt.Const(w, uint64(w)), tt.Trunc(y, w))
	} else if yw < w {
		y = tt.Zext(y, w)
	}
	if op == token.SHL {
		return in.termInt(tt.Bin(OpShl, x, y), tx)
	}
	if signed {
		return in.termInt(tt.Bin(OpAshr, x, y), tx)
	}
	return in.termInt(tt.Bin(OpLshr, x, y), tx)
}

// ---- conversions ----

func (in *Interp) convert(from, to types.Type, v value) value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	if fIsB && tIsB {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				return norm(to, x)
			case *Term:
				tw, _ := intWidth(to)
				x = in.simp(x)
				switch {
				case tw == x.w:
					return in.termInt(x, to)
				case tw < x.w:
					return in.termInt(in.tt.Trunc(x, tw), to)
				case isSigned(from):
					return in.termInt(in.tt.Sext(x, tw), to)
				default:
					return in.termInt(in.tt.Zext(x, tw), to)
				}
			}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			r := v
			fw, _ := intWidth(from)
			if i, ok := v.(int64); ok {
				if i < 0 || i > 0x10ffff {
					i = utf8.RuneError
				}
				r = i
			} else if fw != 32 {
				r = in.concInt(v)
			}
			return mkStr([]sElem{{in.normRune(r), false}})
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			i := v
			if _, ok := v.(*Term); ok {
				return &symFloat{kind: "int:" + from.String(), s: v}
			}
			if fb.Info()&types.IsUnsigned != 0 {
				return float64(uint64(i.(int64)))
			}
			return float64(i.(int64))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			f := in.concF(v).(float64)
			if tb.Info()&types.IsUnsigned != 0 {
				return norm(to, int64(uint64(f)))
			}
			return norm(to, int64(f))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				return float64(float32(in.concF(v).(float64)))
			}
			return v
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			eb, _ := s.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				bs := in.strBytes(v)
				if bs == nil {
					bs = []value{}
				}
				return sliceV{bs}
			}
			if eb != nil && eb.Kind() == types.Int32 {
				a := []value{}
				for _, e := range in.strElems(v) {
					if e.bad {
						a = append(a, int64(utf8.RuneError))
					} else {
						a = append(a, e.r)
					}
				}
				return sliceV{a}
			}
		}
	}
	if s, ok := fu.(*types.Slice); ok && tIsB && tb.Info()&types.IsString != 0 {
		eb, _ := s.Elem().Underlying().(*types.Basic)
		a := v.(sliceV).a
		if eb != nil && eb.Kind() == types.Uint8 {
			return in.bytesToStr(a)
		}
		if eb != nil && eb.Kind() == types.Int32 {
			var e []sElem
			for _, r := range a {
				e = append(e, sElem{in.normRune(r), false})
			}
			return mkStr(e)
		}
	}
	switch tu.(type) {
	case *types.Pointer:
		return v
	}
	if tIsB && tb.Kind() == types.UnsafePointer {
		return v
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func (in *Interp) concFloat(s *symFloat) float64 {
	return in.evalFloat(s)
}

// ---- slices ----

func (in *Interp) slice(fr *frame, x *ssa.Slice, ci *cinstr) value {
	base := fr.get(&ci.ops[0])
	arg := func(v ssa.Value, i int) value {
		if v == nil {
			return nil
		}
		return in.simpInt(fr.get(&ci.ops[i]), v.Type())
	}
	lo, hi, max := arg(x.Low, 1), arg(x.High, 2), arg(x.Max, 3)
	var cells []value
	isArr := false
	switch b := base.(type) {
	case string, *SStr, *TStr, *LStr:
		return in.sliceStr(base, lo, hi)
	case sliceV:
		cells = b.a
	case *value:
		if b == nil {
			in.nilDeref()
		}
		cells = (*b).(arrayV)
		isArr = true
	default:
		unsup("slice of %T", base)
	}
	l, h, m := 0, len(cells), cap(cells)
	if isArr {
		m = len(cells)
	}
	if lo != nil {
		l = int(in.concInt(lo))
	}
	if hi != nil {
		h = int(in.concInt(hi))
	}
	if max != nil {
		m2 := int(in.concInt(max))
		if m2 < 0 || m2 > m {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m2, m))
		}
		m = m2
	}
	if l < 0 || h < l || h > m {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, m))
	}
	if cells == nil {
		return sliceV{}
	}
	return sliceV{cells[l:h:m]}
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case sliceV:
			return int64(len(x.a))
		case *mapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case arrayV:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayV)))
		case string, *SStr, *TStr, *LStr:
			return in.simpVal(in.strLen(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return int64(cap(x.a))
		case arrayV:
			return int64(len(x))
		}
	case "append":
		s := args[0].(sliceV)
		if len(args) == 1 {
			return s
		}
		var add []value
		switch y := args[1].(type) {
		case sliceV:
			add = y.a
		default:
			add = in.strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		if len(s.a)+len(add) <= cap(s.a) {
			// writes into the shared backing array
			r := s.a[:len(s.a)+len(add)]
			for i, v := range add {
				in.storeTo(&r[len(s.a)+i], copyVal(v))
			}
			return sliceV{r}
		}
		nc := cap(s.a) * 2
		if nc < len(s.a)+len(add) {
			nc = len(s.a) + len(add)
		}
		if nc < 4 {
			nc = 4
		}
		if nc > 1<<22 {
			in.pathEnd("memory")
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		_ = et
		r := make([]value, len(s.a)+len(add), nc)
		for i, v := range s.a {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(s.a)+i] = copyVal(v)
		}
		full := r[:cap(r)]
		for i := len(r); i < len(full); i++ {
			full[i] = zero(et)
		}
		return sliceV{r}
	case "copy":
		d := args[0].(sliceV)
		var src []value
		switch y := args[1].(type) {
		case sliceV:
			src = append([]value{}, y.a...)
		default:
			src = in.strBytes(y)
		}
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			in.storeTo(&d.a[i], copyVal(src[i]))
		}
		return int64(n)
	case "delete":
		in.mapDelete(args[0].(*mapV), args[1])
		return nil
	case "recover":
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV.v
			if v == nil {
				return iface{}
			}
			return v
		}
		return iface{}
	case "panic":
		panic(targetPanic{v: args[0], where: fr.fi.fn.String()})
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			cond := in.binop(op, t, t, a, r)
			switch cc := cond.(type) {
			case bool:
				if cc {
					r = a
				}
			case *Term:
				m, ok := in.mergeVals(cc, a, r, t)
				if !ok {
					unsup("min/max")
				}
				r = m
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.nilDeref()
		}
		return args[0]
	case "clear":
		if m, ok := args[0].(*mapV); ok {
			for _, e := range append([]mapEntry{}, m.ents...) {
				if !e.del {
					in.mapDelete(m, e.k)
				}
			}
			return nil
		}
	case "String", "StringData", "Slice", "SliceData", "Add":
		return in.unsafeBuiltin(b.Name(), args)
	}
	unsup("builtin %s on %v", b.Name(), fmt.Sprintf("%T", args[0]))
	return nil
}

// unsafeBuiltin supports the string/slice punning used by the standard library.
func (in *Interp) unsafeBuiltin(name string, args []value) value {
	switch name {
	case "SliceData":
		s := args[0].(sliceV)
		p := new(value)
		*p = s
		return p
	case "String":
		if p, ok := args[0].(*value); ok {
			if p == nil {
				return ""
			}
			if s, ok := (*p).(sliceV); ok {
				n := in.concInt(args[1])
				return in.bytesToStr(s.a[:n])
			}
		}
	case "StringData":
		p := new(value)
		*p = sliceV{in.strBytes(args[0])}
		return p
	case "Slice":
		if p, ok := args[0].(*value); ok && p != nil {
			if s, ok := (*p).(sliceV); ok {
				n := in.concInt(args[1])
				return sliceV{s.a[:n]}
			}
		}
	}
	unsup("unsafe.%s", name)
	return nil
}

var _ = math.Inf
