package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/types/typeutil"
)

// A model of the part of package reflect that walks and changes values.

// rVal is a reflect.Value: a cell (addressable) or a plain value.
type rVal struct {
	t    types.Type
	cell *value
	v    value
	ro   bool // reached through an unexported field
}

func (r *rVal) get() value {
	if r.cell != nil {
		return *r.cell
	}
	return r.v
}

// rType is the dynamic value of a reflect.Type.
type rType struct{ t types.Type }

var rtypeType = types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.Typ[types.Int], nil)

func (in *Interp) rtypeOf(t types.Type) iface {
	if in.rtypes == nil {
		in.rtypes = &typeutil.Map{}
	}
	r, ok := in.rtypes.At(t).(*rType)
	if !ok {
		r = &rType{t}
		in.rtypes.Set(t, r)
	}
	return iface{rtypeType, r}
}

// kinds of package reflect
const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return kBool
		case types.Int:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64:
			return kFloat64
		case types.String:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	unsup("reflect kind of %s", t)
	return 0
}

func rv(v value) *rVal {
	if r, ok := v.(*rVal); ok {
		return r
	}
	return nil // the zero Value
}

func (in *Interp) rnil(r *rVal) bool {
	switch x := r.get().(type) {
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	case sliceV:
		return x.a == nil
	case *mapV:
		return x == nil
	case nil:
		return true
	case *closure:
		return x == nil
	}
	switch kindOf(r.t) {
	case kFunc, kChan, kUnsafePointer, kPointer:
		return false
	}
	in.rtPanic("reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value")
	return false
}

func (in *Interp) relem(r *rVal) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*value)
		if !ok {
			unsup("reflect Elem of %T", r.get())
		}
		if p == nil {
			return zeroRVal()
		}
		return &rVal{t: u.Elem(), cell: p, ro: r.ro}
	case *types.Interface:
		i := r.get().(iface)
		if i.t == nil {
			return zeroRVal()
		}
		return &rVal{t: i.t, v: i.v, ro: r.ro}
	}
	in.rtPanic("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
	return nil
}

func zeroRVal() value { return structV{nil, nil, int64(0)} }

// riface is the content of a Value as an interface value.
func riface(r *rVal) iface {
	v := copyVal(r.get())
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{r.t, v}
}

func (in *Interp) rfield(r *rVal, i int) value {
	st := r.t.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		in.rtPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	n := &rVal{t: f.Type(), ro: r.ro || !f.Exported()}
	if f.Embedded() && !f.Exported() {
		n.ro = true
	}
	s := r.get().(structV)
	if r.cell != nil {
		n.cell = &s[i]
	} else {
		n.v = s[i]
	}
	return n
}

func (in *Interp) rcells(r *rVal) ([]value, types.Type, bool) {
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		return r.get().(sliceV).a, u.Elem(), true
	case *types.Array:
		return r.get().(arrayV), u.Elem(), r.cell != nil
	}
	unsup("reflect elements of %s", r.t)
	return nil, nil, false
}

func registerReflect() {
	m := func(name string, f func(in *Interp, r *rVal, a []value) value) {
		reg("(reflect.Value)."+name, func(in *Interp, fr *frame, a []value) value {
			r := rv(a[0])
			if r == nil {
				switch name {
				case "Kind":
					return int64(kInvalid)
				case "IsValid", "CanSet", "CanAddr":
					return false
				}
				in.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(in, r, a[1:])
		})
	}
	reg("reflect.ValueOf", func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return zeroRVal()
		}
		return &rVal{t: i.t, v: copyVal(i.v)}
	})
	reg("reflect.TypeOf", func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return nilIface
		}
		return in.rtypeOf(i.t)
	})
	reg("reflect.New", func(in *Interp, fr *frame, a []value) value {
		t := a[0].(iface).v.(*rType).t
		p := new(value)
		*p = zero(t)
		return &rVal{t: types.NewPointer(t), v: p}
	})
	reg("reflect.Zero", func(in *Interp, fr *frame, a []value) value {
		t := a[0].(iface).v.(*rType).t
		return &rVal{t: t, v: zero(t)}
	})
	reg("reflect.Indirect", func(in *Interp, fr *frame, a []value) value {
		r := rv(a[0])
		if r == nil || kindOf(r.t) != kPointer {
			return a[0]
		}
		return in.relem(r)
	})
	m("Kind", func(in *Interp, r *rVal, a []value) value { return kindOf(r.t) })
	m("Type", func(in *Interp, r *rVal, a []value) value { return in.rtypeOf(r.t) })
	m("IsValid", func(in *Interp, r *rVal, a []value) value { return true })
	m("IsNil", func(in *Interp, r *rVal, a []value) value { return in.rnil(r) })
	m("Elem", func(in *Interp, r *rVal, a []value) value { return in.relem(r) })
	m("CanSet", func(in *Interp, r *rVal, a []value) value { return r.cell != nil && !r.ro })
	m("CanAddr", func(in *Interp, r *rVal, a []value) value { return r.cell != nil })
	m("CanInterface", func(in *Interp, r *rVal, a []value) value { return !r.ro })
	m("Addr", func(in *Interp, r *rVal, a []value) value {
		if r.cell == nil {
			in.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return &rVal{t: types.NewPointer(r.t), v: r.cell, ro: r.ro}
	})
	m("Interface", func(in *Interp, r *rVal, a []value) value {
		if r.ro {
			in.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return riface(r)
	})
	m("Set", func(in *Interp, r *rVal, a []value) value {
		if r.cell == nil || r.ro {
			in.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := rv(a[0])
		if x == nil || x.ro {
			in.rtPanic("reflect: call of reflect.Value.Set with a bad value")
		}
		if kindOf(r.t) == kInterface {
			in.storeTo(r.cell, riface(x))
			return nil
		}
		if !types.Identical(r.t, x.t) {
			in.rtPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
		}
		in.storeTo(r.cell, copyVal(x.get()))
		return nil
	})
	m("SetZero", func(in *Interp, r *rVal, a []value) value {
		if r.cell == nil || r.ro {
			in.rtPanic("reflect: reflect.Value.SetZero using unaddressable value")
		}
		in.storeTo(r.cell, zero(r.t))
		return nil
	})
	m("Len", func(in *Interp, r *rVal, a []value) value {
		switch x := r.get().(type) {
		case *mapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		}
		if isString(r.t) {
			return in.simpVal(in.strLen(r.get()))
		}
		c, _, _ := in.rcells(r)
		return int64(len(c))
	})
	m("Index", func(in *Interp, r *rVal, a []value) value {
		c, et, addr := in.rcells(r)
		i := in.concInt(a[0])
		if i < 0 || i >= int64(len(c)) {
			in.rtPanic("reflect: index out of range")
		}
		n := &rVal{t: et, ro: r.ro}
		if addr {
			n.cell = &c[i]
		} else {
			n.v = c[i]
		}
		return n
	})
	m("NumField", func(in *Interp, r *rVal, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.rtPanic("reflect: call of reflect.Value.NumField on " + r.t.String() + " Value")
		}
		return int64(st.NumFields())
	})
	m("Field", func(in *Interp, r *rVal, a []value) value { return in.rfield(r, int(in.concInt(a[0]))) })
	m("FieldByName", func(in *Interp, r *rVal, a []value) value {
		st := r.t.Underlying().(*types.Struct)
		name := in.concStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return in.rfield(r, i)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				unsup("reflect FieldByName through embedded fields")
			}
		}
		return zeroRVal()
	})
	m("MapKeys", func(in *Interp, r *rVal, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		out := []value{}
		if x := r.get().(*mapV); x != nil {
			for _, e := range x.ents {
				if !e.del {
					out = append(out, &rVal{t: mt.Key(), v: e.k, ro: r.ro})
				}
			}
		}
		return sliceV{out}
	})
	m("MapIndex", func(in *Interp, r *rVal, a []value) value {
		mt := r.t.Underlying().(*types.Map)
		mv := r.get().(*mapV)
		k, ok := in.mapFind(mv, rv(a[0]).get())
		if !ok {
			return zeroRVal()
		}
		return &rVal{t: mt.Elem(), v: mv.ents[k].v, ro: r.ro}
	})
	m("String", func(in *Interp, r *rVal, a []value) value {
		if !isString(r.t) {
			return "<" + r.t.String() + " Value>"
		}
		return r.get()
	})
	m("Int", func(in *Interp, r *rVal, a []value) value { return r.get() })
	m("Bool", func(in *Interp, r *rVal, a []value) value { return r.get() })
}

// rtypeMethod is a call of a method of a reflect.Type.
func rtypeMethod(in *Interp, t types.Type, name string, args []value) value {
	switch name {
	case "Kind":
		return kindOf(t)
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "NumField":
		return int64(t.Underlying().(*types.Struct).NumFields())
	case "NumMethod":
		return int64(types.NewMethodSet(t).Len())
	case "Elem":
		if u, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return in.rtypeOf(u.Elem())
		}
	case "String":
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	case "AssignableTo":
		return types.AssignableTo(t, args[0].(iface).v.(*rType).t)
	case "Implements":
		return types.Implements(t, args[0].(iface).v.(*rType).t.Underlying().(*types.Interface))
	}
	unsup("method %s of reflect.Type", name)
	return nil
}

func isSpan(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Span"
}

// noSpans is whether every Span in a value is zero.
func (in *Interp) noSpans(t types.Type, v value, depth int) value {
	if depth > 400 {
		return false
	}
	and := func(a, b value) value { return in.andV(a, b) }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return true
		}
		return in.noSpans(i.t, i.v, depth+1)
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			return true
		}
		return in.noSpans(u.Elem(), *p, depth+1)
	case *types.Slice, *types.Array:
		r := &rVal{t: t, v: v}
		c, et, _ := in.rcells(r)
		var res value = true
		for _, x := range c {
			res = and(res, in.noSpans(et, x, depth+1))
		}
		return res
	case *types.Struct:
		if isSpan(t) {
			return in.sameValue(t, v, zero(t), false, depth)
		}
		var res value = true
		for i, x := range v.(structV) {
			res = and(res, in.noSpans(u.Field(i).Type(), x, depth+1))
		}
		return res
	}
	return true
}

// sameValue compares deeply, optionally ignoring spans.
func (in *Interp) sameValue(t types.Type, a, b value, skip bool, depth int) value {
	if depth > 400 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return in.sameValue(x.t, x.v, y.v, skip, depth+1)
	case *types.Pointer:
		p, _ := a.(*value)
		q, _ := b.(*value)
		if p == nil || q == nil {
			return p == nil && q == nil
		}
		return in.sameValue(u.Elem(), *p, *q, skip, depth+1)
	case *types.Slice:
		x, y := a.(sliceV), b.(sliceV)
		if len(x.a) != len(y.a) || (x.a == nil) != (y.a == nil) {
			return false
		}
		var res value = true
		for i := range x.a {
			res = in.andV(res, in.sameValue(u.Elem(), x.a[i], y.a[i], skip, depth+1))
		}
		return res
	case *types.Array:
		x, y := a.(arrayV), b.(arrayV)
		var res value = true
		for i := range x {
			res = in.andV(res, in.sameValue(u.Elem(), x[i], y[i], skip, depth+1))
		}
		return res
	case *types.Struct:
		if skip && isSpan(t) {
			return true
		}
		x, y := a.(structV), b.(structV)
		var res value = true
		for i := range x {
			res = in.andV(res, in.sameValue(u.Field(i).Type(), x[i], y[i], skip, depth+1))
		}
		return res
	case *types.Basic:
		if isString(t) {
			return in.eqStr(in.canonStr(a), in.canonStr(b))
		}
		if isFloat(t) {
			return intrinsics[vsymPath+".SameNumber"](in, nil, []value{a, b})
		}
		return in.binop(token.EQL, t, t, a, b)
	}
	unsup("comparison of %s", t)
	return nil
}

func (in *Interp) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return in.tt.And(a.(*Term), b.(*Term))
}
