package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/bits"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

func vreg(name string, f func(in *Interp, fr *frame, a []value) value) {
	intrinsics[vsymPath+"."+name] = f
}
func vregPure(name string, f func(in *Interp, fr *frame, a []value) value) {
	vreg(name, f)
	pureIntr[vsymPath+"."+name] = true
}

func (in *Interp) uniqName(name string) string {
	in.varCount[name]++
	if n := in.varCount[name]; n > 1 {
		return fmt.Sprintf("%s~%d", name, n)
	}
	return name
}

// newVar declares a harness variable of the path.
func (in *Interp) newVar(name string, w uint8) *Term {
	name = in.uniqName(name)
	// variables of one name may have different widths on different paths
	v := in.tt.Var(fmt.Sprintf("%s:%d", name, w), w)
	if !in.varSet[v] {
		in.varSet[v] = true
		in.vars = append(in.vars, v)
	}
	return v
}

// assume adds a condition; ends the path when infeasible.
func (in *Interp) assume(v value) {
	switch c := v.(type) {
	case bool:
		if !c {
			in.pathEnd("assume")
		}
	case *Term:
		c = in.simp(c)
		if c.isConst() {
			if c.c == 0 {
				in.pathEnd("assume")
			}
			return
		}
		if in.pos >= len(in.prefix) || true {
			if in.satisfiable(c) == unsat {
				in.pathEnd("assume")
			}
		}
		in.addPC(c)
	}
}

func (in *Interp) assertion(v value, msg string) {
	st := in.eng.stats
	switch c := v.(type) {
	case bool:
		if c {
			addStat(&st.AssertConc)
			return
		}
		in.candidate("assert", msg, "")
		in.pathEnd("assertion failed")
	case *Term:
		c = in.simp(c)
		if c.isConst() {
			in.assertion(c.c == 1, msg)
			return
		}
		addStat(&st.AssertQ)
		nc := in.tt.Not(c)
		switch in.satisfiable(nc) {
		case unsat:
			addStat(&st.AssertUns)
			in.addPC(c)
			return
		case unknown:
			in.eng.note("assertion undecided by the solver: " + msg)
			return
		}
		in.candidate("assert", msg, "", nc)
		if in.satisfiable(c) == unsat {
			in.pathEnd("assertion failed")
		}
		in.addPC(c)
	default:
		unsup("assert %T", v)
	}
}

func registerVsym() {
	vreg("Int", func(in *Interp, fr *frame, a []value) value {
		name := in.concStr(a[0])
		lo, hi := in.concInt(a[1]), in.concInt(a[2])
		n := hi - lo
		if n < 0 {
			in.pathEnd("assume")
		}
		if n == 0 {
			in.uniqName(name)
			return lo
		}
		w := uint8(bits.Len64(uint64(n)))
		v := in.newVar(name, w)
		if uint64(n) != mask(w) {
			in.assume(in.termVal(in.tt.Bin(OpUle, v, in.tt.Const(w, uint64(n)))))
		}
		t := in.tt.Zext(v, 64)
		if lo != 0 {
			t = in.tt.Bin(OpAdd, t, in.tt.Const(64, uint64(lo)))
		}
		return in.simpVal(t)
	})
	vreg("Pick", func(in *Interp, fr *frame, a []value) value {
		n := in.concInt(a[1])
		v := intrinsics[vsymPath+".Int"](in, fr, []value{a[0], int64(0), n - 1})
		return in.concInt(v)
	})
	vreg("Conc", func(in *Interp, fr *frame, a []value) value { return in.concInt(a[0]) })
	vreg("Rune", func(in *Interp, fr *frame, a []value) value {
		v := in.newVar(in.concStr(a[0]), 32)
		in.scalarVar[v] = true
		c := func(k uint64) *Term { return in.tt.Const(32, k) }
		in.addPC(in.tt.Or(in.tt.Bin(OpUlt, v, c(0xd800)), in.tt.And(in.tt.Bin(OpUlt, c(0xdfff), v), in.tt.Bin(OpUle, v, c(0x10ffff)))))
		return v
	})
	vreg("Byte", func(in *Interp, fr *frame, a []value) value { return in.newVar(in.concStr(a[0]), 8) })
	vreg("Bool", func(in *Interp, fr *frame, a []value) value { return in.newVar(in.concStr(a[0]), 0) })
	vreg("Assume", func(in *Interp, fr *frame, a []value) value { in.assume(a[0]); return nil })
	vreg("Assert", func(in *Interp, fr *frame, a []value) value {
		in.assertion(a[0], in.concStr(a[1]))
		return nil
	})
	vreg("Fail", func(in *Interp, fr *frame, a []value) value {
		in.assertion(false, in.concStr(a[0]))
		return nil
	})
	vreg("Reach", func(in *Interp, fr *frame, a []value) value { in.reached[in.concStr(a[0])] = true; return nil })
	vreg("Param", func(in *Interp, fr *frame, a []value) value {
		n := in.concStr(a[0])
		v, ok := in.eng.params[n]
		if !ok {
			fatal("harness %s: no parameter %s", in.eng.harness, n)
		}
		return int64(v)
	})
	vregPure("Select", func(in *Interp, fr *frame, a []value) value {
		cells := a[1].(sliceV).a
		if t, ok := a[0].(*Term); ok {
			t = in.simp(t)
			if !t.isConst() {
				tab := make([]string, len(cells))
				for i, c := range cells {
					s, ok := c.(string)
					if !ok {
						unsup("Select from symbolic strings")
					}
					tab[i] = s
				}
				if t.op == OpZext {
					t = t.a[0]
				}
				return &TStr{t, tab}
			}
			return cells[t.c]
		}
		return cells[a[0].(int64)]
	})
	vregPure("SelectInt", func(in *Interp, fr *frame, a []value) value {
		cells := a[1].(sliceV).a
		if t, ok := a[0].(*Term); ok {
			t = in.simp(t)
			if !t.isConst() {
				r, ok := in.selectVal(t, cells, types.Typ[types.Int])
				if !ok {
					unsup("SelectInt")
				}
				if rt, ok := r.(*Term); ok && rt.op == OpIte {
					idx := t
					if idx.op == OpZext {
						idx = idx.a[0]
					}
					ref := tabRef{idx: idx}
					for _, c := range cells {
						n, ok := c.(int64)
						if !ok {
							unsup("SelectInt from symbolic integers")
						}
						ref.tab = append(ref.tab, uint64(n))
					}
					in.tt.isTab(rt, ref.idx, ref.tab)
				}
				return r
			}
			return cells[t.c]
		}
		return cells[a[0].(int64)]
	})
	bin := func(name string, f func(in *Interp, a, b *Term) *Term) {
		vregPure(name, func(in *Interp, fr *frame, a []value) value {
			return in.termVal(in.simp(f(in, in.simp(in.toTerm(a[0], 0)), in.simp(in.toTerm(a[1], 0)))))
		})
	}
	bin("And", func(in *Interp, a, b *Term) *Term { return in.tt.And(a, b) })
	bin("Or", func(in *Interp, a, b *Term) *Term { return in.tt.Or(a, b) })
	bin("Implies", func(in *Interp, a, b *Term) *Term { return in.tt.Or(in.tt.Not(a), b) })
	bin("Iff", func(in *Interp, a, b *Term) *Term { return in.tt.Eq(a, b) })
	vregPure("Not", func(in *Interp, fr *frame, a []value) value { return in.notV(a[0]) })
	vregPure("IteInt", func(in *Interp, fr *frame, a []value) value {
		switch c := a[0].(type) {
		case bool:
			if c {
				return a[1]
			}
			return a[2]
		case *Term:
			return in.termVal(in.tt.Ite(in.simp(c), in.toTerm(a[1], 64), in.toTerm(a[2], 64)))
		}
		return nil
	})
	vreg("EqStr", func(in *Interp, fr *frame, a []value) value {
		return in.eqStr(in.canonStr(a[0]), in.canonStr(a[1]))
	})
	vreg("SameNumber", func(in *Interp, fr *frame, a []value) value {
		x, y := a[0], a[1]
		if s, ok := x.(*symFloat); ok {
			if t, ok := y.(*symFloat); ok && s.kind == t.kind && !strings.HasPrefix(s.kind, "int:") {
				if e, ok := in.eqStr(in.canonStr(s.s), in.canonStr(t.s)).(bool); ok && e {
					return true
				}
			}
		}
		if eq, ok := in.sameInts(x, y); ok {
			return eq
		}
		f, g := in.concF(x).(float64), in.concF(y).(float64)
		return f == g || (f != f && g != g)
	})
	vreg("NoSpans", func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		return in.noSpans(i.t, i.v, 0)
	})
	vreg("SameButSpans", func(in *Interp, fr *frame, a []value) value {
		return in.sameValue(tIface, a[0], a[1], true, 0)
	})
	for _, n := range []string{"Note", "Noteq"} {
		vreg(n, func(in *Interp, fr *frame, a []value) value { return nil })
	}
	vreg("Debug", func(in *Interp, fr *frame, a []value) value {
		if os.Getenv("VENGINE_DEBUG") != "" {
			fmt.Printf("DEBUG %v\n", a)
			for _, x := range a {
				if sl, ok := x.(sliceV); ok {
					for _, y := range sl.a {
						fmt.Printf("  %T %+v\n", y, y)
						if i, ok := y.(iface); ok {
							if s, ok := i.v.(*TStr); ok {
								fmt.Printf("    %s %q\n", s.idx, s.tab)
							}
							fmt.Printf("    %v\n", i.v)
						}
					}
				}
			}
			for _, c := range in.pc {
				fmt.Println("  pc", c)
			}
		}
		return nil
	})
	vreg("TokenLexer", func(in *Interp, fr *frame, a []value) value {
		p, ok := a[0].(iface).v.(*value)
		if !ok {
			unsup("TokenLexer %T", a[0].(iface).v)
		}
		in.tokLex[p] = a[1]
		return nil
	})
	vreg("Native", func(in *Interp, fr *frame, a []value) value { return false })
	vreg("Tree", func(in *Interp, fr *frame, a []value) value {
		j := &jsonEnc{in: in, fr: fr}
		t, ok := j.tree(a[0].(iface))
		if !ok {
			return tup(nilIface, false)
		}
		return tup(t, true)
	})
}

// sameInts compares floats converted from integers that they hold exactly.
func (in *Interp) sameInts(x, y value) (value, bool) {
	term := func(v value) *Term {
		switch f := v.(type) {
		case float64:
			if f >= 0 && f <= 1<<53 && f == float64(uint64(f)) {
				return in.tt.Const(64, uint64(f))
			}
		case *symFloat:
			if strings.HasPrefix(f.kind, "int:") {
				if t, ok := f.s.(*Term); ok {
					if t.w < 64 {
						return nil
					}
					return in.simp(t)
				}
			}
		}
		return nil
	}
	a, b := term(x), term(y)
	if a == nil || b == nil {
		return nil, false
	}
	lim := in.tt.Const(64, 1<<53)
	small := in.tt.And(in.tt.Bin(OpUle, a, lim), in.tt.Bin(OpUle, b, lim))
	if !small.isTrue() && in.satisfiable(in.tt.Not(small)) != unsat {
		return nil, false
	}
	return in.termVal(in.simp(in.tt.Eq(a, b))), true
}

// ---- JSON model (encoding/json over interpreted values) ----

type jsonEnc struct {
	in    *Interp
	fr    *frame
	depth int
}

var (
	tString  = types.Typ[types.String]
	tFloat64 = types.Typ[types.Float64]
	tBool    = types.Typ[types.Bool]
	tIface   = types.NewInterfaceType(nil, nil).Complete()
	tMapSI   = types.NewMap(tString, tIface)
	tSliceI  = types.NewSlice(tIface)
)

// tree returns an interface{} value of generic JSON shape.
func (j *jsonEnc) tree(v iface) (iface, bool) {
	if v.t == nil {
		return iface{}, true
	}
	return j.val(v.t, v.v)
}

func (j *jsonEnc) marshaler(t types.Type, v value) (iface, bool, bool) {
	in := j.in
	if t == hostErrType {
		return iface{}, false, false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return iface{}, false, false
	}
	if fn := in.eng.methodByName(t, "MarshalJSON"); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 2 {
		if p, ok := v.(*value); ok && p == nil {
			return iface{}, true, true
		}
		r := in.call(j.fr, fn, []value{copyVal(v)}, nil).(tupleV)
		if r[1].(iface).t != nil {
			return iface{}, false, true
		}
		text := in.concStr(in.bytesToStr(r[0].(sliceV).a))
		var x interface{}
		if json.Unmarshal([]byte(text), &x) != nil {
			return iface{}, false, true
		}
		return j.fromHost(x), true, true
	}
	if fn := in.eng.methodByName(t, "MarshalText"); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 2 {
		r := in.call(j.fr, fn, []value{copyVal(v)}, nil).(tupleV)
		if r[1].(iface).t != nil {
			return iface{}, false, true
		}
		return iface{tString, in.bytesToStr(r[0].(sliceV).a)}, true, true
	}
	return iface{}, false, false
}

func (j *jsonEnc) fromHost(x interface{}) iface {
	switch y := x.(type) {
	case nil:
		return iface{}
	case bool:
		return iface{tBool, y}
	case float64:
		return iface{tFloat64, y}
	case string:
		return iface{tString, y}
	case []interface{}:
		a := []value{}
		for _, e := range y {
			a = append(a, j.fromHost(e))
		}
		return iface{tSliceI, sliceV{a}}
	case map[string]interface{}:
		m := newMap(tMapSI)
		var ks []string
		for k := range y {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			j.in.mapSet(m, k, j.fromHost(y[k]))
		}
		return iface{tMapSI, m}
	}
	panic("fromHost")
}

func (j *jsonEnc) val(t types.Type, v value) (iface, bool) {
	in := j.in
	j.depth++
	defer func() { j.depth-- }()
	if j.depth > 20000 {
		return iface{}, false
	}
	if r, ok, has := j.marshaler(t, v); has {
		return r, ok
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return iface{tString, in.jsonString(v)}, true
		case u.Info()&types.IsBoolean != 0:
			return iface{tBool, v}, true
		case u.Info()&types.IsInteger != 0:
			return iface{tFloat64, float64(in.concInt(v))}, true
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				if f != f || f > 1.7976931348623157e308 || f < -1.7976931348623157e308 {
					return iface{}, false
				}
			}
			return iface{tFloat64, v}, true
		}
		return iface{}, false
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return iface{}, true
		}
		return j.val(i.t, i.v)
	case *types.Pointer:
		p := v.(*value)
		if p == nil {
			return iface{}, true
		}
		return j.val(u.Elem(), *p)
	case *types.Slice:
		s := v.(sliceV)
		if s.a == nil {
			return iface{}, true
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			unsup("JSON of []byte")
		}
		return j.list(u.Elem(), s.a)
	case *types.Array:
		return j.list(u.Elem(), v.(arrayV))
	case *types.Map:
		m := v.(*mapV)
		if m == nil {
			return iface{}, true
		}
		out := newMap(tMapSI)
		if !isString(u.Key()) {
			unsup("JSON map key %s", u.Key())
		}
		for _, e := range m.ents {
			if e.del {
				continue
			}
			r, ok := j.val(u.Elem(), e.v)
			if !ok {
				return iface{}, false
			}
			in.mapSet(out, e.k, r)
		}
		return iface{tMapSI, out}, true
	case *types.Struct:
		out := newMap(tMapSI)
		if !j.fields(u, v.(structV), out, map[string]int{}, 0) {
			return iface{}, false
		}
		return iface{tMapSI, out}, true
	}
	return iface{}, false // functions, channels, complex: unsupported by JSON
}

func (j *jsonEnc) list(et types.Type, cells []value) (iface, bool) {
	a := make([]value, 0, len(cells))
	for _, c := range cells {
		r, ok := j.val(et, c)
		if !ok {
			return iface{}, false
		}
		a = append(a, r)
	}
	return iface{tSliceI, sliceV{a}}, true
}

func (j *jsonEnc) fields(u *types.Struct, s structV, out *mapV, depthOf map[string]int, depth int) bool {
	in := j.in
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		opts := map[string]bool{}
		for _, o := range parts[1:] {
			opts[o] = true
		}
		if f.Embedded() && name == "" {
			ft := f.Type()
			fv := s[i]
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				pv := fv.(*value)
				if pv == nil {
					continue
				}
				ft, fv = p.Elem(), *pv
			}
			if st, ok := ft.Underlying().(*types.Struct); ok {
				if !j.fields(st, fv.(structV), out, depthOf, depth+1) {
					return false
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		if opts["omitempty"] && j.empty(f.Type(), s[i]) {
			continue
		}
		if d, ok := depthOf[name]; ok && d <= depth {
			continue
		}
		r, ok := j.val(f.Type(), s[i])
		if !ok {
			return false
		}
		if opts["string"] {
			unsup("JSON string option")
		}
		depthOf[name] = depth
		in.mapSet(out, name, r)
	}
	return true
}

func (j *jsonEnc) empty(t types.Type, v value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case sliceV:
		return len(x.a) == 0
	case *mapV:
		return x == nil || x.n == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	case *Term:
		if x.w == 0 {
			return !j.in.decide(x)
		}
		return j.in.decide(j.in.tt.Eq(x, j.in.tt.Const(x.w, 0)))
	case *SStr, *TStr, *LStr:
		return j.in.concInt(j.in.strLen(x)) == 0
	}
	return false
}

// jsonString: invalid UTF-8 becomes U+FFFD.
func (in *Interp) jsonString(v value) value {
	v = in.canonStr(v)
	if s, ok := v.(string); ok {
		return strings.ToValidUTF8(s, "\ufffd")
	}
	if s, ok := v.(*SStr); ok {
		out := make([]sElem, len(s.e))
		for i, e := range s.e {
			if e.bad {
				e = sElem{int64(0xfffd), false}
			}
			out[i] = e
		}
		return mkStr(out)
	}
	return v
}

// text renders a generic tree as the bytes encoding/json writes for the
// original value, used where only the document as a whole matters.
func (in *Interp) treeText(v iface, indent, cur string) string {
	if v.t == nil {
		return "null"
	}
	switch x := v.v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case float64:
		b, _ := json.Marshal(x)
		return string(b)
	case *symFloat:
		b, _ := json.Marshal(in.concFloat(x))
		return string(b)
	case sliceV:
		if len(x.a) == 0 {
			return "[]"
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range x.a {
			if i > 0 {
				sb.WriteString(",")
			}
			if indent != "" {
				sb.WriteString("\n" + cur + indent)
			}
			sb.WriteString(in.treeText(e.(iface), indent, cur+indent))
		}
		if indent != "" {
			sb.WriteString("\n" + cur)
		}
		sb.WriteString("]")
		return sb.String()
	case *mapV:
		if x.n == 0 {
			return "{}"
		}
		var sb strings.Builder
		sb.WriteString("{")
		for i, e := range x.ents {
			if i > 0 {
				sb.WriteString(",")
			}
			if indent != "" {
				sb.WriteString("\n" + cur + indent)
			}
			sb.WriteString(strconv.Quote(e.k.(string)) + ":")
			if indent != "" {
				sb.WriteString(" ")
			}
			sb.WriteString(in.treeText(e.v.(iface), indent, cur+indent))
		}
		if indent != "" {
			sb.WriteString("\n" + cur)
		}
		sb.WriteString("}")
		return sb.String()
	case *Term:
		return strconv.FormatBool(in.decide(x))
	}
	if isString(v.t) {
		var sb strings.Builder
		e := json.NewEncoder(&sb)
		e.SetEscapeHTML(false)
		e.Encode(in.concStr(v.v))
		return strings.TrimSuffix(sb.String(), "\n")
	}
	unsup("JSON text of %T", v.v)
	return ""
}
