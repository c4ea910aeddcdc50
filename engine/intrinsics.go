package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var hostErrPtrType types.Type = types.NewPointer(hostErrType)

func hostErrMethod(in *Interp, i iface, name string, args []value) value {
	switch name {
	case "Error":
		return i.v
	case "RuntimeError":
		return nil
	}
	unsup("method %s of a runtime error", name)
	return nil
}

var intrinsics map[string]intrinsic
var pureIntr = map[string]bool{}

func lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	n := fn.String()
	if i, ok := intrinsics[n]; ok {
		return i, true
	}
	if o := fn.Origin(); o != nil {
		if i, ok := intrinsics[o.String()]; ok {
			return i, true
		}
	}
	return nil, false
}

func pureIntrinsic(fn *ssa.Function) bool { return pureIntr[fn.String()] }

func reg(name string, f func(in *Interp, fr *frame, a []value) value) { intrinsics[name] = f }
func regPure(name string, f func(in *Interp, fr *frame, a []value) value) {
	intrinsics[name] = f
	pureIntr[name] = true
}

// concrete reports whether all string arguments are host strings.
func hostStr(v value) (string, bool) { s, ok := v.(string); return s, ok }

func (in *Interp) canonStr(v value) value {
	switch s := v.(type) {
	case *LStr:
		return in.canonStr(in.force(s))
	case *SStr:
		return in.simpSStr(s)
	case *TStr:
		t := in.simp(s.idx)
		if t.isConst() {
			return s.tab[t.c]
		}
	}
	return v
}

// runeSetOf reads a *unicode.RangeTable from interpreted memory.
func (in *Interp) tableRanges(v value) [][2]uint32 {
	p, _ := v.(*value)
	if p == nil {
		in.nilDeref()
	}
	st := (*p).(structV)
	var r [][2]uint32
	for _, f := range st[:2] {
		sl, ok := f.(sliceV)
		if !ok {
			continue
		}
		for _, x := range sl.a {
			e := x.(structV)
			lo, hi, stride := uint32(e[0].(int64)), uint32(e[1].(int64)), uint32(e[2].(int64))
			if stride <= 1 {
				r = append(r, [2]uint32{lo, hi})
				continue
			}
			for c := lo; c <= hi; c += stride {
				r = append(r, [2]uint32{c, c})
			}
		}
	}
	return r
}

func normRanges(r [][2]uint32) [][2]uint32 {
	sort.Slice(r, func(i, j int) bool { return r[i][0] < r[j][0] })
	var out [][2]uint32
	for _, x := range r {
		if n := len(out); n > 0 && uint64(x[0]) <= uint64(out[n-1][1])+1 {
			if x[1] > out[n-1][1] {
				out[n-1][1] = x[1]
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func nameSet(r [][2]uint32) *RuneSet {
	h := uint64(len(r))
	for _, x := range r {
		h = mix(h, uint64(x[0])<<32|uint64(x[1]))
	}
	return &RuneSet{name: fmt.Sprintf("set_%016x", h), r: r}
}

// unionSet is the set of several tables.
func (in *Interp) unionSet(tabs []value) *RuneSet {
	var sb strings.Builder
	for _, t := range tabs {
		fmt.Fprintf(&sb, "%p,", t.(*value))
	}
	k := "u:" + sb.String()
	if s, ok := in.sets[k]; ok {
		return s
	}
	var r [][2]uint32
	for _, t := range tabs {
		r = append(r, in.tableRanges(t)...)
	}
	s := nameSet(normRanges(r))
	in.sets[k] = s
	return s
}

// predSet tabulates a host predicate over all code points.
func (in *Interp) predSet(name string, f func(rune) bool) *RuneSet {
	k := "p:" + name
	if s, ok := in.sets[k]; ok {
		return s
	}
	var r [][2]uint32
	for c := rune(0); c <= 0x10ffff; c++ {
		if f(c) {
			if n := len(r); n > 0 && r[n-1][1] == uint32(c)-1 {
				r[n-1][1] = uint32(c)
			} else {
				r = append(r, [2]uint32{uint32(c), uint32(c)})
			}
		}
	}
	s := nameSet(r)
	in.sets[k] = s
	return s
}

func (in *Interp) inSet(v value, s *RuneSet) value {
	switch r := v.(type) {
	case int64:
		return r >= 0 && s.has(uint32(r))
	case *Term:
		return in.termVal(in.tt.InSet(in.simp(r), s))
	}
	unsup("rune set membership of %T", v)
	return nil
}

func (in *Interp) newError(msg value, wrapped iface) value {
	if wrapped.t != nil {
		t := in.eng.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
		p := new(value)
		*p = structV{msg, wrapped}
		return iface{types.NewPointer(t), p}
	}
	t := in.eng.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()
	p := new(value)
	*p = structV{msg}
	return iface{in.ptrTo(t), p}
}

var ptrMemo = map[types.Type]types.Type{}

func (in *Interp) ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func errIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func sbCell(in *Interp, v value) *value {
	p, _ := v.(*value)
	if p == nil {
		in.nilDeref()
	}
	return &(*p).(structV)[1]
}

func sbGet(v value) value {
	switch x := v.(type) {
	case sliceV:
		return ""
	default:
		return x
	}
}

func tup(vs ...value) value { return tupleV(vs) }

var nilIface = iface{}

func init() {
	intrinsics = map[string]intrinsic{}

	// strings.Builder
	reg("(*strings.Builder).WriteRune", func(in *Interp, fr *frame, a []value) value {
		c := sbCell(in, a[0])
		r := in.normRune(a[1])
		in.store(c, in.concatStr(sbGet(*c), mkStr([]sElem{{r, false}})))
		return tup(int64(1), nilIface)
	})
	reg("(*strings.Builder).WriteByte", func(in *Interp, fr *frame, a []value) value {
		c := sbCell(in, a[0])
		in.store(c, in.concatStr(sbGet(*c), in.bytesToStr([]value{a[1]})))
		return nilIface
	})
	reg("(*strings.Builder).WriteString", func(in *Interp, fr *frame, a []value) value {
		c := sbCell(in, a[0])
		in.store(c, in.concatStr(sbGet(*c), a[1]))
		return tup(int64(0), nilIface)
	})
	reg("(*strings.Builder).Write", func(in *Interp, fr *frame, a []value) value {
		c := sbCell(in, a[0])
		in.store(c, in.concatStr(sbGet(*c), in.bytesToStr(a[1].(sliceV).a)))
		return tup(int64(len(a[1].(sliceV).a)), nilIface)
	})
	reg("(*strings.Builder).String", func(in *Interp, fr *frame, a []value) value {
		return sbGet(*sbCell(in, a[0]))
	})
	reg("(*strings.Builder).Len", func(in *Interp, fr *frame, a []value) value {
		return in.simpVal(in.strLen(sbGet(*sbCell(in, a[0]))))
	})
	reg("(*strings.Builder).Reset", func(in *Interp, fr *frame, a []value) value {
		in.store(sbCell(in, a[0]), sliceV{})
		return nil
	})
	reg("(*strings.Builder).Grow", func(in *Interp, fr *frame, a []value) value { return nil })
	reg("(*strings.Builder).Cap", func(in *Interp, fr *frame, a []value) value { return int64(1 << 20) })

	// strings
	strFn2 := func(name string, host func(a, b string) value, sym func(in *Interp, a, b value) (value, bool)) {
		regPure("strings."+name, func(in *Interp, fr *frame, a []value) value {
			x, y := in.canonStr(a[0]), in.canonStr(a[1])
			if s, ok := x.(string); ok {
				if t, ok := y.(string); ok {
					return host(s, t)
				}
			}
			if sym != nil {
				if v, ok := sym(in, x, y); ok {
					return v
				}
			}
			return host(in.concStr(x), in.concStr(y))
		})
	}
	tabBool := func(f func(s, t string) bool, elems func(in *Interp, s, t []sElem) value) func(in *Interp, a, b value) (value, bool) {
		return func(in *Interp, a, b value) (value, bool) {
			if x, ok := a.(*TStr); ok {
				if t, ok := b.(string); ok {
					v := in.mapTStr(x, func(s string) uint64 { return b2u(f(s, t)) }, 8)
					if c, ok := v.(int64); ok {
						return c != 0, true
					}
					return in.termVal(in.tt.Eq(v.(*Term), in.tt.Const(8, 1))), true
				}
				return nil, false
			}
			if _, ok := a.(*SStr); ok || elems != nil {
				if elems == nil {
					return nil, false
				}
				if _, ok := b.(*TStr); ok {
					return nil, false
				}
				return elems(in, in.strElems(a), in.strElems(b)), true
			}
			return nil, false
		}
	}
	strFn2("HasPrefix", func(a, b string) value { return strings.HasPrefix(a, b) }, tabBool(strings.HasPrefix, func(in *Interp, s, t []sElem) value {
		if len(s) < len(t) {
			return false
		}
		return in.eqElems(s[:len(t)], t)
	}))
	strFn2("HasSuffix", func(a, b string) value { return strings.HasSuffix(a, b) }, tabBool(strings.HasSuffix, func(in *Interp, s, t []sElem) value {
		if len(s) < len(t) {
			return false
		}
		return in.eqElems(s[len(s)-len(t):], t)
	}))
	strFn2("Contains", func(a, b string) value { return strings.Contains(a, b) }, tabBool(strings.Contains, func(in *Interp, s, t []sElem) value {
		acc := in.tt.False
		for i := 0; i+len(t) <= len(s); i++ {
			acc = in.tt.Or(acc, in.toTerm(in.eqElems(s[i:i+len(t)], t), 0))
		}
		return in.termVal(acc)
	}))
	anyElem := func(in *Interp, s, t []sElem) value {
		acc := in.tt.False
		for _, x := range s {
			for _, y := range t {
				acc = in.tt.Or(acc, in.toTerm(in.eqElems([]sElem{x}, []sElem{y}), 0))
			}
		}
		return in.termVal(acc)
	}
	strFn2("ContainsAny", func(a, b string) value { return strings.ContainsAny(a, b) }, tabBool(strings.ContainsAny, anyElem))
	strFn2("Index", func(a, b string) value { return int64(strings.Index(a, b)) }, nil)
	strFn2("LastIndex", func(a, b string) value { return int64(strings.LastIndex(a, b)) }, nil)
	strFn2("IndexAny", func(a, b string) value { return int64(strings.IndexAny(a, b)) }, nil)
	strFn2("Count", func(a, b string) value { return int64(strings.Count(a, b)) }, nil)
	strFn2("EqualFold", func(a, b string) value { return strings.EqualFold(a, b) }, nil)
	strFn2("Compare", func(a, b string) value { return int64(strings.Compare(a, b)) }, nil)
	strFn2("TrimPrefix", func(a, b string) value { return strings.TrimPrefix(a, b) }, func(in *Interp, a, b value) (value, bool) {
		if x, ok := a.(*TStr); ok {
			if t, ok := b.(string); ok {
				return &TStr{x.idx, mapStrs(x.tab, func(s string) string { return strings.TrimPrefix(s, t) })}, true
			}
			return nil, false
		}
		s, t := in.strElems(a), in.strElems(b)
		if len(s) < len(t) {
			return a, true
		}
		c := in.eqElems(s[:len(t)], t)
		if in.decideV(c) {
			return mkStr(append([]sElem{}, s[len(t):]...)), true
		}
		return a, true
	})
	strFn2("TrimSuffix", func(a, b string) value { return strings.TrimSuffix(a, b) }, func(in *Interp, a, b value) (value, bool) {
		if x, ok := a.(*TStr); ok {
			if t, ok := b.(string); ok {
				return &TStr{x.idx, mapStrs(x.tab, func(s string) string { return strings.TrimSuffix(s, t) })}, true
			}
			return nil, false
		}
		s, t := in.strElems(a), in.strElems(b)
		if len(s) < len(t) {
			return a, true
		}
		if in.decideV(in.eqElems(s[len(s)-len(t):], t)) {
			return mkStr(append([]sElem{}, s[:len(s)-len(t)]...)), true
		}
		return a, true
	})
	for name, f := range map[string]func(a, b string) string{"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight} {
		f := f
		strFn2(name, func(a, b string) value { return f(a, b) }, nil)
	}
	for name, f := range map[string]func(a string) string{"ToLower": strings.ToLower, "ToUpper": strings.ToUpper, "TrimSpace": strings.TrimSpace, "Clone": strings.Clone} {
		f := f
		regPure("strings."+name, func(in *Interp, fr *frame, a []value) value {
			if t, ok := a[0].(*TStr); ok {
				return &TStr{t.idx, mapStrs(t.tab, f)}
			}
			return f(in.concStr(a[0]))
		})
	}
	reg("internal/stringslite.Clone", func(in *Interp, fr *frame, a []value) value { return a[0] })
	reg("strings.Repeat", func(in *Interp, fr *frame, a []value) value {
		return strings.Repeat(in.concStr(a[0]), int(in.concInt(a[1])))
	})
	reg("strings.ContainsRune", func(in *Interp, fr *frame, a []value) value {
		acc := in.tt.False
		for _, e := range in.strElems(in.canonStr(a[0])) {
			if e.bad {
				continue
			}
			acc = in.tt.Or(acc, in.tt.Eq(in.simp(in.toTerm(e.r, 32)), in.simp(in.toTerm(a[1], 32))))
		}
		return in.termVal(acc)
	})
	pureIntr["strings.ContainsRune"] = true
	reg("strings.IndexRune", func(in *Interp, fr *frame, a []value) value {
		off := in.tt.Const(64, 0)
		for _, e := range in.strElems(in.canonStr(a[0])) {
			if !e.bad && in.decide(in.tt.Eq(in.toTerm(e.r, 32), in.toTerm(a[1], 32))) {
				return in.termVal(in.simp(off))
			}
			off = in.tt.Bin(OpAdd, off, in.elemLen(e))
		}
		return int64(-1)
	})
	reg("strings.IndexByte", func(in *Interp, fr *frame, a []value) value {
		b := in.concInt(a[1])
		if b >= 0x80 {
			return int64(strings.IndexByte(in.concStr(a[0]), byte(b)))
		}
		off := in.tt.Const(64, 0)
		for _, e := range in.strElems(in.canonStr(a[0])) {
			if !e.bad && in.decide(in.tt.Eq(in.toTerm(e.r, 32), in.tt.Const(32, uint64(b)))) {
				return in.termVal(in.simp(off))
			}
			off = in.tt.Bin(OpAdd, off, in.elemLen(e))
		}
		return int64(-1)
	})
	replace := func(in *Interp, s value, old, nw string, n int) value {
		s = in.canonStr(s)
		if h, ok := s.(string); ok {
			return strings.Replace(h, old, nw, n)
		}
		if t, ok := s.(*TStr); ok {
			return &TStr{t.idx, mapStrs(t.tab, func(x string) string { return strings.Replace(x, old, nw, n) })}
		}
		if utf8.RuneCountInString(old) != 1 {
			return strings.Replace(in.concStr(s), old, nw, n)
		}
		o, _ := utf8.DecodeRuneInString(old)
		var out []sElem
		for _, e := range in.strElems(s) {
			if n != 0 && !e.bad && in.decide(in.tt.Eq(in.toTerm(e.r, 32), in.tt.Const(32, uint64(o)))) {
				out = append(out, constElems(nw)...)
				n--
				continue
			}
			out = append(out, e)
		}
		return mkStr(out)
	}
	reg("strings.Replace", func(in *Interp, fr *frame, a []value) value {
		return replace(in, a[0], in.concStr(a[1]), in.concStr(a[2]), int(in.concInt(a[3])))
	})
	reg("strings.ReplaceAll", func(in *Interp, fr *frame, a []value) value {
		return replace(in, a[0], in.concStr(a[1]), in.concStr(a[2]), -1)
	})
	reg("strings.Split", func(in *Interp, fr *frame, a []value) value {
		r := []value{}
		for _, s := range strings.Split(in.concStr(a[0]), in.concStr(a[1])) {
			r = append(r, s)
		}
		return sliceV{r}
	})
	reg("strings.Fields", func(in *Interp, fr *frame, a []value) value {
		r := []value{}
		for _, s := range strings.Fields(in.concStr(a[0])) {
			r = append(r, s)
		}
		return sliceV{r}
	})
	reg("strings.Join", func(in *Interp, fr *frame, a []value) value {
		var r value = ""
		for i, s := range a[0].(sliceV).a {
			if i > 0 {
				r = in.concatStr(r, a[1])
			}
			r = in.concatStr(r, s)
		}
		return r
	})

	// unicode
	in1 := func(in *Interp, fr *frame, a []value) value {
		return in.inSet(a[0], in.unionSet(a[1].(sliceV).a))
	}
	regPure("unicode.In", in1)
	regPure("unicode.IsOneOf", func(in *Interp, fr *frame, a []value) value {
		return in.inSet(a[1], in.unionSet(a[0].(sliceV).a))
	})
	regPure("unicode.Is", func(in *Interp, fr *frame, a []value) value {
		return in.inSet(a[1], in.unionSet([]value{a[0]}))
	})
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsPrint": unicode.IsPrint, "IsGraphic": unicode.IsGraphic, "IsTitle": unicode.IsTitle} {
		n, f := n, f
		regPure("unicode."+n, func(in *Interp, fr *frame, a []value) value {
			if r, ok := a[0].(int64); ok {
				return f(rune(r))
			}
			return in.inSet(a[0], in.predSet(n, f))
		})
	}

	// utf8
	regPure("unicode/utf8.RuneLen", func(in *Interp, fr *frame, a []value) value {
		switch r := a[0].(type) {
		case int64:
			return int64(utf8.RuneLen(rune(r)))
		case *Term:
			n := in.normRune(r) // forks on invalid runes; those have length -1
			if k, ok := n.(int64); ok {
				if in.simp(r).isConst() {
					return int64(utf8.RuneLen(rune(sext64(in.simp(r).c, 32))))
				}
				_ = k
				return int64(-1)
			}
			return in.termVal(in.simp(sizeClassTerm(in.tt, in.simp(r))))
		}
		return nil
	})
	reg("unicode/utf8.DecodeRuneInString", func(in *Interp, fr *frame, a []value) value {
		s := in.canonStr(a[0])
		if h, ok := s.(string); ok {
			r, n := utf8.DecodeRuneInString(h)
			return tup(int64(r), int64(n))
		}
		if _, ok := s.(*TStr); ok {
			s = in.concStr(s)
		}
		e := in.strElems(s)
		if len(e) == 0 {
			return tup(int64(utf8.RuneError), int64(0))
		}
		if e[0].bad {
			return tup(int64(utf8.RuneError), int64(1))
		}
		return tup(e[0].r, in.termVal(in.simp(in.elemLen(e[0]))))
	})
	reg("unicode/utf8.DecodeLastRuneInString", func(in *Interp, fr *frame, a []value) value {
		s := in.canonStr(a[0])
		e := in.strElems(s)
		if len(e) == 0 {
			return tup(int64(utf8.RuneError), int64(0))
		}
		l := e[len(e)-1]
		if l.bad {
			return tup(int64(utf8.RuneError), int64(1))
		}
		return tup(l.r, in.termVal(in.simp(in.elemLen(l))))
	})
	reg("unicode/utf8.RuneCountInString", func(in *Interp, fr *frame, a []value) value {
		s := in.canonStr(a[0])
		if t, ok := s.(*TStr); ok {
			return in.mapTStr(t, func(x string) uint64 { return uint64(utf8.RuneCountInString(x)) }, 64)
		}
		return int64(len(in.strElems(s)))
	})
	reg("unicode/utf8.ValidString", func(in *Interp, fr *frame, a []value) value {
		for _, e := range in.strElems(in.canonStr(a[0])) {
			if e.bad {
				return false
			}
		}
		return true
	})

	// strconv
	regPure("strconv.Itoa", func(in *Interp, fr *frame, a []value) value {
		if i, ok := a[0].(int64); ok {
			return strconv.Itoa(int(i))
		}
		v := a[0]
		return &LStr{f: func(in *Interp) value { return strconv.Itoa(int(in.concInt(v))) }}
	})
	regPure("strconv.FormatInt", func(in *Interp, fr *frame, a []value) value {
		return strconv.FormatInt(in.concInt(a[0]), int(in.concInt(a[1])))
	})
	reg("strconv.FormatFloat", func(in *Interp, fr *frame, a []value) value {
		return strconv.FormatFloat(in.concF(a[0]).(float64), byte(in.concInt(a[1])), int(in.concInt(a[2])), int(in.concInt(a[3])))
	})
	reg("strconv.Quote", func(in *Interp, fr *frame, a []value) value {
		v := a[0]
		return &LStr{f: func(in *Interp) value { return in.quoteStr(v) }}
	})
	reg("strconv.ParseFloat", func(in *Interp, fr *frame, a []value) value {
		return in.parseFloat(a[0], int(in.concInt(a[1])))
	})
	// the integer parsers run natively on concrete text and are otherwise
	// interpreted from their own source
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint"} {
		n := n
		reg(n, func(in *Interp, fr *frame, a []value) value {
			s := in.canonStr(a[0])
			if h, ok := s.(string); ok {
				base, bits := int(in.concInt(a[1])), int(in.concInt(a[2]))
				var v int64
				var err error
				if n == "strconv.ParseInt" {
					v, err = strconv.ParseInt(h, base, bits)
				} else {
					var u uint64
					u, err = strconv.ParseUint(h, base, bits)
					v = int64(u)
				}
				return tup(v, in.numError(err))
			}
			if _, ok := s.(*TStr); ok {
				s = in.concStr(s)
				return intrinsics[n](in, fr, []value{s, a[1], a[2]})
			}
			fn := in.eng.pkgs["strconv"].Func(strings.TrimPrefix(n, "strconv."))
			fi := in.rawInfo(fn)
			return in.runFn(fr, fi, []value{s, a[1], a[2]}, nil)
		})
	}

	// math
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Trunc": math.Trunc, "Abs": math.Abs, "Ceil": math.Ceil, "Sqrt": math.Sqrt} {
		f := f
		reg("math."+n, func(in *Interp, fr *frame, a []value) value { return f(in.concF(a[0]).(float64)) })
	}
	reg("math.Pow", func(in *Interp, fr *frame, a []value) value {
		return math.Pow(in.concF(a[0]).(float64), in.concF(a[1]).(float64))
	})
	reg("math.Ldexp", func(in *Interp, fr *frame, a []value) value {
		return math.Ldexp(in.concF(a[0]).(float64), int(in.concInt(a[1])))
	})
	reg("math.Inf", func(in *Interp, fr *frame, a []value) value { return math.Inf(int(in.concInt(a[0]))) })
	reg("math.NaN", func(in *Interp, fr *frame, a []value) value { return math.NaN() })
	reg("math.IsNaN", func(in *Interp, fr *frame, a []value) value {
		if _, ok := a[0].(*symFloat); ok {
			return false // parsed from digits
		}
		return math.IsNaN(in.concF(a[0]).(float64))
	})
	reg("math.IsInf", func(in *Interp, fr *frame, a []value) value {
		return math.IsInf(in.concF(a[0]).(float64), int(in.concInt(a[1])))
	})
	reg("math.Float64bits", func(in *Interp, fr *frame, a []value) value {
		return int64(math.Float64bits(in.concF(a[0]).(float64)))
	})
	reg("math.Float64frombits", func(in *Interp, fr *frame, a []value) value {
		return math.Float64frombits(uint64(in.concInt(a[0])))
	})

	// errors
	reg("errors.Is", func(in *Interp, fr *frame, a []value) value {
		return in.errorsIs(fr, a[0].(iface), a[1].(iface))
	})
	reg("errors.As", func(in *Interp, fr *frame, a []value) value {
		return in.errorsAs(fr, a[0].(iface), a[1].(iface))
	})

	// fmt
	reg("fmt.Sprintf", func(in *Interp, fr *frame, a []value) value {
		f, args := a[0], append([]value{}, a[1].(sliceV).a...)
		l := &LStr{}
		l.f = func(in *Interp) value { return in.format(fr, in.concStr(f), args) }
		return l
	})
	reg("fmt.Errorf", func(in *Interp, fr *frame, a []value) value {
		f, args := in.concStr(a[0]), append([]value{}, a[1].(sliceV).a...)
		var w iface
		if k := strings.Index(f, "%w"); k >= 0 {
			n := 0
			for i := 0; i < k; i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					n++
				}
			}
			if n < len(args) {
				w, _ = args[n].(iface)
			}
		}
		l := &LStr{}
		l.f = func(in *Interp) value { return in.format(fr, f, args) }
		return in.newError(l, w)
	})
	sprint := func(in *Interp, fr *frame, args []value, ln bool) value {
		l := &LStr{}
		l.f = func(in *Interp) value {
			var r value = ""
			for i, x := range args {
				if i > 0 && (ln || !(isStrIface(x) || isStrIface(args[i-1]))) {
					r = in.concatStr(r, " ")
				}
				r = in.concatStr(r, in.fmtV(fr, x, 'v', false))
			}
			if ln {
				r = in.concatStr(r, "\n")
			}
			return r
		}
		return l
	}
	reg("fmt.Sprint", func(in *Interp, fr *frame, a []value) value { return sprint(in, fr, a[0].(sliceV).a, false) })
	reg("fmt.Sprintln", func(in *Interp, fr *frame, a []value) value { return sprint(in, fr, a[0].(sliceV).a, true) })
	reg("fmt.Printf", func(in *Interp, fr *frame, a []value) value {
		f, args := a[0], append([]value{}, a[1].(sliceV).a...)
		l := &LStr{}
		l.f = func(in *Interp) value { return in.format(fr, in.concStr(f), args) }
		in.writeStdout(l)
		return tup(int64(0), nilIface)
	})
	reg("fmt.Print", func(in *Interp, fr *frame, a []value) value {
		in.writeStdout(sprint(in, fr, a[0].(sliceV).a, false))
		return tup(int64(0), nilIface)
	})
	reg("fmt.Println", func(in *Interp, fr *frame, a []value) value {
		in.writeStdout(sprint(in, fr, a[0].(sliceV).a, true))
		return tup(int64(0), nilIface)
	})
	fpr := func(in *Interp, fr *frame, w iface, s value) value {
		return tup(int64(0), in.writeTo(fr, w, s))
	}
	reg("fmt.Fprintf", func(in *Interp, fr *frame, a []value) value {
		f, args := a[1], append([]value{}, a[2].(sliceV).a...)
		l := &LStr{}
		l.f = func(in *Interp) value { return in.format(fr, in.concStr(f), args) }
		return fpr(in, fr, a[0].(iface), l)
	})
	reg("fmt.Fprint", func(in *Interp, fr *frame, a []value) value {
		return fpr(in, fr, a[0].(iface), sprint(in, fr, a[1].(sliceV).a, false))
	})
	reg("fmt.Fprintln", func(in *Interp, fr *frame, a []value) value {
		return fpr(in, fr, a[0].(iface), sprint(in, fr, a[1].(sliceV).a, true))
	})

	// sync
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, a []value) value {
		if in.hostState[a[0]] == nil {
			in.hostState[a[0]] = true
			in.callValue(fr, a[1], nil)
		}
		return nil
	})
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC"} {
		reg(n, func(in *Interp, fr *frame, a []value) value { return nil })
	}

	registerVsym()
	registerIO()
	registerReflect()
}

func isStrIface(v value) bool {
	i, ok := v.(iface)
	return ok && i.t != nil && isString(i.t)
}

func (in *Interp) decideV(v value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return in.decide(b)
	}
	unsup("decide %T", v)
	return false
}

// rawInfo compiles a function ignoring its intrinsic.
func (in *Interp) rawInfo(fn *ssa.Function) *fnInfo {
	if in.rawFns == nil {
		in.rawFns = map[*ssa.Function]*fnInfo{}
	}
	if fi, ok := in.rawFns[fn]; ok {
		return fi
	}
	saved := in.fns[fn]
	delete(in.fns, fn)
	fi := in.compile(fn)
	if saved != nil {
		in.fns[fn] = saved
	} else {
		delete(in.fns, fn)
	}
	in.rawFns[fn] = fi
	in.drainInit()
	return fi
}

func (in *Interp) numError(err error) value {
	if err == nil {
		return nilIface
	}
	ne := err.(*strconv.NumError)
	pkg := in.eng.pkgs["strconv"]
	t := pkg.Pkg.Scope().Lookup("NumError").Type()
	var inner value = nilIface
	switch ne.Err {
	case strconv.ErrRange:
		inner = *in.global(pkg.Var("ErrRange"))
	case strconv.ErrSyntax:
		inner = *in.global(pkg.Var("ErrSyntax"))
	default:
		inner = in.newError(ne.Err.Error(), iface{})
	}
	p := new(value)
	*p = structV{ne.Func, ne.Num, inner}
	return iface{types.NewPointer(t), p}
}

// parseFloat models strconv.ParseFloat on text with symbolic digits: whether
// the text is well-formed depends on the class of each character only; the
// value stays a function of the text.
func (in *Interp) parseFloat(sv value, bits int) value {
	s := in.canonStr(sv)
	if _, ok := s.(*TStr); ok {
		s = in.concStr(s)
	}
	if h, ok := s.(string); ok {
		v, err := strconv.ParseFloat(h, bits)
		return tup(v, in.numError(err))
	}
	e := in.strElems(s)
	out := make([]sElem, len(e))
	probe := []byte{}
	inExp := 0
	for i, x := range e {
		out[i] = x
		if r, ok := x.r.(int64); ok {
			if x.bad || r > 0x7f {
				probe = append(probe, 0xff)
			} else {
				probe = append(probe, byte(r))
			}
			if r == 'e' || r == 'E' || r == 'p' || r == 'P' {
				inExp = 1
			}
			continue
		}
		t := in.simp(x.r.(*Term))
		digit := in.tt.And(in.tt.Bin(OpUle, in.tt.Const(32, '0'), t), in.tt.Bin(OpUle, t, in.tt.Const(32, '9')))
		if inExp == 0 && in.decide(digit) {
			probe = append(probe, '1')
			continue
		}
		v := int64(in.concTerm(t))
		out[i] = sElem{v, false}
		if v > 0x7f {
			probe = append(probe, 0xff)
		} else {
			probe = append(probe, byte(v))
		}
		if v == 'e' || v == 'E' || v == 'p' || v == 'P' {
			inExp = 1
		}
	}
	st := mkStr(out)
	if h, ok := st.(string); ok {
		v, err := strconv.ParseFloat(h, bits)
		return tup(v, in.numError(err))
	}
	v1, err := strconv.ParseFloat(string(probe), bits)
	lim := 1e280
	if bits == 32 {
		lim = 1e20
	}
	if err == nil && (v1 > lim || v1 < 1/lim && v1 > 0) {
		// near the ends of the range the digits decide about range errors
		h := in.concStr(st)
		v, err := strconv.ParseFloat(h, bits)
		return tup(v, in.numError(err))
	}
	if err != nil {
		return tup(float64(0), in.numError(err))
	}
	return tup(&symFloat{kind: fmt.Sprintf("parse%d", bits), s: st}, nilIface)
}

func (in *Interp) evalFloat(f *symFloat) float64 {
	if strings.HasPrefix(f.kind, "int:") {
		return float64(in.concInt(f.s))
	}
	bits := 64
	if f.kind == "parse32" {
		bits = 32
	}
	v, _ := strconv.ParseFloat(in.concStr(in.canonStr(f.s)), bits)
	return v
}

// ---- errors ----

func (in *Interp) unwrap(fr *frame, e iface) []iface {
	if e.t == nil || e.t == hostErrType {
		return nil
	}
	fn := in.eng.methodByName(e.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	r := in.call(fr, fn, []value{copyVal(e.v)}, nil)
	switch x := r.(type) {
	case iface:
		return []iface{x}
	case sliceV:
		var out []iface
		for _, y := range x.a {
			out = append(out, y.(iface))
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(fr *frame, e, target iface) value {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) {
		if in.decideV(in.eq(e.t, e.v, target.v)) {
			return true
		}
	}
	if e.t != hostErrType {
		if fn := in.eng.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
			if in.decideV(in.call(fr, fn, []value{copyVal(e.v), target}, nil)) {
				return true
			}
		}
	}
	for _, u := range in.unwrap(fr, e) {
		if u.t != nil && in.errorsIs(fr, u, target).(bool) {
			return true
		}
	}
	return false
}

func (in *Interp) errorsAs(fr *frame, e, target iface) value {
	if e.t == nil {
		return false
	}
	tt := deref(target.t)
	if it, ok := tt.Underlying().(*types.Interface); ok {
		if in.implements(e.t, it, tt) {
			in.storeTo(target.v.(*value), e)
			return true
		}
	} else if types.Identical(e.t, tt) {
		in.storeTo(target.v.(*value), copyVal(e.v))
		return true
	}
	if e.t != hostErrType {
		if fn := in.eng.methodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			if in.decideV(in.call(fr, fn, []value{copyVal(e.v), target}, nil)) {
				return true
			}
		}
	}
	for _, u := range in.unwrap(fr, e) {
		if u.t != nil && in.errorsAs(fr, u, target).(bool) {
			return true
		}
	}
	return false
}

// ---- formatting ----

func (in *Interp) quoteStr(v value) value {
	v = in.canonStr(v)
	if t, ok := v.(*TStr); ok {
		return &TStr{t.idx, mapStrs(t.tab, strconv.Quote)}
	}
	return strconv.Quote(in.concStr(v))
}

func (in *Interp) format(fr *frame, f string, args []value) value {
	var r value = ""
	k := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		r = in.concatNow(r, f[lit:i])
		i++
		plus := false
		flags := ""
		for i < len(f) && strings.ContainsRune("+#- 0123456789.", rune(f[i])) {
			if f[i] == '+' || f[i] == '#' {
				plus = true
			}
			flags += string(f[i])
			i++
		}
		if i >= len(f) {
			r = in.concatNow(r, "%!(NOVERB)")
			lit = i
			break
		}
		verb := f[i]
		lit = i + 1
		if verb == '%' {
			r = in.concatNow(r, "%")
			continue
		}
		if k >= len(args) {
			r = in.concatNow(r, fmt.Sprintf("%%!%c(MISSING)", verb))
			continue
		}
		r = in.concatNow(r, in.fmtFlag(fr, args[k], verb, flags, plus))
		k++
	}
	if lit < len(f) {
		r = in.concatNow(r, f[lit:])
	}
	return r
}

func (in *Interp) concatNow(a, b value) value {
	if l, ok := a.(*LStr); ok {
		a = in.force(l)
	}
	if l, ok := b.(*LStr); ok {
		b = in.force(l)
	}
	r := in.concatStr(a, b)
	if l, ok := r.(*LStr); ok {
		r = in.force(l)
	}
	return r
}

func (in *Interp) fmtFlag(fr *frame, a value, verb byte, flags string, plus bool) value {
	if flags != "" && !plus {
		i, ok := a.(iface)
		if ok && i.t != nil {
			if _, isInt := intWidth(i.t); isInt {
				return fmt.Sprintf("%"+flags+string(verb), in.concInt(i.v))
			}
			if isString(i.t) {
				return fmt.Sprintf("%"+flags+string(verb), in.concStr(i.v))
			}
			if isFloat(i.t) {
				return fmt.Sprintf("%"+flags+string(verb), in.concF(i.v).(float64))
			}
		}
	}
	return in.fmtV(fr, a, verb, plus)
}

func (in *Interp) fmtV(fr *frame, a value, verb byte, plus bool) value {
	i, ok := a.(iface)
	if !ok {
		unsup("format of %T", a)
	}
	if i.t == nil {
		if verb == 'T' || verb == 'v' {
			return "<nil>"
		}
		return fmt.Sprintf("%%!%c(<nil>)", verb)
	}
	if verb == 'T' {
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	}
	if verb != 'd' && verb != 'c' && verb != 'p' && verb != 'x' && verb != 't' && verb != 'U' {
		// methods
		if i.t == hostErrType {
			return i.v
		}
		for _, m := range []string{"Error", "String"} {
			fn := in.eng.methodByName(i.t, m)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				if p, ok := i.v.(*value); ok && p == nil {
					return "<nil>"
				}
				s := in.call(fr, fn, []value{copyVal(i.v)}, nil)
				if verb == 'q' {
					return in.quoteStr(s)
				}
				return s
			}
		}
	}
	return in.fmtKind(fr, i.t, i.v, verb, plus)
}

func (in *Interp) fmtKind(fr *frame, t types.Type, v value, verb byte, plus bool) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'q' || plus && verb == 'v' {
				return in.quoteStr(v)
			}
			return v
		case u.Info()&types.IsInteger != 0:
			n := in.concInt(v)
			switch verb {
			case 'q':
				return strconv.QuoteRune(rune(n))
			case 'c':
				return string(rune(n))
			case 'x':
				return strconv.FormatInt(n, 16)
			case 'X':
				return strings.ToUpper(strconv.FormatInt(n, 16))
			case 'U':
				return fmt.Sprintf("%U", rune(n))
			case 's':
				return fmt.Sprintf("%%!s(%s=%d)", t, n)
			default:
				if u.Info()&types.IsUnsigned != 0 {
					return strconv.FormatUint(uint64(n), 10)
				}
				return strconv.FormatInt(n, 10)
			}
		case u.Info()&types.IsBoolean != 0:
			return strconv.FormatBool(in.decideV(v))
		case u.Info()&types.IsFloat != 0:
			f := in.concF(v).(float64)
			return fmt.Sprintf("%"+string(verb), f)
		}
	case *types.Pointer:
		if p, ok := v.(*value); ok && p != nil && verb == 'v' {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return in.concatNow("&", in.fmtKind(fr, u.Elem(), *p, verb, plus))
			}
		}
		if p, ok := v.(*value); ok && p == nil {
			return "<nil>"
		}
		return "0xc000000000"
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return "<nil>"
		}
		return in.fmtV(fr, i, verb, plus)
	case *types.Struct:
		var r value = "{"
		for k := 0; k < u.NumFields(); k++ {
			if k > 0 {
				r = in.concatNow(r, " ")
			}
			if plus {
				r = in.concatNow(r, u.Field(k).Name()+":")
			}
			fv := v.(structV)[k]
			ft := u.Field(k).Type()
			if u.Field(k).Exported() {
				if _, ok := ft.Underlying().(*types.Interface); !ok {
					r = in.concatNow(r, in.fmtV(fr, iface{ft, fv}, verb, plus))
					continue
				}
			}
			r = in.concatNow(r, in.fmtKind(fr, ft, fv, verb, plus))
		}
		return in.concatNow(r, "}")
	case *types.Slice, *types.Array:
		var cells []value
		var et types.Type
		switch x := v.(type) {
		case sliceV:
			cells = x.a
			et = u.(*types.Slice).Elem()
		case arrayV:
			cells = x
			et = u.(*types.Array).Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q') {
			s := in.bytesToStr(cells)
			if verb == 'q' {
				return in.quoteStr(s)
			}
			return s
		}
		var r value = "["
		for k, c := range cells {
			if k > 0 {
				r = in.concatNow(r, " ")
			}
			if _, ok := et.Underlying().(*types.Interface); ok {
				r = in.concatNow(r, in.fmtKind(fr, et, c, verb, plus))
				continue
			}
			r = in.concatNow(r, in.fmtV(fr, iface{et, c}, verb, plus))
		}
		return in.concatNow(r, "]")
	}
	return fmt.Sprintf("<%s>", t)
}

func (in *Interp) writeStdout(s value) { in.stdout = append(in.stdout, s) }
