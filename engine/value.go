package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Values. Integers of every kind are int64 (bit pattern normalised to the
// static type), or *Term. Booleans are bool or *Term (w==0).
type value = interface{}

type structV []value
type arrayV []value
type sliceV struct {
	a []value // len/cap as in Go; nil slice: a == nil
}
type tupleV []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}

// hostFunc is a function value implemented by the engine.
type hostFunc struct {
	name string
	f    func(in *Interp, args []value) value
}

type mapEntry struct {
	k, v value
	del  bool
}

// mapV keeps entries in insertion order.
type mapV struct {
	kt, vt types.Type
	idx    map[interface{}]int
	ents   []mapEntry
	n      int
	sym    bool // a symbolic key has been inserted
}

// Symbolic strings.

// sElem is one element of an SStr: a code point (r: int64 or *Term of width
// 32, always a Unicode scalar value) or a single byte that does not decode.
type sElem struct {
	r   value
	bad bool // r is then a byte value
}

// SStr is a sequence of code points, some of them symbolic.
type SStr struct{ e []sElem }

// TStr is a table of strings indexed by a symbolic integer.
type TStr struct {
	idx *Term
	tab []string
}

// LStr is a string whose computation is postponed until it is inspected.
type LStr struct {
	f      func(in *Interp) value
	forced value
	tree   *iface  // the JSON document it is the text of
	parts  []value // the texts it joins
}

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

type bodyless struct{}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     value
	where string
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func intWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int8, types.Uint8:
		return 8, true
	}
	return 0, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// norm wraps v to the type's width and signedness.
func norm(t types.Type, v int64) int64 {
	w, ok := intWidth(t)
	if !ok || w == 64 {
		return v
	}
	if isSigned(t) {
		return sext64(uint64(v), w)
	}
	return int64(uint64(v) & mask(w))
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return sliceV{}
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*value)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(arrayV, u.Len())
		if u.Len() > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tupleV, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %s", t)
	return nil
}

// copyVal makes a copy of aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		r := make(structV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case arrayV:
		r := make(arrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func sizeClassTerm(tt *TermTable, r *Term) *Term {
	// UTF-8 length of a scalar value, 64 bits wide
	c := func(v uint64) *Term { return tt.Const(32, v) }
	k := func(v uint64) *Term { return tt.Const(64, v) }
	return tt.Ite(tt.Bin(OpUlt, r, c(0x80)), k(1),
		tt.Ite(tt.Bin(OpUlt, r, c(0x800)), k(2),
			tt.Ite(tt.Bin(OpUlt, r, c(0x10000)), k(3), k(4))))
}

// elemLen returns the byte length of an element as a 64-bit term or constant.
func (in *Interp) elemLen(e sElem) *Term {
	if e.bad {
		return in.tt.Const(64, 1)
	}
	switch r := e.r.(type) {
	case int64:
		return in.tt.Const(64, uint64(utf8.RuneLen(rune(r))))
	case *Term:
		return in.lenVar(r)
	}
	panic("elemLen")
}

// lenVar returns the (opaque when linear sums need it) length term of a rune.
func (in *Interp) lenVar(r *Term) *Term { return sizeClassTerm(in.tt, r) }

// strElems converts any string value to elements.
func (in *Interp) strElems(v value) []sElem {
	switch s := v.(type) {
	case string:
		return constElems(s)
	case *SStr:
		return s.e
	case *TStr:
		return constElems(in.concTStr(s))
	case *LStr:
		return in.strElems(in.force(s))
	}
	unsup("string value %T", v)
	return nil
}

func constElems(s string) []sElem {
	var e []sElem
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			e = append(e, sElem{int64(s[i]), true})
		} else {
			e = append(e, sElem{int64(r), false})
		}
		i += n
	}
	return e
}

// mkStr builds the simplest string value for elements.
func mkStr(e []sElem) value {
	var sb strings.Builder
	for _, x := range e {
		r, ok := x.r.(int64)
		if !ok {
			return &SStr{e}
		}
		if x.bad {
			sb.WriteByte(byte(r))
		} else {
			sb.WriteRune(rune(r))
		}
	}
	return sb.String()
}

func (in *Interp) force(l *LStr) value {
	if l.forced == nil {
		l.forced = l.f(in)
	}
	if m, ok := l.forced.(*LStr); ok {
		return in.force(m)
	}
	return l.forced
}

// concTStr forks over the possible strings of a table string.
func (in *Interp) concTStr(s *TStr) string {
	t := in.simp(s.idx)
	if t.isConst() {
		return s.tab[t.c]
	}
	// fork over distinct strings
	groups := map[string][]*Term{}
	var order []string
	vals := possibleVals(t, len(s.tab))
	for _, i := range vals {
		if i >= uint64(len(s.tab)) {
			continue
		}
		str := s.tab[i]
		if _, ok := groups[str]; !ok {
			order = append(order, str)
		}
		groups[str] = append(groups[str], in.tt.Eq(t, in.tt.Const(t.w, i)))
	}
	for n, str := range order {
		if n == len(order)-1 {
			return str
		}
		if in.decide(in.tt.Or(groups[str]...)) {
			return str
		}
	}
	in.pathEnd("infeasible")
	return ""
}

// possibleVals lists candidate values of t (constant leaves if it is an ite tree).
func possibleVals(t *Term, n int) []uint64 {
	set := map[uint64]bool{}
	var walk func(t *Term, bud *int) bool
	walk = func(t *Term, bud *int) bool {
		*bud--
		if *bud < 0 {
			return false
		}
		switch t.op {
		case OpConst:
			set[t.c] = true
			return true
		case OpIte:
			return walk(t.a[1], bud) && walk(t.a[2], bud)
		}
		return false
	}
	bud := 4000
	if !walk(t, &bud) {
		r := make([]uint64, n)
		for i := range r {
			r[i] = uint64(i)
		}
		return r
	}
	var r []uint64
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// concStr forces a string to a host string, forking where needed.
func (in *Interp) concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *TStr:
		return in.concTStr(s)
	case *LStr:
		return in.concStr(in.force(s))
	case *SStr:
		var sb strings.Builder
		for _, e := range s.e {
			r := in.concInt(e.r)
			if e.bad {
				sb.WriteByte(byte(r))
			} else {
				sb.WriteRune(rune(r))
			}
		}
		return sb.String()
	}
	unsup("concStr %T", v)
	return ""
}

func isSymStr(v value) bool {
	switch v.(type) {
	case *SStr, *TStr, *LStr:
		return true
	}
	return false
}

// strLen returns the length in bytes.
func (in *Interp) strLen(v value) value {
	switch s := v.(type) {
	case string:
		return int64(len(s))
	case *TStr:
		return in.mapTStr(s, func(x string) uint64 { return uint64(len(x)) }, 64)
	case *LStr:
		return in.strLen(in.force(s))
	case *SStr:
		sum := in.tt.Const(64, 0)
		for _, e := range s.e {
			sum = in.tt.Bin(OpAdd, sum, in.elemLen(e))
		}
		return in.termVal(sum)
	}
	unsup("len of %T", v)
	return nil
}

// mapTStr maps a table string to an integer term.
func (in *Interp) mapTStr(s *TStr, f func(string) uint64, w uint8) value {
	t := in.simp(s.idx)
	if t.isConst() {
		return in.termVal(in.tt.Const(w, f(s.tab[t.c])))
	}
	bud := 4000
	if constLeaves(t, &bud) {
		return in.termVal(in.tt.mapIte(t, func(x *Term) *Term { return in.tt.Const(w, f(s.tab[x.c])) }))
	}
	// group by value
	groups := map[uint64][]*Term{}
	var order []uint64
	for i, str := range s.tab {
		v := f(str)
		if _, ok := groups[v]; !ok {
			order = append(order, v)
		}
		groups[v] = append(groups[v], in.tt.Eq(t, in.tt.Const(t.w, uint64(i))))
	}
	r := in.tt.Const(w, order[len(order)-1])
	for i := len(order) - 2; i >= 0; i-- {
		r = in.tt.Ite(in.tt.Or(groups[order[i]]...), in.tt.Const(w, order[i]), r)
	}
	return in.termVal(r)
}

// termVal turns constant terms into host values (64-bit ints, bools).
// Signedness for narrower widths is the caller's concern.
func (in *Interp) termVal(t *Term) value {
	if t.isConst() {
		if t.w == 0 {
			return t.c == 1
		}
		return int64(t.c)
	}
	return t
}

// termInt is termVal for an integer of static type ty.
func (in *Interp) termInt(t *Term, ty types.Type) value {
	if t.isConst() {
		if t.w == 0 {
			return t.c == 1
		}
		if isSigned(ty) {
			return sext64(t.c, t.w)
		}
		return int64(t.c)
	}
	return t
}

// toTerm lifts an integer or boolean value.
func (in *Interp) toTerm(v value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		return in.tt.Const(w, uint64(v))
	case bool:
		return in.tt.Bool(v)
	}
	unsup("toTerm %T", v)
	return nil
}

// eqStr compares two strings.
func (in *Interp) eqStr(a, b value) value {
	if l, ok := a.(*LStr); ok {
		a = in.force(l)
	}
	if l, ok := b.(*LStr); ok {
		b = in.force(l)
	}
	if s, ok := a.(string); ok {
		if u, ok := b.(string); ok {
			return s == u
		}
		a, b = b, a
	}
	switch x := a.(type) {
	case *TStr:
		switch y := b.(type) {
		case string:
			return in.termVal(in.tstrEq(x, y))
		case *TStr:
			if x.idx == y.idx && sameTab(x.tab, y.tab) {
				return true
			}
			var ors []*Term
			done := map[string]bool{}
			inY := map[string]bool{}
			for _, s := range y.tab {
				inY[s] = true
			}
			for _, s := range x.tab {
				if done[s] || !inY[s] {
					continue
				}
				done[s] = true
				ors = append(ors, in.tt.And(in.tstrEq(x, s), in.tstrEq(y, s)))
			}
			return in.termVal(in.tt.Or(ors...))
		case *SStr:
			return in.eqElems(constElems(in.concTStr(x)), y.e)
		}
	case *SStr:
		switch y := b.(type) {
		case *TStr:
			return in.eqElems(x.e, constElems(in.concTStr(y)))
		default:
			return in.eqElems(x.e, in.strElems(b))
		}
	}
	unsup("eqStr %T %T", a, b)
	return nil
}

func sameTab(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (in *Interp) tstrEq(x *TStr, s string) *Term {
	t := in.simp(x.idx)
	if t.isConst() {
		return in.tt.Bool(x.tab[t.c] == s)
	}
	bud := 4000
	if constLeaves(t, &bud) {
		return in.tt.mapIte(t, func(l *Term) *Term { return in.tt.Bool(x.tab[l.c] == s) })
	}
	var ors []*Term
	for i, y := range x.tab {
		if y == s {
			ors = append(ors, in.tt.Eq(t, in.tt.Const(t.w, uint64(i))))
		}
	}
	return in.tt.Or(ors...)
}

func (in *Interp) eqElems(a, b []sElem) value {
	if len(a) != len(b) {
		return false
	}
	var cs []*Term
	for i := range a {
		if a[i].bad != b[i].bad {
			return false
		}
		x, xok := a[i].r.(int64)
		y, yok := b[i].r.(int64)
		if xok && yok {
			if x != y {
				return false
			}
			continue
		}
		w := uint8(32)
		if a[i].bad {
			w = 8
		}
		cs = append(cs, in.tt.Eq(in.toTerm(a[i].r, w), in.toTerm(b[i].r, w)))
	}
	return in.termVal(in.tt.And(cs...))
}

// concatStr concatenates.
func (in *Interp) concatStr(a, b value) value {
	if s, ok := a.(string); ok {
		if u, ok := b.(string); ok {
			return s + u
		}
		if s == "" {
			return b
		}
	}
	if u, ok := b.(string); ok && u == "" {
		return a
	}
	_, al := a.(*LStr)
	_, bl := b.(*LStr)
	if al || bl {
		return &LStr{parts: []value{a, b}, f: func(in *Interp) value {
			x, y := a, b
			if l, ok := x.(*LStr); ok {
				x = in.force(l)
			}
			if l, ok := y.(*LStr); ok {
				y = in.force(l)
			}
			return in.concatStr(x, y)
		}}
	}
	if t, ok := a.(*TStr); ok {
		if u, ok := b.(string); ok {
			return &TStr{t.idx, mapStrs(t.tab, func(s string) string { return s + u })}
		}
	}
	if t, ok := b.(*TStr); ok {
		if u, ok := a.(string); ok {
			return &TStr{t.idx, mapStrs(t.tab, func(s string) string { return u + s })}
		}
	}
	_, at := a.(*TStr)
	_, bt := b.(*TStr)
	if at || bt {
		return &LStr{f: func(in *Interp) value {
			return mkStr(append(append([]sElem{}, in.strElems(a)...), in.strElems(b)...))
		}}
	}
	return mkStr(append(append([]sElem{}, in.strElems(a)...), in.strElems(b)...))
}

func mapStrs(a []string, f func(string) string) []string {
	r := make([]string, len(a))
	for i, s := range a {
		r[i] = f(s)
	}
	return r
}

// splitAt finds the element index at a byte offset (as an int value).
func (in *Interp) splitAt(e []sElem, off value) int {
	switch o := off.(type) {
	case int64:
		sum := in.tt.Const(64, 0)
		k := 0
		for k <= len(e) {
			if sum.isConst() {
				if int64(sum.c) == o {
					return k
				}
				if int64(sum.c) > o {
					unsup("string offset inside a code point")
				}
			} else if in.decide(in.tt.Eq(sum, in.tt.Const(64, uint64(o)))) {
				return k
			}
			if k == len(e) {
				break
			}
			sum = in.tt.Bin(OpAdd, sum, in.elemLen(e[k]))
			sum = in.simp(sum)
			k++
		}
		return -1
	case *Term:
		sums := make([]*Term, len(e)+1)
		sum := in.tt.Const(64, 0)
		for k := 0; k <= len(e); k++ {
			sums[k] = sum
			if sum == o {
				return k
			}
			if k < len(e) {
				sum = in.tt.Bin(OpAdd, sum, in.elemLen(e[k]))
			}
		}
		for k := range sums {
			if in.decide(in.tt.Eq(sums[k], o)) {
				return k
			}
		}
		return -1
	}
	unsup("string offset %T", off)
	return 0
}

// sliceStr implements s[lo:hi].
func (in *Interp) sliceStr(s value, lo, hi value) value {
	if l, ok := s.(*LStr); ok {
		s = in.force(l)
	}
	if t, ok := s.(*TStr); ok {
		li, lok := intOr(lo, 0)
		if lok && hi == nil {
			okAll := true
			for _, x := range t.tab {
				if len(x) < li {
					okAll = false
				}
			}
			if okAll {
				return &TStr{t.idx, mapStrs(t.tab, func(x string) string { return x[li:] })}
			}
		}
		s = in.concTStr(t)
		lo, hi = in.simpVal(lo), in.simpVal(hi)
	}
	if c, ok := s.(string); ok {
		l, lok := intOr(lo, 0)
		h, hok := intOr(hi, len(c))
		if !lok {
			l = int(in.concInt(lo))
		}
		if !hok {
			h = int(in.concInt(hi))
		}
		if l < 0 || h < l || h > len(c) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(c)))
		}
		return c[l:h]
	}
	e := in.strElems(s)
	a, b := 0, len(e)
	if lo != nil {
		a = in.splitAt(e, lo)
	}
	if hi != nil {
		b = in.splitAt(e, hi)
	}
	if a < 0 || b < 0 || a > b {
		in.rtPanic("slice bounds out of range")
	}
	return mkStr(append([]sElem{}, e[a:b]...))
}

func intOr(v value, d int) (int, bool) {
	if v == nil {
		return d, true
	}
	if x, ok := v.(int64); ok {
		return int(x), true
	}
	return 0, false
}

// indexStr implements s[i], a byte.
func (in *Interp) indexStr(s value, i value) value {
	if l, ok := s.(*LStr); ok {
		s = in.force(l)
	}
	switch x := s.(type) {
	case string:
		n := in.boundedIndex(i, len(x))
		return int64(x[n])
	case *TStr:
		if k, ok := i.(int64); ok {
			all := true
			for _, y := range x.tab {
				if int(k) >= len(y) || k < 0 {
					all = false
				}
			}
			if all {
				return in.mapTStr(x, func(y string) uint64 { return uint64(y[k]) }, 8)
			}
		}
		return in.indexStr(in.concTStr(x), in.simpVal(i))
	case *SStr:
		// find the element that holds byte i
		k, ok := i.(int64)
		if !ok {
			// offsets equal to an element boundary are resolved syntactically
			j := in.splitAt(x.e, i)
			if j < 0 || j >= len(x.e) {
				in.rtPanic("index out of range")
			}
			return in.firstByte(x.e[j], 0)
		}
		off := int64(0)
		for _, e := range x.e {
			n := in.concInt(in.termVal(in.simp(in.elemLen(e))))
			if k < off+n {
				return in.firstByte(e, int(k-off))
			}
			off += n
		}
		in.rtPanic("index out of range")
	}
	unsup("indexStr %T", s)
	return nil
}

// firstByte returns byte k of the UTF-8 encoding of an element.
func (in *Interp) firstByte(e sElem, k int) value {
	if e.bad {
		return e.r
	}
	if r, ok := e.r.(int64); ok {
		return int64(string(rune(r))[k])
	}
	r := e.r.(*Term)
	tt := in.tt
	n := in.concInt(in.termVal(in.simp(in.elemLen(e))))
	b := func(shift uint64, m, or uint64) *Term {
		x := tt.Bin(OpLshr, r, tt.Const(32, shift))
		x = tt.Bin(OpBAnd, x, tt.Const(32, m))
		x = tt.Bin(OpBOr, x, tt.Const(32, or))
		return tt.Trunc(x, 8)
	}
	switch {
	case n == 1:
		return in.termVal(tt.Trunc(r, 8))
	case k == 0 && n == 2:
		return in.termVal(b(6, 0x1f, 0xc0))
	case k == 0 && n == 3:
		return in.termVal(b(12, 0xf, 0xe0))
	case k == 0:
		return in.termVal(b(18, 7, 0xf0))
	default:
		return in.termVal(b(uint64(6*(int(n)-1-k)), 0x3f, 0x80))
	}
}

// normRune maps an arbitrary rune value to the scalar value that UTF-8
// encoding it stores.
func (in *Interp) normRune(v value) value {
	switch r := v.(type) {
	case int64:
		if r < 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff) {
			return int64(utf8.RuneError)
		}
		return r
	case *Term:
		r = in.simp(r)
		if r.isConst() {
			return in.normRune(sext64(r.c, 32))
		}
		if in.scalarVar[r] {
			return r
		}
		tt := in.tt
		bad := tt.Or(tt.Bin(OpUlt, tt.Const(32, 0x10ffff), r),
			tt.And(tt.Bin(OpUle, tt.Const(32, 0xd800), r), tt.Bin(OpUle, r, tt.Const(32, 0xdfff))))
		if in.decide(bad) {
			return int64(utf8.RuneError)
		}
		return r
	}
	unsup("normRune %T", v)
	return nil
}

// runeBytes splits nothing; helper for building strings from bytes.
func (in *Interp) bytesToStr(bs []value) value {
	all := true
	for _, b := range bs {
		if _, ok := b.(int64); !ok {
			all = false
		}
	}
	if all {
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(b.(int64))
		}
		return string(buf)
	}
	// UTF-8 decoding by the well-formedness table, deciding each range test
	tt := in.tt
	t := make([]*Term, len(bs))
	for i, b := range bs {
		t[i] = in.simp(in.toTerm(b, 8))
	}
	c8 := func(x uint64) *Term { return tt.Const(8, x) }
	within := func(i int, lo, hi uint64) bool {
		return i < len(t) && in.decide(tt.And(tt.Bin(OpUle, c8(lo), t[i]), tt.Bin(OpUle, t[i], c8(hi))))
	}
	part := func(i int, m uint64, sh uint64) *Term {
		x := tt.Zext(tt.Bin(OpBAnd, t[i], c8(m)), 32)
		return tt.Bin(OpShl, x, tt.Const(32, sh))
	}
	or := func(a, b *Term) *Term { return tt.Bin(OpBOr, a, b) }
	var e []sElem
	emit := func(x *Term) { e = append(e, sElem{in.termInt(in.simp(x), types.Typ[types.Int32]), false}) }
	for i := 0; i < len(t); {
		n := 0
		switch {
		case within(i, 0, 0x7f):
			emit(tt.Zext(t[i], 32))
			n = 1
		case within(i, 0xc2, 0xdf):
			if within(i+1, 0x80, 0xbf) {
				emit(or(part(i, 0x1f, 6), part(i+1, 0x3f, 0)))
				n = 2
			}
		case within(i, 0xe0, 0xef):
			lo, hi := uint64(0x80), uint64(0xbf)
			if in.decide(tt.Eq(t[i], c8(0xe0))) {
				lo = 0xa0
			} else if in.decide(tt.Eq(t[i], c8(0xed))) {
				hi = 0x9f
			}
			if within(i+1, lo, hi) && within(i+2, 0x80, 0xbf) {
				emit(or(or(part(i, 0xf, 12), part(i+1, 0x3f, 6)), part(i+2, 0x3f, 0)))
				n = 3
			}
		case within(i, 0xf0, 0xf4):
			lo, hi := uint64(0x80), uint64(0xbf)
			if in.decide(tt.Eq(t[i], c8(0xf0))) {
				lo = 0x90
			} else if in.decide(tt.Eq(t[i], c8(0xf4))) {
				hi = 0x8f
			}
			if within(i+1, lo, hi) && within(i+2, 0x80, 0xbf) && within(i+3, 0x80, 0xbf) {
				emit(or(or(or(part(i, 7, 18), part(i+1, 0x3f, 12)), part(i+2, 0x3f, 6)), part(i+3, 0x3f, 0)))
				n = 4
			}
		}
		if n == 0 {
			e = append(e, sElem{in.termInt(t[i], types.Typ[types.Uint8]), true})
			n = 1
		}
		i += n
	}
	return mkStr(e)
}

// strBytes converts to bytes.
func (in *Interp) strBytes(s value) []value {
	switch x := s.(type) {
	case string:
		r := make([]value, len(x))
		for i := range r {
			r[i] = int64(x[i])
		}
		return r
	case *SStr:
		var r []value
		for _, e := range x.e {
			n := int(in.concInt(in.termVal(in.simp(in.elemLen(e)))))
			for k := 0; k < n; k++ {
				r = append(r, in.firstByte(e, k))
			}
		}
		return r
	}
	return in.strBytes(in.concStr(s))
}

// mapKey returns a host key for concrete map keys.
func mapKey(k value) (interface{}, bool) {
	switch x := k.(type) {
	case int64, string, bool, float64:
		return x, true
	case *value:
		return x, true
	case *mapV:
		return x, true
	case iface:
		if x.t == nil {
			return "nil-iface", true
		}
		h, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{x.t.String(), h}, true
	case structV:
		var sb strings.Builder
		for _, f := range x {
			h, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return "S" + sb.String(), true
	case arrayV:
		var sb strings.Builder
		for _, f := range x {
			h, ok := mapKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return "A" + sb.String(), true
	}
	return nil, false
}
