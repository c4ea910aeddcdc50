package main

// Hash-consed terms over Bool and fixed-width bit-vectors.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd // n-ary bool
	OpOr  // n-ary bool
	OpEq  // bool result
	OpIte
	OpAdd
	OpSub
	OpMul
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZext
	OpSext
	OpTrunc // extract low bits
	OpMem   // membership of a variable of at most 8 bits in a set
	OpInSet // membership of a BV32 in a named set
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
}

// Term is an immutable hash-consed term. W == 0 means Bool.
type Term struct {
	id   int32
	op   Op
	w    uint8
	c    uint64 // constant value; for Bool 0/1
	name string // variable name / set name
	a    []*Term
	vars []int32 // sorted var ids occurring
	text string  // memoised SMT-LIB text
	def  string  // definition, where the text is a name
	hash uint64  // structural hash, same across tables
	set  *RuneSet
	mem  *bits256 // truth table of an OpMem
}

// bits256 is a truth table over a variable of at most 8 bits.
type bits256 [4]uint64

type memKey struct {
	v int32
	b bits256
}

// all is the table that is true everywhere.
func allBits(v *Term) (b bits256) {
	n := 1 << v.w
	for i := range b {
		switch {
		case n >= 64*(i+1):
			b[i] = ^uint64(0)
		case n > 64*i:
			b[i] = 1<<uint(n-64*i) - 1
		}
	}
	return
}

// bits is the truth table of a boolean over v.
func (tt *TermTable) bits(v, t *Term) (b bits256) {
	switch {
	case t.op == OpMem:
		return *t.mem
	case t.op == OpConst:
		if t.c == 1 {
			return allBits(v)
		}
		return
	case t.op == OpEq && t.a[0] == v && t.a[1].isConst():
		c := t.a[1].c
		b[c>>6] |= 1 << (c & 63)
		return
	}
	for i, x := range tt.table(v, t) {
		if x == 1 {
			b[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	return
}

type termKey struct {
	op         Op
	w          uint8
	c          uint64
	name       string
	a0, a1, a2 int32
}

// TermTable owns the terms of one worker.
type TermTable struct {
	tab   map[termKey]*Term
	nary  map[string]*Term
	n     int32
	vars  map[string]*Term
	byVar []*Term
	tabs  map[*Term][]uint64
	mems  map[memKey]*Term
	tabOf map[*Term]tabRef // ite chains that are table lookups
	True  *Term
	False *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}, nary: map[string]*Term{}, vars: map[string]*Term{}, tabOf: map[*Term]tabRef{}, tabs: map[*Term][]uint64{}, mems: map[memKey]*Term{}}
	tt.True = tt.Const(0, 1)
	tt.False = tt.Const(0, 0)
	return tt
}

func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func strHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func mergeVars(ts []*Term) []int32 {
	var r []int32
	for _, t := range ts {
		if len(t.vars) == 0 {
			continue
		}
		if len(r) == 0 {
			r = t.vars
			continue
		}
		// merge sorted
		if subset(t.vars, r) {
			continue
		}
		m := make([]int32, 0, len(r)+len(t.vars))
		i, j := 0, 0
		for i < len(r) || j < len(t.vars) {
			switch {
			case j >= len(t.vars) || (i < len(r) && r[i] < t.vars[j]):
				m = append(m, r[i])
				i++
			case i >= len(r) || r[i] > t.vars[j]:
				m = append(m, t.vars[j])
				j++
			default:
				m = append(m, r[i])
				i++
				j++
			}
		}
		r = m
	}
	return r
}

func subset(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func (tt *TermTable) fin(t *Term) *Term {
	t.id = tt.n
	tt.n++
	h := mix(uint64(t.op)<<8|uint64(t.w), t.c)
	if t.name != "" {
		h = mix(h, strHash(t.name))
	}
	for _, a := range t.a {
		h = mix(h, a.hash)
	}
	t.hash = h
	if t.op != OpVar {
		t.vars = mergeVars(t.a)
	}
	return t
}

func (tt *TermTable) mk(op Op, w uint8, c uint64, name string, set *RuneSet, a ...*Term) *Term {
	if w == 0 && len(a) > 0 && op != OpMem {
		if v := tt.smallVar(a); v != nil {
			if op == OpEq && a[0] == v && a[1].isConst() {
				return tt.mkRaw(op, w, c, name, set, a...)
			}
			if op == OpNot || op == OpAnd || op == OpOr {
				return tt.memBits(v, tt.joinBits(op, v, a))
			}
			if op == OpIte {
				c, x, y := tt.bits(v, a[0]), tt.bits(v, a[1]), tt.bits(v, a[2])
				for i := range c {
					x[i] = c[i]&x[i] | y[i]&^c[i]
				}
				return tt.memBits(v, x)
			}
			return tt.memOf(v, tt.combine(op, 0, set, v, a))
		}
	}
	return tt.mkRaw(op, w, c, name, set, a...)
}

// smallVar is the only variable of the terms if it has at most 8 bits.
func (tt *TermTable) smallVar(a []*Term) *Term {
	var id int32 = -1
	for _, x := range a {
		switch len(x.vars) {
		case 0:
		case 1:
			if id >= 0 && x.vars[0] != id {
				return nil
			}
			id = x.vars[0]
		default:
			return nil
		}
	}
	if id < 0 {
		return nil
	}
	if v := tt.byVar[id]; v.w >= 1 && v.w <= 8 {
		return v
	}
	return nil
}

// table is the value of a term over one small variable for each value of it.
func (tt *TermTable) table(v, t *Term) []uint64 {
	if r, ok := tt.tabs[t]; ok {
		return r
	}
	n := 1 << v.w
	var r []uint64
	switch t.op {
	case OpConst:
		r = make([]uint64, n)
		for i := range r {
			r[i] = t.c
		}
		return r // shared between variables
	case OpVar:
		r = make([]uint64, n)
		for i := range r {
			r[i] = uint64(i)
		}
	case OpMem:
		r = make([]uint64, n)
		for i := range r {
			r[i] = uint64(t.name[i>>3]>>(uint(i)&7)) & 1
		}
	default:
		r = tt.combine(t.op, t.w, t.set, v, t.a)
	}
	tt.tabs[t] = r
	return r
}

func (tt *TermTable) combine(op Op, w uint8, set *RuneSet, v *Term, a []*Term) []uint64 {
	n := 1 << v.w
	ts := make([][]uint64, len(a))
	for i, x := range a {
		ts[i] = tt.table(v, x)
	}
	r := make([]uint64, n)
	for i := range r {
		switch op {
		case OpNot:
			r[i] = 1 - ts[0][i]
		case OpAnd:
			r[i] = 1
			for _, x := range ts {
				r[i] &= x[i]
			}
		case OpOr:
			for _, x := range ts {
				r[i] |= x[i]
			}
		case OpEq:
			r[i] = b2u(ts[0][i] == ts[1][i])
		case OpIte:
			if ts[0][i] == 1 {
				r[i] = ts[1][i]
			} else {
				r[i] = ts[2][i]
			}
		case OpZext:
			r[i] = ts[0][i]
		case OpSext:
			r[i] = uint64(sext64(ts[0][i], a[0].w)) & mask(w)
		case OpTrunc:
			r[i] = ts[0][i] & mask(w)
		case OpInSet:
			r[i] = b2u(set.has(uint32(ts[0][i])))
		default:
			x, ok := evalBin(op, a[0].w, ts[0][i], ts[1][i])
			if !ok {
				if op == OpSrem {
					x = ts[0][i]
				} else if sext64(ts[0][i], w) < 0 {
					x = 1
				} else {
					x = mask(w)
				}
			}
			r[i] = x
		}
	}
	return r
}

// joinBits combines truth tables.
func (tt *TermTable) joinBits(op Op, v *Term, a []*Term) bits256 {
	b := tt.bits(v, a[0])
	if op == OpNot {
		all := allBits(v)
		for i := range b {
			b[i] = all[i] &^ b[i]
		}
		return b
	}
	for _, x := range a[1:] {
		c := tt.bits(v, x)
		for i := range b {
			if op == OpAnd {
				b[i] &= c[i]
			} else {
				b[i] |= c[i]
			}
		}
	}
	return b
}

// memOf is the canonical form of a truth table over a small variable.
func (tt *TermTable) memOf(v *Term, tab []uint64) *Term {
	var b bits256
	for i, x := range tab {
		if x == 1 {
			b[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	return tt.memBits(v, b)
}

func (tt *TermTable) memBits(v *Term, b bits256) *Term {
	k := memKey{v.vars[0], b}
	if t, ok := tt.mems[k]; ok {
		return t
	}
	n := 0
	last := 0
	for i, w := range b {
		n += bits.OnesCount64(w)
		if w != 0 {
			last = 64*i + bits.TrailingZeros64(w)
		}
	}
	var t *Term
	switch n {
	case 0:
		t = tt.False
	case 1 << v.w:
		t = tt.True
	case 1:
		t = tt.mkRaw(OpEq, 0, 0, "", nil, v, tt.Const(v.w, uint64(last)))
	default:
		bs := make([]byte, 32)
		for i := range bs {
			bs[i] = byte(b[i>>3] >> (8 * uint(i&7)))
		}
		t = tt.mkRaw(OpMem, 0, 0, string(bs), nil, v)
		t.mem = &b
	}
	tt.mems[k] = t
	return t
}

func memSMT(t *Term) string {
	v := t.a[0]
	var parts []string
	n := 1 << v.w
	bit := func(i int) bool { return i < n && t.name[i>>3]>>(uint(i)&7)&1 == 1 }
	for i := 0; i < n; i++ {
		if !bit(i) {
			continue
		}
		j := i
		for bit(j + 1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d %d))", v.SMT(), i, v.w))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d)))", i, v.w, v.SMT(), v.SMT(), j, v.w))
		}
		i = j
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func (tt *TermTable) mkRaw(op Op, w uint8, c uint64, name string, set *RuneSet, a ...*Term) *Term {
	if len(a) > 3 || op == OpAnd || op == OpOr {
		var sb strings.Builder
		sb.WriteByte(byte(op))
		for _, x := range a {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
		k := sb.String()
		if t, ok := tt.nary[k]; ok {
			return t
		}
		t := tt.fin(&Term{op: op, w: w, a: append([]*Term(nil), a...)})
		tt.nary[k] = t
		return t
	}
	k := termKey{op: op, w: w, c: c, name: name, a0: -1, a1: -1, a2: -1}
	switch len(a) {
	case 3:
		k.a2 = a[2].id
		fallthrough
	case 2:
		k.a1 = a[1].id
		fallthrough
	case 1:
		k.a0 = a[0].id
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := tt.fin(&Term{op: op, w: w, c: c, name: name, set: set, a: append([]*Term(nil), a...)})
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	return tt.mk(OpConst, w, v, "", nil)
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TermTable) Var(name string, w uint8) *Term {
	if t, ok := tt.vars[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := tt.fin(&Term{op: OpVar, w: w, name: name})
	t.vars = []int32{int32(len(tt.byVar))}
	tt.byVar = append(tt.byVar, t)
	tt.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.c == 0 }

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.c == 0)
	case OpNot:
		return a.a[0]
	}
	return tt.mk(OpNot, 0, 0, "", nil, a)
}

func (tt *TermTable) And(xs ...*Term) *Term { return tt.naryBool(OpAnd, xs) }
func (tt *TermTable) Or(xs ...*Term) *Term  { return tt.naryBool(OpOr, xs) }

func (tt *TermTable) naryBool(op Op, xs []*Term) *Term {
	// unit: neutral element; zero: absorbing element
	unit, zero := tt.True, tt.False
	if op == OpOr {
		unit, zero = tt.False, tt.True
	}
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if x.op == OpNot && seen[x.a[0]] {
			return false
		}
		if seen[tt.Not(x)] {
			return false
		}
		seen[x] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(flat) > 1 {
		flat = tt.joinMems(op, flat)
		for _, x := range flat {
			if x == zero {
				return zero
			}
		}
	}
	switch len(flat) {
	case 0:
		return unit
	case 1:
		return flat[0]
	}
	// order independent of creation order so that hashes agree across workers
	sort.Slice(flat, func(i, j int) bool { return flat[i].hash < flat[j].hash })
	return tt.mk(op, 0, 0, "", nil, flat...)
}

// joinMems combines the parts that have the same small variable only.
func (tt *TermTable) joinMems(op Op, flat []*Term) []*Term {
	byVar := map[int32][]*Term{}
	dup := false
	for _, x := range flat {
		if len(x.vars) == 1 {
			if v := tt.byVar[x.vars[0]]; v.w >= 1 && v.w <= 8 {
				byVar[x.vars[0]] = append(byVar[x.vars[0]], x)
				if len(byVar[x.vars[0]]) > 1 {
					dup = true
				}
			}
		}
	}
	if !dup {
		return flat
	}
	var out []*Term
	for _, x := range flat {
		if len(x.vars) == 1 {
			id := x.vars[0]
			if g, ok := byVar[id]; ok {
				if len(g) == 1 {
					out = append(out, x)
				} else if g != nil {
					v := tt.byVar[id]
					r := tt.memBits(v, tt.joinBits(op, v, g))
					byVar[id] = []*Term{}
					if !(op == OpAnd && r == tt.True || op == OpOr && r == tt.False) {
						out = append(out, r)
					}
					byVar[id] = nil
				}
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	if c.op == OpNot {
		return tt.Ite(c.a[0], b, a)
	}
	return tt.mk(OpIte, a.w, 0, "", nil, c, a, b)
}

// constLeaves reports whether t is an ite tree whose leaves are all constants.
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	switch t.op {
	case OpConst:
		return true
	case OpIte:
		return constLeaves(t.a[1], budget) && constLeaves(t.a[2], budget)
	}
	return false
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a.String(), b.String()))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.c == 1 {
				return a
			}
			return tt.Not(a)
		}
		if a.op == OpIte {
			if v := tt.smallVar([]*Term{a}); v != nil {
				var m bits256
				for i, x := range tt.table(v, a) {
					if x == b.c {
						m[i>>6] |= 1 << (uint(i) & 63)
					}
				}
				return tt.memBits(v, m)
			}
		}
		switch a.op {
		case OpIte:
			if r, ok := tt.tabOf[a]; ok {
				var ors []*Term
				for i, v := range r.tab {
					if v == b.c {
						ors = append(ors, tt.Eq(r.idx, tt.Const(r.idx.w, uint64(i))))
					}
				}
				return tt.Or(ors...)
			}
			bud := 600
			if constLeaves(a, &bud) {
				return tt.eqIte(a, b)
			}
			if a.a[1].isConst() || a.a[2].isConst() {
				return tt.Ite(a.a[0], tt.Eq(a.a[1], b), tt.Eq(a.a[2], b))
			}
		case OpZext:
			x := a.a[0]
			if b.c > mask(x.w) {
				return tt.False
			}
			return tt.Eq(x, tt.Const(x.w, b.c))
		case OpSext:
			x := a.a[0]
			lo := tt.Const(x.w, b.c)
			if uint64(sext64(lo.c, x.w))&mask(a.w) != b.c {
				return tt.False
			}
			return tt.Eq(x, lo)
		case OpAdd:
			if a.a[1].isConst() {
				return tt.Eq(a.a[0], tt.Const(a.w, b.c-a.a[1].c))
			}
		}
	} else if a.hash > b.hash {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, "", nil, a, b)
}

// tabRef says that a term is tab[idx].
type tabRef struct {
	idx *Term
	tab []uint64
}

func (tt *TermTable) eqIte(a, k *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.c == k.c)
	}
	return tt.Ite(a.a[0], tt.eqIte(a.a[1], k), tt.eqIte(a.a[2], k))
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		if y == 0 {
			return 0, false
		}
		if y == m { // -1
			return (-x) & m, true
		}
		return uint64(sext64(x, w)/sext64(y, w)) & m, true
	case OpSrem:
		if y == 0 {
			return 0, false
		}
		if y == m {
			return 0, true
		}
		return uint64(sext64(x, w)%sext64(y, w)) & m, true
	case OpUlt:
		return b2u(x < y), true
	case OpUle:
		return b2u(x <= y), true
	case OpSlt:
		return b2u(sext64(x, w) < sext64(y, w)), true
	case OpSle:
		return b2u(sext64(x, w) <= sext64(y, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op == OpUlt || op == OpUle || op == OpSlt || op == OpSle }

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	rw := a.w
	if isCmp(op) {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, a.w, a.c, b.c); ok {
			return tt.Const(rw, v)
		}
	}
	// push operation with a constant through constant-leaf ites
	if b.isConst() && a.op == OpIte {
		bud := 400
		if constLeaves(a, &bud) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.Bin(op, x, b) })
		}
	}
	if a.isConst() && b.op == OpIte {
		bud := 400
		if constLeaves(b, &bud) {
			return tt.mapIte(b, func(x *Term) *Term { return tt.Bin(op, a, x) })
		}
	}
	switch op {
	case OpAdd:
		return tt.linear(a, b, false)
	case OpSub:
		return tt.linear(a, b, true)
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return b
		}
		if b.isConst() && b.c == mask(a.w) {
			return a
		}
		if a == b {
			return a
		}
	case OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if a.isConst() && a.c == 0 && op != OpBOr && op != OpBXor {
			return a
		}
		if a.isConst() && a.c == 0 {
			return b
		}
	case OpUlt, OpSlt:
		if a == b {
			return tt.False
		}
	case OpUle, OpSle:
		if a == b {
			return tt.True
		}
	}
	// comparisons of extended values with constants
	if isCmp(op) {
		if a.op == OpZext && b.isConst() {
			x := a.a[0]
			bs := sext64(b.c, b.w)
			signed := op == OpSlt || op == OpSle
			if signed && bs < 0 {
				return tt.False
			}
			if b.c > mask(x.w) {
				return tt.True
			}
			u := OpUlt
			if op == OpUle || op == OpSle {
				u = OpUle
			}
			return tt.Bin(u, x, tt.Const(x.w, b.c))
		}
		if b.op == OpZext && a.isConst() {
			x := b.a[0]
			as := sext64(a.c, a.w)
			signed := op == OpSlt || op == OpSle
			if signed && as < 0 {
				return tt.True
			}
			if a.c > mask(x.w) {
				return tt.False
			}
			u := OpUlt
			if op == OpUle || op == OpSle {
				u = OpUle
			}
			return tt.Bin(u, tt.Const(x.w, a.c), x)
		}
		if (op == OpSlt || op == OpSle) && a.op == OpSext && b.isConst() {
			x := a.a[0]
			bs := sext64(b.c, b.w)
			lo, hi := -(int64(1) << (x.w - 1)), int64(1)<<(x.w-1)-1
			if bs > hi {
				return tt.True
			}
			if bs < lo {
				return tt.False
			}
			return tt.Bin(op, x, tt.Const(x.w, uint64(bs)))
		}
		if (op == OpSlt || op == OpSle) && b.op == OpSext && a.isConst() {
			x := b.a[0]
			as := sext64(a.c, a.w)
			lo, hi := -(int64(1) << (x.w - 1)), int64(1)<<(x.w-1)-1
			if as > hi {
				return tt.False
			}
			if as < lo {
				return tt.True
			}
			return tt.Bin(op, tt.Const(x.w, uint64(as)), x)
		}
	}
	return tt.mk(op, rw, 0, "", nil, a, b)
}

func (tt *TermTable) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.isConst() {
		return f(t)
	}
	return tt.Ite(t.a[0], tt.mapIte(t.a[1], f), tt.mapIte(t.a[2], f))
}

// linear normalises sums: sorted addends with coefficients folded, constant last.
func (tt *TermTable) linear(a, b *Term, sub bool) *Term {
	w := a.w
	coef := map[*Term]uint64{}
	var order []*Term
	var k uint64
	var add func(t *Term, c uint64)
	add = func(t *Term, c uint64) {
		switch {
		case t.isConst():
			k += c * t.c
		case t.op == OpAdd:
			add(t.a[0], c)
			add(t.a[1], c)
		case t.op == OpMul && t.a[1].isConst():
			add(t.a[0], c*t.a[1].c)
		default:
			if _, ok := coef[t]; !ok {
				order = append(order, t)
			}
			coef[t] += c
		}
	}
	add(a, 1)
	if sub {
		add(b, ^uint64(0))
	} else {
		add(b, 1)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].hash < order[j].hash })
	var r *Term
	for _, t := range order {
		c := coef[t] & mask(w)
		if c == 0 {
			continue
		}
		x := t
		if c != 1 {
			x = tt.mk(OpMul, w, 0, "", nil, t, tt.Const(w, c))
		}
		if r == nil {
			r = x
		} else {
			r = tt.mk(OpAdd, w, 0, "", nil, r, x)
		}
	}
	k &= mask(w)
	if r == nil {
		return tt.Const(w, k)
	}
	if k != 0 {
		r = tt.mk(OpAdd, w, 0, "", nil, r, tt.Const(w, k))
	}
	return r
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.c)
	}
	if a.op == OpIte {
		bud := 400
		if constLeaves(a, &bud) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.Zext(x, w) })
		}
	}
	if a.op == OpZext {
		return tt.Zext(a.a[0], w)
	}
	return tt.mk(OpZext, w, 0, "", nil, a)
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, uint64(sext64(a.c, a.w)))
	}
	if a.op == OpIte {
		bud := 400
		if constLeaves(a, &bud) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.Sext(x, w) })
		}
	}
	if a.op == OpZext {
		return tt.Zext(a.a[0], w)
	}
	return tt.mk(OpSext, w, 0, "", nil, a)
}

func (tt *TermTable) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(w, a.c)
	}
	if a.op == OpIte {
		bud := 400
		if constLeaves(a, &bud) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.Trunc(x, w) })
		}
	}
	if a.op == OpZext || a.op == OpSext {
		x := a.a[0]
		if x.w == w {
			return x
		}
		if x.w > w {
			return tt.Trunc(x, w)
		}
		if a.op == OpZext {
			return tt.Zext(x, w)
		}
		return tt.Sext(x, w)
	}
	if a.op == OpTrunc {
		return tt.Trunc(a.a[0], w)
	}
	return tt.mk(OpTrunc, w, 0, "", nil, a)
}

// RuneSet is a named set of code points.
type RuneSet struct {
	name string
	r    [][2]uint32 // sorted disjoint inclusive ranges
}

func (s *RuneSet) has(v uint32) bool {
	i := sort.Search(len(s.r), func(i int) bool { return s.r[i][1] >= v })
	return i < len(s.r) && s.r[i][0] <= v
}

func (s *RuneSet) smt() string {
	// balanced decision tree over sorted ranges keeps the definition logarithmic in depth
	var tree func(lo, hi int) string
	tree = func(lo, hi int) string {
		if lo >= hi {
			return "false"
		}
		if hi-lo == 1 {
			a, b := s.r[lo][0], s.r[lo][1]
			if a == b {
				return fmt.Sprintf("(= r #x%08x)", a)
			}
			return fmt.Sprintf("(and (bvule #x%08x r) (bvule r #x%08x))", a, b)
		}
		m := (lo + hi) / 2
		return fmt.Sprintf("(ite (bvult r #x%08x) %s %s)", s.r[m][0], tree(lo, m), tree(m, hi))
	}
	return fmt.Sprintf("(define-fun %s ((r (_ BitVec 32))) Bool %s)", s.name, tree(0, len(s.r)))
}

func (tt *TermTable) InSet(a *Term, s *RuneSet) *Term {
	if len(s.r) == 0 {
		return tt.False
	}
	if a.isConst() {
		return tt.Bool(s.has(uint32(a.c)))
	}
	if a.op == OpIte {
		bud := 400
		if constLeaves(a, &bud) {
			return tt.mapIte(a, func(x *Term) *Term { return tt.Bool(s.has(uint32(x.c))) })
		}
	}
	if len(s.r) <= 4 {
		var ors []*Term
		for _, x := range s.r {
			if x[0] == x[1] {
				ors = append(ors, tt.Eq(a, tt.Const(32, uint64(x[0]))))
			} else {
				ors = append(ors, tt.And(tt.Bin(OpUle, tt.Const(32, uint64(x[0])), a), tt.Bin(OpUle, a, tt.Const(32, uint64(x[1])))))
			}
		}
		return tt.Or(ors...)
	}
	return tt.mk(OpInSet, 0, 0, s.name, s, a)
}

// Subst rebuilds t with variables replaced by their bound constants.
func (tt *TermTable) Subst(t *Term, bind map[int32]*Term, memo map[*Term]*Term) *Term {
	if len(t.vars) == 0 {
		return t
	}
	hit := false
	for _, v := range t.vars {
		if _, ok := bind[v]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.op == OpVar {
		return bind[t.vars[0]]
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.a))
	for i, x := range t.a {
		na[i] = tt.Subst(x, bind, memo)
	}
	r := tt.rebuild(t, na)
	memo[t] = r
	return r
}

func (tt *TermTable) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OpNot:
		return tt.Not(na[0])
	case OpAnd, OpOr:
		return tt.naryBool(t.op, na)
	case OpEq:
		return tt.Eq(na[0], na[1])
	case OpIte:
		return tt.Ite(na[0], na[1], na[2])
	case OpZext:
		return tt.Zext(na[0], t.w)
	case OpSext:
		return tt.Sext(na[0], t.w)
	case OpTrunc:
		return tt.Trunc(na[0], t.w)
	case OpInSet:
		return tt.InSet(na[0], t.set)
	case OpMem:
		if na[0].isConst() {
			i := na[0].c
			return tt.Bool(t.name[i>>3]>>(i&7)&1 == 1)
		}
		return tt.memBits(na[0], *t.mem)
	default:
		return tt.Bin(t.op, na[0], na[1])
	}
}

// Eval evaluates t under a full assignment (missing variables read as 0).
func (t *Term) Eval(m map[string]uint64) uint64 {
	memo := map[*Term]uint64{}
	var ev func(t *Term) uint64
	ev = func(t *Term) uint64 {
		if t.op == OpConst {
			return t.c
		}
		if t.op == OpVar {
			if t.w == 0 {
				return m[t.name] & 1
			}
			return m[t.name] & mask(t.w)
		}
		if v, ok := memo[t]; ok {
			return v
		}
		var r uint64
		switch t.op {
		case OpNot:
			r = 1 - ev(t.a[0])
		case OpAnd:
			r = 1
			for _, x := range t.a {
				if ev(x) == 0 {
					r = 0
					break
				}
			}
		case OpOr:
			for _, x := range t.a {
				if ev(x) == 1 {
					r = 1
					break
				}
			}
		case OpEq:
			r = b2u(ev(t.a[0]) == ev(t.a[1]))
		case OpIte:
			if ev(t.a[0]) == 1 {
				r = ev(t.a[1])
			} else {
				r = ev(t.a[2])
			}
		case OpZext:
			r = ev(t.a[0])
		case OpSext:
			r = uint64(sext64(ev(t.a[0]), t.a[0].w)) & mask(t.w)
		case OpTrunc:
			r = ev(t.a[0]) & mask(t.w)
		case OpInSet:
			r = b2u(t.set.has(uint32(ev(t.a[0]))))
		case OpMem:
			i := ev(t.a[0])
			r = uint64(t.name[i>>3]>>(i&7)) & 1
		default:
			x, y := ev(t.a[0]), ev(t.a[1])
			v, ok := evalBin(t.op, t.a[0].w, x, y)
			if !ok {
				// SMT-LIB division by zero semantics
				switch t.op {
				case OpSdiv:
					if sext64(x, t.w) < 0 {
						v = 1
					} else {
						v = mask(t.w)
					}
				case OpSrem:
					v = x
				}
			}
			r = v
		}
		memo[t] = r
		return r
	}
	return ev(t)
}

func (t *Term) String() string { return t.SMT() }

// SMT renders the term as SMT-LIB text.
func (t *Term) SMT() string {
	if t.text != "" {
		return t.text
	}
	var s string
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c == 1 {
				s = "true"
			} else {
				s = "false"
			}
		} else {
			s = fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
		}
	case OpVar:
		s = "|" + t.name + "|"
	case OpZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].SMT())
	case OpSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].SMT())
	case OpTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a[0].SMT())
	case OpInSet:
		s = fmt.Sprintf("(%s %s)", t.name, t.a[0].SMT())
	case OpMem:
		s = memSMT(t)
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opName[t.op])
		for _, x := range t.a {
			sb.WriteByte(' ')
			sb.WriteString(x.SMT())
		}
		sb.WriteByte(')')
		s = sb.String()
	}
	if len(s) > 300 && t.op != OpMem {
		// shared terms are printed once
		t.def = s
		s = fmt.Sprintf("|!%d|", t.id)
	}
	t.text = s
	return s
}

// defText writes the definitions of the names in the texts of terms.
func defText(ts []*Term, out *strings.Builder) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.vars) == 0 {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			walk(x)
		}
		if t.def != "" {
			if t.w == 0 {
				fmt.Fprintf(out, "(define-fun %s () Bool %s)\n", t.text, t.def)
			} else {
				fmt.Fprintf(out, "(define-fun %s () (_ BitVec %d) %s)\n", t.text, t.w, t.def)
			}
		}
	}
	for _, t := range ts {
		t.SMT()
		walk(t)
	}
}

// collectSets adds all rune sets used by t.
func collectSets(t *Term, seen map[*Term]bool, out map[string]*RuneSet) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpInSet {
		out[t.name] = t.set
	}
	for _, x := range t.a {
		collectSets(x, seen, out)
	}
}

var _ = bits.Len

// isTab records that t is tab[idx].
func (tt *TermTable) isTab(t, idx *Term, tab []uint64) {
	tt.tabOf[t] = tabRef{idx: idx, tab: tab}
	if idx.op == OpVar && idx.w <= 8 && idx.w >= 1 {
		r := make([]uint64, 1<<idx.w)
		for i := range r {
			if i < len(tab) {
				r[i] = tab[i] & mask(t.w)
			} else {
				r[i] = tab[len(tab)-1] & mask(t.w)
			}
		}
		tt.tabs[t] = r
	}
}
