package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type choice struct {
	taken bool
	val   uint64 // for concretisation choices
	conc  bool
}

type undoRec struct {
	p   *value
	old value
	f   func()
}

// Interp executes one path at a time; each worker has one.
type Interp struct {
	eng    *Engine
	tt     *TermTable
	solver *Solver

	globals   map[*ssa.Global]*value
	fns       map[*ssa.Function]*fnInfo
	inited    map[*ssa.Package]int
	methods   map[methKey]*ssa.Function
	undo      []undoRec
	compiling bool
	pendInit  []*ssa.Package
	inInit    int
	tabMemo   map[string]*tabRes
	mergeCond *Term // branch conditions of the merges under way
	pureEv    int   // > 0 while evaluating a pure function by merging

	// path state
	prefix   []choice
	pos      int
	trace    []choice
	pc       []*Term
	bind     map[int32]*Term
	simpMemo map[*Term]*Term
	steps    int64
	maxSteps int64
	depth    int
	maxDepth int
	vars     []*Term // harness variables in creation order
	varSet   map[*Term]bool
	varKind  map[string]string
	reached  map[string]bool
	domPC    map[int32]int    // conjunct of a small variable
	tokLex   map[*value]value // lexers replaced by harness token sources
	stdout   []value
	stdCells [3]*value // os.Stdin, os.Stdout, os.Stderr
	notes    []string

	scalarVar map[*Term]bool
	anonMemo  map[*Term]uint64
	mergeMemo map[string]value
	mergeFail map[*ssa.Function]int
	sets      map[interface{}]*RuneSet
	curFn     *ssa.Function
	rtypes    *typeutil.Map
	implMemo  map[implKey]bool
	sizesMemo map[*Term]*Term
	pathQ     int
	varCount  map[string]int
	exitCode  *int
	hostState map[interface{}]interface{}
	rawFns    map[*ssa.Function]*fnInfo
}

type implKey struct {
	t types.Type
	i types.Type
}

type methKey struct {
	t types.Type
	m *types.Func
}

type pathEnd struct{ why string }

func (in *Interp) pathEnd(why string) { panic(pathEnd{why}) }

type opd struct {
	slot int // >= 0: environment slot
	v    value
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opd
	pos token.Pos
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []*ssa.Phi
	pdst  []int
	pops  [][]opd // per phi, per edge
	ins   []cinstr
	succs []int
	// pure: non-phi instructions have no side effects and cannot panic
	pure     bool
	pureJump int // successor if pure and ends in a jump, else -1
	pureIf   bool
}

type fnInfo struct {
	fn      *ssa.Function
	nslots  int
	slots   map[ssa.Value]int
	blocks  []*cblock
	hasDef  bool
	intr    intrinsic
	pureM   int8 // 0 unknown, 1 mergeable, 2 not
	constFn bool // result depends on arguments only
	user    bool
	allocs  []int
	inline  bool
}

type intrinsic func(in *Interp, fr *frame, args []value) value

type deferred struct {
	fn   value
	args []value
	meth *types.Func
	recv value
	next *deferred
}

type frame struct {
	in        *Interp
	fi        *fnInfo
	env       []value
	caller    *frame
	defers    *deferred
	result    value
	panicking bool
	panicV    targetPanic
	deferOf   *frame // the frame whose deferred call this is
}

// ---- memory ----

func (in *Interp) store(p *value, v value) {
	if in.inInit == 0 {
		in.undo = append(in.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (in *Interp) logf(f func()) {
	if in.inInit == 0 {
		in.undo = append(in.undo, undoRec{f: f})
	}
}

func (in *Interp) rollback(n int) {
	for i := len(in.undo) - 1; i >= n; i-- {
		u := &in.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoRec{}
	}
	in.undo = in.undo[:n]
}

// ---- path condition ----

// simp applies the variable bindings of the path.
func (in *Interp) simp(t *Term) *Term {
	if len(in.bind) == 0 || len(t.vars) == 0 || in.pureEv > 0 {
		return t
	}
	if r, ok := in.simpMemo[t]; ok {
		return r
	}
	r := in.tt.Subst(t, in.bind, in.simpMemo)
	return r
}

func (in *Interp) simpVal(v value) value {
	if t, ok := v.(*Term); ok {
		return in.termVal(in.simp(t))
	}
	return v
}

// simpInt simplifies an integer value of type ty.
func (in *Interp) simpInt(v value, ty types.Type) value {
	if t, ok := v.(*Term); ok {
		return in.termInt(in.simp(t), ty)
	}
	return v
}

func (in *Interp) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OpAnd {
		for _, x := range c.a {
			in.addPC(x)
		}
		return
	}
	if len(c.vars) == 1 && c.op != OpEq {
		if v := in.tt.byVar[c.vars[0]]; v.w >= 1 && v.w <= 8 {
			// keep one conjunct per small variable
			id := c.vars[0]
			if i, ok := in.domPC[id]; ok {
				c = in.tt.And(in.pc[i], c)
				in.pc[i] = c
				in.learn(c)
				return
			}
			in.domPC[id] = len(in.pc)
		}
	}
	in.pc = append(in.pc, c)
	in.learn(c)
}

func (in *Interp) learn(c *Term) {
	switch {
	case c.op == OpEq && c.a[1].isConst() && c.a[0].op == OpVar:
		in.setBind(c.a[0], c.a[1])
	case c.op == OpEq && c.a[0].isConst() && c.a[1].op == OpVar:
		in.setBind(c.a[1], c.a[0])
	case c.op == OpVar && c.w == 0:
		in.setBind(c, in.tt.True)
	case c.op == OpNot && c.a[0].op == OpVar:
		in.setBind(c.a[0], in.tt.False)
	}
}

func (in *Interp) setBind(v, k *Term) {
	if _, ok := in.bind[v.vars[0]]; ok {
		return
	}
	in.bind[v.vars[0]] = k
	in.simpMemo = map[*Term]*Term{}
}

// component returns the conjuncts of the path condition that share variables
// (transitively) with c, plus c itself.
func (in *Interp) component(c *Term) (conj []*Term, vars []int32) {
	vars = c.vars
	used := make([]bool, len(in.pc))
	for {
		changed := false
		for i, p := range in.pc {
			if used[i] || len(p.vars) == 0 {
				continue
			}
			if intersects(p.vars, vars) {
				used[i] = true
				changed = true
				if !subset(p.vars, vars) {
					vars = mergeVars([]*Term{{vars: vars}, p})
				}
			}
		}
		if !changed {
			break
		}
	}
	for i, p := range in.pc {
		if used[i] {
			conj = append(conj, p)
		}
	}
	conj = append(conj, c)
	return
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			return true
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return false
}

// satisfiable asks whether the path condition together with c is satisfiable.
func (in *Interp) satisfiable(c *Term) satRes {
	c = in.simp(c)
	if c.isConst() {
		if c.c == 1 {
			return sat
		}
		return unsat
	}
	conj, vars := in.component(c)
	if len(vars) == 1 && in.tt.smallVar(conj) != nil {
		a := in.tt.And(conj...)
		if a.isFalse() {
			return unsat
		}
		conj = []*Term{a}
	}
	key := queryKey(conj, len(vars) == 1, in.anonMemo)
	if r, ok := in.eng.cache.get(key); ok {
		in.eng.addCacheHit()
		return r
	}
	var vt *Term
	if len(vars) == 1 {
		vt = oneVar(c)
		if vt != nil && in.eng.pool.try(conj, vt) {
			in.eng.cache.put(key, sat)
			in.eng.addCacheHit()
			return sat
		}
	}
	var m map[string]uint64
	var vs []*Term
	if vt != nil {
		m = map[string]uint64{}
		vs = []*Term{vt}
	}
	r := in.solver.Check(conj, m, vs)
	if r == sat && vt != nil {
		in.eng.pool.add(vt.w, m[vt.name])
	}
	if r != unknown {
		in.eng.cache.put(key, r)
	}
	return r
}

// oneVar finds the variable of a term over a single variable.
func oneVar(t *Term) *Term {
	for t.op != OpVar {
		next := (*Term)(nil)
		for _, a := range t.a {
			if len(a.vars) > 0 {
				next = a
				break
			}
		}
		if next == nil {
			return nil
		}
		t = next
	}
	return t
}

// modelPool keeps values from the solver's earlier models of single-variable
// queries; a later query that one of them satisfies needs no solver call.
type modelPool struct {
	sync.RWMutex
	vals map[uint8][]uint64
}

func (p *modelPool) add(w uint8, v uint64) {
	p.Lock()
	defer p.Unlock()
	if p.vals == nil {
		p.vals = map[uint8][]uint64{}
	}
	if len(p.vals[w]) > 300 {
		return
	}
	for _, x := range p.vals[w] {
		if x == v {
			return
		}
	}
	n := append([]uint64(nil), p.vals[w]...)
	p.vals[w] = append(n, v)
}

func (p *modelPool) try(conj []*Term, v *Term) bool {
	p.RLock()
	vals := p.vals[v.w]
	p.RUnlock()
next:
	for i := len(vals) - 1; i >= 0; i-- {
		bud := 3000
		for j := len(conj) - 1; j >= 0; j-- {
			if evalOne(conj[j], vals[i], &bud) == 0 || bud < 0 {
				continue next
			}
		}
		return true
	}
	return false
}

// evalOne evaluates a term over one variable, giving up when bud is used.
func evalOne(t *Term, x uint64, bud *int) uint64 {
	*bud--
	if *bud < 0 {
		return 0
	}
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		if t.w == 0 {
			return x & 1
		}
		return x & mask(t.w)
	case OpNot:
		return 1 - evalOne(t.a[0], x, bud)
	case OpAnd:
		for _, a := range t.a {
			if evalOne(a, x, bud) == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for _, a := range t.a {
			if evalOne(a, x, bud) == 1 {
				return 1
			}
		}
		return 0
	case OpEq:
		return b2u(evalOne(t.a[0], x, bud) == evalOne(t.a[1], x, bud))
	case OpIte:
		if evalOne(t.a[0], x, bud) == 1 {
			return evalOne(t.a[1], x, bud)
		}
		return evalOne(t.a[2], x, bud)
	case OpZext:
		return evalOne(t.a[0], x, bud)
	case OpSext:
		return uint64(sext64(evalOne(t.a[0], x, bud), t.a[0].w)) & mask(t.w)
	case OpTrunc:
		return evalOne(t.a[0], x, bud) & mask(t.w)
	case OpInSet:
		return b2u(t.set.has(uint32(evalOne(t.a[0], x, bud))))
	case OpMem:
		i := evalOne(t.a[0], x, bud)
		return uint64(t.name[i>>3]>>(i&7)) & 1
	}
	v, ok := evalBin(t.op, t.a[0].w, evalOne(t.a[0], x, bud), evalOne(t.a[1], x, bud))
	if !ok {
		*bud = -1
	}
	return v
}

// decide picks a branch of a condition, forking when both are feasible.
func (in *Interp) decide(c *Term) bool {
	c = in.simp(c)
	if c.isConst() {
		return c.c == 1
	}
	if in.pureEv > 0 {
		panic(mergeAbort{})
	}
	if in.inInit > 0 {
		unsup("symbolic branch during initialisation")
	}
	if in.pos < len(in.prefix) {
		ch := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, ch)
		if ch.taken {
			in.addPC(c)
		} else {
			in.addPC(in.tt.Not(c))
		}
		return ch.taken
	}
	in.pathQ++
	t := in.satisfiable(c)
	if t == unsat {
		in.trace = append(in.trace, choice{taken: false})
		in.pos++
		in.learnOnly(in.tt.Not(c))
		return false
	}
	f := in.satisfiable(in.tt.Not(c))
	if f == unsat {
		in.trace = append(in.trace, choice{taken: true})
		in.pos++
		in.learnOnly(c)
		return true
	}
	alt := make([]choice, len(in.trace)+1)
	copy(alt, in.trace)
	alt[len(in.trace)] = choice{taken: false}
	in.eng.push(alt)
	in.eng.noteFork(in.curFn)
	in.trace = append(in.trace, choice{taken: true})
	in.pos++
	in.addPC(c)
	return true
}

// learnOnly records a binding for an implied condition (also kept in the path
// condition: replayed prefixes add it as well).
func (in *Interp) learnOnly(c *Term) { in.addPC(c) }

// concInt makes an integer concrete, forking over its feasible values.
func (in *Interp) concInt(v value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return sext64(in.concTerm(x), x.w)
	}
	unsup("concInt %T", v)
	return 0
}

func (in *Interp) concTerm(t *Term) uint64 {
	for n := 0; ; n++ {
		t = in.simp(t)
		if t.isConst() {
			return t.c
		}
		if in.pureEv > 0 {
			panic(mergeAbort{})
		}
		if n > 600 {
			unsup("too many values for a concretised term")
		}
		if in.pos < len(in.prefix) {
			ch := in.prefix[in.pos]
			in.pos++
			in.trace = append(in.trace, ch)
			eq := in.tt.Eq(t, in.tt.Const(t.w, ch.val))
			if ch.taken {
				in.addPC(eq)
				return ch.val
			}
			in.addPC(in.tt.Not(eq))
			continue
		}
		// pick a feasible value
		conj, vars := in.component(in.anchor(t))
		key := queryKey(conj, len(vars) == 1, in.anonMemo)
		val, ok := in.eng.cache.value(key)
		if ok {
			in.eng.addCacheHit()
		} else {
			m := map[string]uint64{}
			r := in.solver.Check(conj, m, in.varsOf(t))
			if r != sat {
				unsup("no model for a concretised term")
			}
			val = t.Eval(m)
			in.eng.cache.putValue(key, val)
		}
		eq := in.tt.Eq(t, in.tt.Const(t.w, val))
		if in.satisfiable(in.tt.Not(eq)) != unsat {
			alt := make([]choice, len(in.trace)+1)
			copy(alt, in.trace)
			alt[len(in.trace)] = choice{taken: false, val: val, conc: true}
			in.eng.push(alt)
			in.eng.noteFork(in.curFn)
		}
		in.trace = append(in.trace, choice{taken: true, val: val, conc: true})
		in.pos++
		in.addPC(eq)
		return val
	}
}

// anchor builds a trivially true condition mentioning t's variables.
func (in *Interp) anchor(t *Term) *Term {
	if t.w == 0 {
		return in.tt.mkRaw(OpEq, 0, 0, "", nil, t, t)
	}
	return in.tt.mkRaw(OpUle, 0, 0, "", nil, t, in.tt.Const(t.w, mask(t.w)))
}

func (in *Interp) varsOf(t *Term) []*Term {
	var r []*Term
	for _, v := range t.vars {
		r = append(r, in.tt.byVar[v])
	}
	return r
}

// boundedIndex makes an index concrete and checks it.
func (in *Interp) boundedIndex(i value, n int) int {
	if t, ok := i.(*Term); ok {
		t = in.simp(t)
		if !t.isConst() {
			inb := in.tt.Bin(OpUlt, t, in.tt.Const(t.w, uint64(n)))
			if t.w < 64 && uint64(n) > mask(t.w) {
				inb = in.tt.True
			}
			if !in.decide(inb) {
				in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
			}
			return int(in.concTerm(t))
		}
		i = sext64(t.c, t.w)
	}
	k := i.(int64)
	if k < 0 || k >= int64(n) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	return int(k)
}

func (in *Interp) rtPanic(msg string) {
	if in.pureEv > 0 {
		panic(mergeAbort{})
	}
	panic(targetPanic{v: iface{t: hostErrType, v: "runtime error: " + msg}})
}

var hostErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "hostError", nil), types.Typ[types.String], nil)

// ---- function compilation ----

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fns[fn]; ok {
		return fi
	}
	if i, ok := lookupIntrinsic(fn); ok {
		fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}}
		in.fns[fn] = fi
		fi.user = in.eng.isUser(fn)
		fi.intr = i
		return fi
	}
	fi := in.compile(fn)
	in.drainInit()
	return fi
}

func (in *Interp) drainInit() {
	for len(in.pendInit) > 0 {
		p := in.pendInit[0]
		in.pendInit = in.pendInit[1:]
		in.ensureInit(p)
	}
}

// compile prepares a function's own body.
func (in *Interp) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, slots: map[ssa.Value]int{}}
	in.fns[fn] = fi
	fi.user = in.eng.isUser(fn)
	in.eng.build(fn)
	in.compiling = true
	defer func() { in.compiling = false }()
	if fn.Blocks == nil {
		return fi
	}
	slot := func(v ssa.Value) int {
		s := fi.nslots
		fi.slots[v] = s
		fi.nslots++
		return s
	}
	for _, p := range fn.Params {
		slot(p)
	}
	for _, p := range fn.FreeVars {
		slot(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b, pureJump: -1}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		pure := true
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				var ops []opd
				for _, e := range i.Edges {
					ops = append(ops, in.operand(fi, e))
				}
				cb.phis = append(cb.phis, i)
				cb.pdst = append(cb.pdst, fi.slots[i])
				cb.pops = append(cb.pops, ops)
				continue
			case *ssa.Defer:
				fi.hasDef = true
			}
			ci := cinstr{in: i, dst: -1, pos: i.Pos()}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = fi.slots[v]
			}
			var rands [8]*ssa.Value
			for _, o := range i.Operands(rands[:0]) {
				if *o == nil {
					ci.ops = append(ci.ops, opd{slot: -1})
					continue
				}
				ci.ops = append(ci.ops, in.operand(fi, *o))
			}
			cb.ins = append(cb.ins, ci)
			if !pureInstr(i) {
				pure = false
			}
		}
		cb.pure = pure
		if pure {
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Jump:
				cb.pureJump = b.Succs[0].Index
			case *ssa.If:
				cb.pureIf = true
			}
		}
		fi.blocks = append(fi.blocks, cb)
	}
	return fi
}

func pureInstr(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.BinOp:
		switch i.Op {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			return true
		}
		_, isIface := i.X.Type().Underlying().(*types.Interface)
		return !isIface
	case *ssa.UnOp:
		return i.Op != token.MUL && i.Op != token.ARROW
	case *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Jump, *ssa.If:
		return true
	case *ssa.Convert:
		_, a := intWidth(i.X.Type())
		_, b := intWidth(i.Type())
		return a && b
	}
	return false
}

func (in *Interp) operand(fi *fnInfo, v ssa.Value) opd {
	if s, ok := fi.slots[v]; ok {
		return opd{slot: s}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return opd{slot: -1, v: in.constVal(v)}
	case *ssa.Global:
		return opd{slot: -1, v: in.global(v)}
	case *ssa.Function:
		return opd{slot: -1, v: v}
	case *ssa.Builtin:
		return opd{slot: -1, v: v}
	}
	unsup("operand %T in %s", v, fi.fn)
	return opd{}
}

func (in *Interp) global(g *ssa.Global) *value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = zero(deref(g.Type()))
	if v, ok := in.osGlobal(g); ok {
		*p = v
	}
	in.globals[g] = p
	if in.compiling {
		in.pendInit = append(in.pendInit, g.Pkg)
	} else {
		in.ensureInit(g.Pkg)
	}
	return p
}

// ensureInit runs a package's variable initialisers on first use.
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	// run concretely, persistently
	savedSteps, savedPure, savedDepth, savedCur := in.steps, in.pureEv, in.depth, in.curFn
	in.inInit++
	in.pureEv = 0
	defer func() {
		in.inInit--
		in.steps, in.pureEv, in.depth, in.curFn = savedSteps, savedPure, savedDepth, savedCur
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				in.eng.note(fmt.Sprintf("init of %s incomplete: %s", pkg.Pkg.Path(), u.msg))
				return
			}
			if tp, ok := r.(targetPanic); ok {
				in.eng.note(fmt.Sprintf("init of %s panicked: %v", pkg.Pkg.Path(), tp.v))
				return
			}
			panic(r)
		}
	}()
	in.call(nil, initFn, nil, nil)
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "sync", "sync/atomic", "syscall", "os", "time", "unsafe", "log", "flag", "internal/godebug", "internal/poll", "internal/reflectlite", "fmt", "context", "io/fs", "encoding/json", "syscall/js":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/")
}

func (in *Interp) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return norm(t, int64(c.Uint64()))
			}
			return norm(t, c.Int64())
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	unsup("const %s", c)
	return nil
}

func (fr *frame) get(o *opd) value {
	if o.slot >= 0 {
		return fr.env[o.slot]
	}
	return o.v
}

// ---- calls ----

func (in *Interp) callValue(caller *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.call(caller, f, args, nil)
	case *closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.call(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.builtin(caller, f, args, nil)
	case *hostFunc:
		return f.f(in, args)
	}
	unsup("call of %T", fv)
	return nil
}

func (in *Interp) call(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := in.info(fn)
	if fi.intr != nil {
		if in.pureEv > 0 && !pureIntrinsic(fn) {
			panic(mergeAbort{})
		}
		return fi.intr(in, caller, args)
	}
	if fn.Blocks == nil {
		if in.inInit > 0 && fn.Name() == "init" {
			return nil
		}
		unsup("function without body: %s", fn)
	}
	if in.inInit > 0 && fn.Name() == "init" && fn.Signature.Recv() == nil && caller != nil && fn.Pkg != caller.fi.fn.Pkg && caller.fi.fn.Name() == "init" {
		return nil // imported packages initialise on first use
	}
	if in.inInit == 0 && fi.user {
		if len(in.tokLex) > 0 && len(args) > 0 {
			if p, ok := args[0].(*value); ok {
				if src, ok := in.tokLex[p]; ok {
					switch fn.Name() {
					case "Lex", "ReLex", "Location":
						return in.invokeByName(caller, src, fn.Name(), nil)
					}
				}
			}
		}
		if in.eng.cover != nil {
			in.eng.cover.hit(fn)
		}
		if in.mergeable(fi) && anySymArg(args) {
			if v, ok := in.mergeCall(caller, fi, args, env); ok {
				return v
			}
		}
	}
	return in.runFn(caller, fi, args, env)
}

func (in *Interp) runFn(caller *frame, fi *fnInfo, args []value, env []value) value {
	in.depth++
	if in.depth > in.maxDepth && in.inInit == 0 {
		in.depth = 0
		in.pathEnd("depth")
	}
	fr := &frame{in: in, fi: fi, caller: caller}
	fr.env = make([]value, fi.nslots)
	copy(fr.env, args)
	copy(fr.env[len(fi.fn.Params):], env)
	saved := in.curFn
	in.curFn = fi.fn
	if fi.hasDef {
		in.runDeferFrame(fr)
	} else {
		in.runBlocks(fr, 0, -1)
	}
	in.curFn = saved
	in.depth--
	return fr.result
}

func (in *Interp) runDeferFrame(fr *frame) {
	depth := in.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			in.depth = depth
			in.curFn = fr.fi.fn
			fr.panicking = true
			fr.panicV = tp
		}()
		in.runBlocks(fr, 0, -1)
	}()
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicV)
		}
		// recovered: run the recover block to produce named results
		if rb := fr.fi.fn.Recover; rb != nil {
			in.runBlocks(fr, rb.Index, -1)
		} else {
			fr.result = zero(fr.fi.fn.Signature.Results())
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			depth := in.depth
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				in.depth = depth
				in.curFn = fr.fi.fn
				fr.panicking = true
				fr.panicV = tp
			}()
			if d.meth != nil {
				in.invoke(fr, d.recv, d.meth, d.args)
			} else {
				in.callValue(fr, d.fn, d.args)
			}
		}()
	}
	if fr.panicking {
		return
	}
}

// invoke calls an interface method.
func (in *Interp) invoke(fr *frame, recv value, m *types.Func, args []value) value {
	i, ok := recv.(iface)
	if !ok || i.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if i.t == hostErrType || i.t == hostErrPtrType {
		return hostErrMethod(in, i, m.Name(), args)
	}
	if i.t == rtypeType {
		return rtypeMethod(in, i.v.(*rType).t, m.Name(), args)
	}
	k := methKey{i.t, m}
	fn, ok := in.methods[k]
	if !ok {
		fn = in.eng.lookupMethod(i.t, m)
		in.methods[k] = fn
	}
	if fn == nil {
		unsup("no method %s on %s", m.Name(), i.t)
	}
	all := make([]value, 0, len(args)+1)
	all = append(all, copyVal(i.v))
	all = append(all, args...)
	return in.call(fr, fn, all, nil)
}

// invokeByName calls a method of an interface value by name.
func (in *Interp) invokeByName(fr *frame, recv value, name string, args []value) value {
	i := recv.(iface)
	fn := in.eng.methodByName(i.t, name)
	if fn == nil {
		unsup("no method %s on %s", name, i.t)
	}
	all := append([]value{copyVal(i.v)}, args...)
	return in.call(fr, fn, all, nil)
}

// runBlocks executes from a block until return. stop < 0: run to the end.
func (in *Interp) runBlocks(fr *frame, bi int, prev int) {
	fi := fr.fi
	for {
		b := fi.blocks[bi]
		if len(b.phis) > 0 && prev >= 0 {
			in.doPhis(fr, b, prev)
		}
		next := -1
	instrs:
		for k := range b.ins {
			ci := &b.ins[k]
			in.steps++
			switch x := ci.in.(type) {
			case *ssa.Jump:
				prev, next = bi, b.succs[0]
				break instrs
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				if cb, ok := c.(bool); ok {
					prev = bi
					if cb {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break instrs
				}
				prev, next = in.branch(fr, bi, c.(*Term))
				if prev == -2 { // merged: phis of next are already set
					prev = -1
				}
				break instrs
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(tupleV, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0])
				if in.pureEv > 0 {
					panic(mergeAbort{})
				}
				panic(targetPanic{v: v, where: fi.fn.String()})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.panicV)
				}
			default:
				in.exec(fr, ci)
			}
		}
		if in.inInit == 0 && in.eng != nil && atomic.LoadInt32(&in.eng.abort) != 0 {
			if in.pureEv > 0 {
				panic(mergeAbort{})
			}
			in.pathEnd("abort")
		}
		if in.steps > in.maxSteps && in.inInit == 0 {
			if in.pureEv > 0 {
				panic(mergeAbort{})
			}
			in.pathEnd("steps")
		}
		bi = next
	}
}

func (in *Interp) doPhis(fr *frame, b *cblock, prev int) {
	edge := -1
	for i, p := range b.b.Preds {
		if p.Index == prev {
			edge = i
			break
		}
	}
	if len(b.phis) == 1 {
		fr.env[b.pdst[0]] = fr.get(&b.pops[0][edge])
		return
	}
	tmp := make([]value, len(b.phis))
	for i := range b.phis {
		tmp[i] = fr.get(&b.pops[i][edge])
	}
	for i, d := range b.pdst {
		fr.env[d] = tmp[i]
	}
}

func (fr *frame) phiVals(b *cblock, pred int) ([]value, bool) {
	if len(b.phis) == 0 {
		return nil, true
	}
	edge := -1
	for i, p := range b.b.Preds {
		if p.Index == pred {
			if edge >= 0 {
				return nil, false
			}
			edge = i
		}
	}
	r := make([]value, len(b.phis))
	for i := range b.phis {
		r[i] = fr.get(&b.pops[i][edge])
	}
	return r, true
}

func sameVal(a, b value) bool {
	switch x := a.(type) {
	case int64, bool, string, float64, *Term, *value, *SStr, *LStr, *TStr, *mapV, *closure, *ssa.Function:
		return a == b
	case iface:
		y, ok := b.(iface)
		return ok && (x.t == nil && y.t == nil || x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case nil:
		return b == nil
	}
	return false
}

func samePhi(a, b []value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// evalPure executes the pure instructions of a block (not its terminator).
func (in *Interp) evalPure(fr *frame, b *cblock) {
	for k := range b.ins[:len(b.ins)-1] {
		in.steps++
		in.exec(fr, &b.ins[k])
	}
}

// branch decides a symbolic condition at the end of block bi. Chains of pure
// conditions that lead to a common target are decided as one disjunction or
// conjunction; small pure diamonds are merged into if-then-else values.
func (in *Interp) branch(fr *frame, bi int, c *Term) (prev, next int) {
	fi := fr.fi
	b := fi.blocks[bi]
	c = in.simp(c)
	if c.isConst() {
		if c.c == 1 {
			return bi, b.succs[0]
		}
		return bi, b.succs[1]
	}
	t, f := b.succs[0], b.succs[1]
	if t == f {
		return bi, t
	}
	// diamonds and triangles
	if j, ok := in.diamond(fr, bi, t, f, c); ok {
		return -2, j
	}
	// coalesce: through the false edge while the true targets agree, or
	// through the true edge while the false targets agree.
	cur := bi
	cond := c
	mode := 0 // 1: or-chain (shared true target), 2: and-chain (shared false target)
	shared := -1
	var sharedPhi []value
	lastT, lastF := t, f
	curPred := bi
	for n := 0; n < 200; n++ {
		// try to extend through false edge
		ext := -1
		if mode != 2 {
			nb := fi.blocks[lastF]
			if nb.pureIf && len(nb.b.Preds) == 1 && len(nb.phis) == 0 {
				ext = 1
			}
		}
		if ext < 0 && mode != 1 {
			nb := fi.blocks[lastT]
			if nb.pureIf && len(nb.b.Preds) == 1 && len(nb.phis) == 0 {
				ext = 2
			}
		}
		extended := false
		for _, e := range []int{1, 2} {
			if mode != 0 && mode != e {
				continue
			}
			via := lastF
			if e == 2 {
				via = lastT
			}
			nb := fi.blocks[via]
			if !(nb.pureIf && len(nb.b.Preds) == 1 && len(nb.phis) == 0) {
				continue
			}
			tgt := nb.succs[e-1]
			want := lastT
			if e == 2 {
				want = lastF
			}
			if mode != 0 {
				want = shared
			}
			if tgt != want {
				continue
			}
			if mode == 0 {
				sp, ok := fr.phiVals(fi.blocks[want], curPred)
				if !ok {
					continue
				}
				sharedPhi = sp
			}
			np, ok := func() (p []value, ok bool) {
				in.evalPure(fr, nb)
				return fr.phiVals(fi.blocks[want], via)
			}()
			if !ok || !samePhi(sharedPhi, np) {
				continue
			}
			cv := fr.get(&nb.ins[len(nb.ins)-1].ops[0])
			var ct *Term
			switch x := cv.(type) {
			case bool:
				ct = in.tt.Bool(x)
			case *Term:
				ct = in.simp(x)
			}
			mode, shared = e, want
			if e == 1 {
				cond = in.tt.Or(cond, ct)
				lastF = nb.succs[1]
			} else {
				cond = in.tt.And(cond, ct)
				lastT = nb.succs[0]
			}
			curPred = via
			extended = true
			break
		}
		if !extended {
			break
		}
	}
	_ = cur
	if mode == 1 {
		// one decision for all disjuncts; the phi values of the shared target
		// are the same for every edge taken
		if in.decide(cond) {
			return bi, shared
		}
		return curPred, lastF
	}
	if mode == 2 {
		if in.decide(cond) {
			return curPred, lastT
		}
		return bi, shared
	}
	if in.decide(c) {
		return bi, t
	}
	return bi, f
}

// diamond merges if/else regions whose arms are pure single blocks.
func (in *Interp) diamond(fr *frame, bi, t, f int, c *Term) (int, bool) {
	fi := fr.fi
	tb, fb := fi.blocks[t], fi.blocks[f]
	var j int
	tp, fp := t, f
	armT := tb.pureJump >= 0 && len(tb.b.Preds) == 1
	armF := fb.pureJump >= 0 && len(fb.b.Preds) == 1
	switch {
	case armT && tb.pureJump == f:
		j, fp = f, bi
		armF = false
	case armF && fb.pureJump == t:
		j, tp = t, bi
		armT = false
	case armT && armF && tb.pureJump == fb.pureJump:
		j = tb.pureJump
	default:
		return 0, false
	}
	jb := fi.blocks[j]
	if len(jb.phis) == 0 {
		// no values to merge: arms are effect-free
		return j, true
	}
	if armT {
		in.evalPure(fr, tb)
	}
	tv, ok1 := fr.phiVals(jb, tp)
	if armF {
		in.evalPure(fr, fb)
	}
	fv, ok2 := fr.phiVals(jb, fp)
	if !ok1 || !ok2 {
		return 0, false
	}
	out := make([]value, len(tv))
	for i := range tv {
		m, ok := in.mergeVals(c, tv[i], fv[i], jb.phis[i].Type())
		if !ok {
			return 0, false
		}
		out[i] = m
	}
	for i, d := range jb.pdst {
		fr.env[d] = out[i]
	}
	return j, true
}

// mergeVals builds ite(c, a, b) if the values allow it.
func (in *Interp) mergeVals(c *Term, a, b value, ty types.Type) (value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return in.mergeStr(c, a, b)
		}
		if u.Info()&types.IsBoolean != 0 {
			return in.termVal(in.tt.Ite(c, in.toTerm(a, 0), in.toTerm(b, 0))), true
		}
		if w, ok := intWidth(ty); ok {
			return in.termInt(in.tt.Ite(c, in.toTerm(a, w), in.toTerm(b, w)), ty), true
		}
	case *types.Struct:
		x, ok1 := a.(structV)
		y, ok2 := b.(structV)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := make(structV, len(x))
		for i := range x {
			m, ok := in.mergeVals(c, x[i], y[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case *types.Tuple:
		x, ok1 := a.(tupleV)
		y, ok2 := b.(tupleV)
		if !ok1 || !ok2 {
			return nil, false
		}
		r := make(tupleV, len(x))
		for i := range x {
			m, ok := in.mergeVals(c, x[i], y[i], u.At(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case *types.Slice:
		x, ok1 := a.(sliceV)
		y, ok2 := b.(sliceV)
		if ok1 && ok2 && x.a == nil && y.a == nil {
			return a, true
		}
	}
	return nil, false
}

func (in *Interp) mergeStr(c *Term, a, b value) (value, bool) {
	tab := func(v value) (*Term, []string, bool) {
		switch s := v.(type) {
		case string:
			return in.tt.Const(16, 0), []string{s}, true
		case *TStr:
			return s.idx, s.tab, true
		}
		return nil, nil, false
	}
	ai, at, ok1 := tab(a)
	bi, bt, ok2 := tab(b)
	if !ok1 || !ok2 || len(at)+len(bt) > 4000 {
		return nil, false
	}
	fit := func(t *Term) *Term {
		if t.w < 16 {
			return in.tt.Zext(t, 16)
		}
		return in.tt.Trunc(t, 16)
	}
	ai, bi = fit(ai), fit(bi)
	// share identical tables, reuse entries
	n := append([]string{}, at...)
	pos := map[string]int{}
	for i, s := range n {
		if _, ok := pos[s]; !ok {
			pos[s] = i
		}
	}
	bud := 2000
	if bi.isConst() {
		s := bt[bi.c]
		p, ok := pos[s]
		if !ok {
			p = len(n)
			n = append(n, s)
		}
		return &TStr{in.tt.Ite(c, ai, in.tt.Const(16, uint64(p))), n}, true
	}
	if constLeaves(bi, &bud) {
		nb := in.tt.mapIte(bi, func(x *Term) *Term {
			s := bt[x.c]
			p, ok := pos[s]
			if !ok {
				p = len(n)
				n = append(n, s)
				pos[s] = p
			}
			return in.tt.Const(16, uint64(p))
		})
		return &TStr{in.tt.Ite(c, ai, nb), n}, true
	}
	off := len(n)
	n = append(n, bt...)
	return &TStr{in.tt.Ite(c, ai, in.tt.Bin(OpAdd, bi, in.tt.Const(16, uint64(off)))), n}, true
}

// ---- merging of pure functions ----

type mergeAbort struct{}

func anySymArg(args []value) bool {
	for _, a := range args {
		if isSymbolic(a) {
			return true
		}
	}
	return false
}

func isSymbolic(v value) bool {
	switch x := v.(type) {
	case *Term, *SStr, *TStr:
		return true
	case structV:
		for _, y := range x {
			if isSymbolic(y) {
				return true
			}
		}
	case iface:
		return x.t != nil && isSymbolic(x.v)
	}
	return false
}

// mergeable analyses whether a function is free of side effects.
func (in *Interp) mergeable(fi *fnInfo) bool {
	if fi.pureM == 0 {
		fi.pureM = 2 // recursion guard
		ok, konst := in.analysePure(fi, map[*ssa.Function]bool{})
		if ok {
			fi.pureM = 1
		}
		fi.constFn = konst
	}
	return fi.pureM == 1 && in.mergeFail[fi.fn] < 40
}

func (in *Interp) analysePure(fi *fnInfo, seen map[*ssa.Function]bool) (pure, konst bool) {
	fn := fi.fn
	if seen[fn] {
		return false, false
	}
	seen[fn] = true
	defer delete(seen, fn)
	if fn.Signature.Results().Len() == 0 || len(fn.FreeVars) > 0 {
		return false, false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch u := fn.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsFloat != 0 {
				return false, false
			}
		case *types.Struct:
			// a slice or pointer in the result would outlive the rolled-back
			// evaluation that built it
			if !flatType(u) {
				return false, false
			}
		default:
			return false, false
		}
	}
	konst = true
	local := map[ssa.Value]bool{}
	rootLocal := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				v = x.X
				continue
			}
			return local[v]
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok {
				local[a] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.DebugRef, *ssa.Alloc, *ssa.BinOp, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Panic, *ssa.Slice, *ssa.MakeInterface:
			case *ssa.Lookup:
				if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.Global); ok {
						break
					}
				}
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					konst = false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false, false
				}
				if x.Op == token.MUL && !rootLocal(x.X) {
					if g, ok := x.X.(*ssa.Global); ok {
						if !in.eng.readonlyGlobal(g) {
							konst = false
						}
					} else {
						konst = false
					}
				}
			case *ssa.Store:
				if !rootLocal(x.Addr) {
					return false, false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" {
						continue
					}
					return false, false
				}
				callee := x.Call.StaticCallee()
				if callee == nil {
					return false, false
				}
				cfi := in.info(callee)
				if cfi.intr != nil {
					if pureIntrinsic(callee) {
						continue
					}
					return false, false
				}
				if !cfi.user || callee.Blocks == nil {
					return false, false
				}
				p, k := in.analysePure(cfi, seen)
				if !p {
					return false, false
				}
				if !k {
					konst = false
				}
			default:
				return false, false
			}
		}
	}
	return true, konst
}

func flatType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flatType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

type mergeState struct {
	leaves int
	cond   *Term // branch conditions taken inside the merge
}

// mergeCall evaluates a side-effect-free function on symbolic arguments to a
// single merged value instead of forking.
func (in *Interp) mergeCall(caller *frame, fi *fnInfo, args []value, env []value) (res value, ok bool) {
	top := in.pureEv == 0
	if top {
		na := make([]value, len(args))
		for i, a := range args {
			na[i] = in.simpDeep(a, fi.fn.Params[i].Type())
		}
		args = na
		if !anySymArg(args) {
			return nil, false
		}
	}
	outer := in.mergeCond
	if top {
		in.mergeCond = in.domains(args)
	}
	if top {
		if v, ok := in.tabulate(caller, fi, args, env); ok {
			in.mergeCond = outer
			return v, true
		}
	}
	key := ""
	if fi.constFn {
		if k, ok2 := argKey(fi, args); ok2 {
			key = k
			if in.mergeCond != nil {
				key += "|c" + strconv.Itoa(int(in.mergeCond.id))
			}
			if v, ok := in.mergeMemo[key]; ok {
				in.mergeCond = outer
				return copyVal(v), true
			}
		}
	}
	mark := len(in.undo)
	saved := in.inInit
	savedMax := in.maxSteps
	if top {
		in.maxSteps = in.steps + 40000
	}
	depth, cur := in.depth, in.curFn
	in.pureEv++
	defer func() {
		in.pureEv--
		in.mergeCond = outer
		in.maxSteps = savedMax
		if r := recover(); r != nil {
			if _, isAbort := r.(mergeAbort); isAbort {
				if !top {
					panic(r)
				}
				in.inInit = saved
				in.rollback(mark)
				in.depth, in.curFn = depth, cur
				in.mergeFail[fi.fn]++
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	ms := &mergeState{cond: in.mergeCond}
	if ms.cond == nil {
		ms.cond = in.tt.True
	}
	fr := &frame{in: in, fi: fi, caller: caller}
	fr.env = make([]value, fi.nslots)
	copy(fr.env, args)
	copy(fr.env[len(fi.fn.Params):], env)
	res = in.mergeBlocks(fr, 0, -1, ms)
	if key != "" {
		in.mergeMemo[key] = copyVal(res)
	}
	return res, true
}

type tabRes struct {
	vals []value
	have []bool
}

// tabulate evaluates a side-effect-free function whose symbolic arguments
// depend on one small variable for every value of the variable that the path
// condition allows, and builds the table of the results.
func (in *Interp) tabulate(caller *frame, fi *fnInfo, args []value, env []value) (res value, ok bool) {
	var terms []*Term
	good := true
	var walk func(v value)
	walk = func(v value) {
		switch x := v.(type) {
		case *Term:
			terms = append(terms, x)
		case *TStr:
			terms = append(terms, x.idx)
		case *SStr, *LStr, *symFloat, iface:
			if _, ok := v.(iface); ok && !isSymbolic(v) {
				return
			}
			good = false
		case structV:
			for _, y := range x {
				walk(y)
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	if !good || len(terms) == 0 {
		return nil, false
	}
	// the widest small variable; others stay symbolic, which fails if they matter
	var v *Term
	for _, t := range terms {
		if x := in.tt.smallVar([]*Term{t}); x != nil && (v == nil || x.w > v.w) {
			v = x
		}
	}
	if v == nil {
		return nil, false
	}
	dom := in.tt.True
	if i, ok := in.domPC[v.vars[0]]; ok {
		dom = in.pc[i]
	}
	dt := in.tt.table(v, dom)
	var memo *tabRes
	if fi.constFn {
		if k, ok := argKey(fi, args); ok {
			memo = in.tabMemo[k]
			if memo == nil {
				memo = &tabRes{make([]value, len(dt)), make([]bool, len(dt))}
				in.tabMemo[k] = memo
			}
		}
	}
	if memo == nil {
		memo = &tabRes{make([]value, len(dt)), make([]bool, len(dt))}
	}
	over := func(t *Term) bool { return len(t.vars) == 1 && t.vars[0] == v.vars[0] }
	var at func(a value, n int) value
	at = func(a value, n int) value {
		switch x := a.(type) {
		case *TStr:
			if !over(x.idx) {
				return x
			}
			return x.tab[in.tt.table(v, x.idx)[n]]
		case structV:
			r := make(structV, len(x))
			for i := range x {
				r[i] = at(x[i], n)
			}
			return r
		}
		return a
	}
	var atT func(a value, ty types.Type, n int) value
	atT = func(a value, ty types.Type, n int) value {
		switch x := a.(type) {
		case *Term:
			if !over(x) {
				return x
			}
			return in.termInt(in.tt.Const(x.w, in.tt.table(v, x)[n]), ty)
		case structV:
			if st, ok := ty.Underlying().(*types.Struct); ok {
				r := make(structV, len(x))
				for i := range x {
					r[i] = atT(x[i], st.Field(i).Type(), n)
				}
				return r
			}
		}
		return at(a, n)
	}
	mark := len(in.undo)
	depth, cur, saved := in.depth, in.curFn, in.inInit
	savedMax := in.maxSteps
	in.pureEv++
	defer func() {
		in.pureEv--
		in.maxSteps = savedMax
		if r := recover(); r != nil {
			if _, isAbort := r.(mergeAbort); isAbort {
				in.inInit = saved
				in.rollback(mark)
				in.depth, in.curFn = depth, cur
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	steps := in.steps
	for n := range dt {
		if dt[n] == 0 || memo.have[n] {
			continue
		}
		in.maxSteps = in.steps + 40000
		cargs := make([]value, len(args))
		for i, a := range args {
			cargs[i] = atT(a, fi.fn.Params[i].Type(), n)
		}
		r := in.runFn(caller, fi, cargs, env)
		if isSymbolic(r) {
			return nil, false
		}
		in.rollback(mark)
		memo.vals[n] = copyVal(r)
		memo.have[n] = true
	}
	in.steps = steps + 1
	var rt types.Type = fi.fn.Signature.Results()
	if fi.fn.Signature.Results().Len() == 1 {
		rt = fi.fn.Signature.Results().At(0).Type()
	}
	vals := make([]value, len(dt))
	var some value
	for n := range dt {
		if dt[n] == 1 {
			some = memo.vals[n]
			break
		}
	}
	for n := range dt {
		vals[n] = some
		if dt[n] == 1 {
			vals[n] = memo.vals[n]
		}
	}
	return in.tableVal(v, vals, rt)
}

// tableVal is the value vals[v] for a small variable v.
func (in *Interp) tableVal(v *Term, vals []value, ty types.Type) (value, bool) {
	same := true
	for _, x := range vals[1:] {
		if !sameVal(vals[0], x) {
			same = false
			break
		}
	}
	if same {
		return copyVal(vals[0]), true
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			tab := make([]string, len(vals))
			for i, x := range vals {
				s, ok := x.(string)
				if !ok {
					return nil, false
				}
				tab[i] = s
			}
			return &TStr{v, tab}, true
		}
		if u.Info()&types.IsBoolean != 0 {
			tab := make([]uint64, len(vals))
			for i, x := range vals {
				tab[i] = b2u(x.(bool))
			}
			return in.termVal(in.tt.memOf(v, tab)), true
		}
		if w, ok := intWidth(ty); ok {
			tab := make([]uint64, len(vals))
			for i, x := range vals {
				tab[i] = uint64(x.(int64)) & mask(w)
			}
			t := in.tt.Const(w, tab[len(tab)-1])
			for i := len(tab) - 2; i >= 0; i-- {
				if tab[i] != tab[len(tab)-1] {
					t = in.tt.Ite(in.tt.Eq(v, in.tt.Const(v.w, uint64(i))), in.tt.Const(w, tab[i]), t)
				}
			}
			if t.op == OpIte {
				in.tt.isTab(t, v, tab)
			}
			return in.termInt(t, ty), true
		}
	case *types.Struct:
		r := make(structV, u.NumFields())
		for i := range r {
			col := make([]value, len(vals))
			for j, x := range vals {
				col[j] = x.(structV)[i]
			}
			m, ok := in.tableVal(v, col, u.Field(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case *types.Tuple:
		r := make(tupleV, u.Len())
		for i := range r {
			col := make([]value, len(vals))
			for j, x := range vals {
				col[j] = x.(tupleV)[i]
			}
			m, ok := in.tableVal(v, col, u.At(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	}
	return nil, false
}

// domains is what the path condition says about each small variable of args
// alone, nil if nothing.
func (in *Interp) domains(args []value) *Term {
	var c *Term
	seen := map[int32]bool{}
	add := func(t *Term) {
		for _, v := range t.vars {
			if i, ok := in.domPC[v]; ok && !seen[v] {
				seen[v] = true
				if c == nil {
					c = in.pc[i]
				} else {
					c = in.tt.And(c, in.pc[i])
				}
			}
		}
	}
	var walk func(v value)
	walk = func(v value) {
		switch x := v.(type) {
		case *Term:
			add(x)
		case *TStr:
			add(x.idx)
		case structV:
			for _, y := range x {
				walk(y)
			}
		}
	}
	for _, a := range args {
		walk(a)
	}
	return c
}

func (in *Interp) simpDeep(v value, ty types.Type) value {
	switch x := v.(type) {
	case *Term:
		return in.termInt(in.simp(x), ty)
	case *TStr:
		t := in.simp(x.idx)
		if t.isConst() {
			return x.tab[t.c]
		}
		return v
	case structV:
		if !isSymbolic(x) {
			return v
		}
		st, ok := ty.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		r := make(structV, len(x))
		for i := range x {
			r[i] = in.simpDeep(x[i], st.Field(i).Type())
		}
		return r
	}
	return v
}

func argKey(fi *fnInfo, args []value) (string, bool) {
	var sb strings.Builder
	sb.WriteString(fi.fn.String())
	var walk func(v value) bool
	walk = func(v value) bool {
		switch x := v.(type) {
		case *Term:
			fmt.Fprintf(&sb, "|t%d", x.id)
		case int64, bool:
			fmt.Fprintf(&sb, "|%v", x)
		case string:
			fmt.Fprintf(&sb, "|%q", x)
		case *TStr:
			fmt.Fprintf(&sb, "|T%d:%q", x.idx.id, x.tab)
		case structV:
			sb.WriteString("{")
			for _, y := range x {
				if !walk(y) {
					return false
				}
			}
			sb.WriteString("}")
		default:
			return false
		}
		return true
	}
	for _, a := range args {
		if !walk(a) {
			return "", false
		}
	}
	return sb.String(), true
}

// mergeBlocks runs a pure function from a block; at symbolic branches both
// sides are evaluated to their returns and merged.
func (in *Interp) mergeBlocks(fr *frame, bi, prev int, ms *mergeState) value {
	fi := fr.fi
	for {
		b := fi.blocks[bi]
		if len(b.phis) > 0 && prev >= 0 {
			in.doPhis(fr, b, prev)
		}
		next := -1
	instrs:
		for k := range b.ins {
			ci := &b.ins[k]
			in.steps++
			switch x := ci.in.(type) {
			case *ssa.Jump:
				prev, next = bi, b.succs[0]
				break instrs
			case *ssa.If:
				c := fr.get(&ci.ops[0])
				if cb, ok := c.(bool); ok {
					prev = bi
					next = b.succs[1]
					if cb {
						next = b.succs[0]
					}
					break instrs
				}
				ct := c.(*Term)
				if j, ok := in.diamond(fr, bi, b.succs[0], b.succs[1], ct); ok {
					prev, next = -1, j
					break instrs
				}
				outer := ms.cond
				onT, onF := in.tt.And(outer, ct), in.tt.And(outer, in.tt.Not(ct))
				if onT.isFalse() || onF.isFalse() {
					// the conditions taken so far decide this one
					prev = bi
					next = b.succs[0]
					if onT.isFalse() {
						next = b.succs[1]
					}
					break instrs
				}
				ms.leaves++
				if ms.leaves > 400 {
					panic(mergeAbort{})
				}
				mark := len(in.undo)
				env := append([]value(nil), fr.env...)
				// memory must roll back between the two sides
				ms.cond, in.mergeCond = onT, onT
				a := in.mergeBlocks(fr, b.succs[0], bi, ms)
				a = copyVal(a)
				in.rollback(mark)
				copy(fr.env, env)
				ms.cond, in.mergeCond = onF, onF
				bv := in.mergeBlocks(fr, b.succs[1], bi, ms)
				ms.cond, in.mergeCond = outer, outer
				var rt types.Type = fi.fn.Signature.Results()
				if fi.fn.Signature.Results().Len() == 1 {
					rt = fi.fn.Signature.Results().At(0).Type()
				}
				m, ok := in.mergeVals(ct, a, bv, rt)
				if !ok {
					panic(mergeAbort{})
				}
				return m
			case *ssa.Return:
				switch len(x.Results) {
				case 1:
					return fr.get(&ci.ops[0])
				default:
					t := make(tupleV, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					return t
				}
			case *ssa.Panic:
				panic(mergeAbort{})
			default:
				in.exec(fr, ci)
			}
		}
		if in.steps > in.maxSteps || in.eng != nil && atomic.LoadInt32(&in.eng.abort) != 0 {
			panic(mergeAbort{})
		}
		bi = next
	}
}
