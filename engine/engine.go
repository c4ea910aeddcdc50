package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jchv/cleansheets"
const overlayDir = "zz_verif"
const vsymPath = modPath + "/" + overlayDir + "/vsym"
const harnPath = modPath + "/" + overlayDir + "/harness"

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vengine: "+format+"\n", a...)
	os.Exit(2)
}

// Program is the loaded target with harnesses.
type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	harn  *ssa.Package
	mu    sync.Mutex
	built map[*ssa.Package]bool

	roMu   sync.Mutex
	roMemo map[*ssa.Package]map[*ssa.Global]bool // globals stored to outside init
}

// overlayFiles lists the harness files placed into the target module.
func overlayFiles(verif, repo string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, overlayDir, rel)] = p
		return nil
	})
	return m
}

// target is what a harness needs besides the harness package: the programs
// it runs, and the system they are for.
func target(harness string) (patterns []string, env []string) {
	switch {
	case strings.HasPrefix(harness, "H_C22_"):
		return []string{cmdPath}, nil
	case strings.HasPrefix(harness, "H_C25_"):
		return []string{webPath}, []string{"GOOS=js", "GOARCH=wasm"}
	}
	return nil, nil
}

func loadProgram(verif, repo string, patterns, env []string) *Program {
	ov := map[string][]byte{}
	for dst, src := range overlayFiles(verif, repo) {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		BuildFlags: []string{"-tags=math_big_pure_go"}, // no assembly
		Dir:        repo,
		Overlay:    ov,
		Env:        append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"), env...),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		},
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == "command-line-arguments" {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
				bad = true
			}
		}
	})
	if bad {
		fatal("the target does not build together with the harnesses")
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, roMemo: map[*ssa.Package]map[*ssa.Global]bool{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.harn = p.pkgs[harnPath]
	return p
}

func (p *Program) build(fn *ssa.Function) {
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = p.pkgs[fn.Object().Pkg().Path()]
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if pkg != nil && !p.built[pkg] {
		pkg.Build()
		p.built[pkg] = true
	}
}

func (p *Program) isUser(fn *ssa.Function) bool {
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pkg.Pkg.Path(), modPath)
}

// readonlyGlobal reports whether a global is written only by initialisers.
func (p *Program) readonlyGlobal(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	p.build(g.Pkg.Func("init"))
	p.roMu.Lock()
	defer p.roMu.Unlock()
	m, ok := p.roMemo[g.Pkg]
	if !ok {
		m = map[*ssa.Global]bool{}
		var scan func(fn *ssa.Function)
		seen := map[*ssa.Function]bool{}
		scan = func(fn *ssa.Function) {
			if fn == nil || seen[fn] {
				return
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
							// loaded maps may be updated through the loaded value
							for _, r := range *u.Referrers() {
								if _, ok := r.(*ssa.MapUpdate); ok && fn.Name() != "init" {
									m[gl] = true
								}
							}
							continue
						}
						if fn.Synthetic == "package initializer" {
							continue
						}
						switch i.(type) {
						case *ssa.IndexAddr, *ssa.FieldAddr:
							// address taken for reading or writing: look at uses
							v := i.(ssa.Value)
							for _, r := range *v.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
									continue
								}
								if _, ok := r.(*ssa.DebugRef); ok {
									continue
								}
								m[gl] = true
							}
							continue
						case *ssa.DebugRef:
							continue
						}
						m[gl] = true
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				scan(a)
			}
		}
		for _, mem := range g.Pkg.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				scan(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == g.Pkg {
							scan(f)
						}
					}
				}
			}
		}
		p.roMemo[g.Pkg] = m
	}
	return !m[g]
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.mu.Unlock()
	return fn
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

// Candidate is a possible violation found by the solver.
type Candidate struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, hang
	Vars    map[string]int64
	Params  map[string]int
	Detail  string
}

// Coverage of target functions.
type cover struct {
	mu sync.Mutex
	m  map[*ssa.Function]int64
}

func (c *cover) hit(fn *ssa.Function) {
	c.mu.Lock()
	c.m[fn]++
	c.mu.Unlock()
}

// Engine explores one harness.
type Engine struct {
	*Program
	harness string
	fn      *ssa.Function
	params  map[string]int
	opts    runOpts

	pool  modelPool
	cache *solverCache
	stats *Stats
	dump  *queryDump
	cover *cover

	mu       sync.Mutex
	cond     *sync.Cond
	stack    [][]choice
	active   int
	stopped  bool
	deadline time.Time

	notes     map[string]int
	forks     map[*ssa.Function]int
	reached   map[string]int
	cands     []Candidate
	candCount map[string]int
	endCount  map[string]int64
	unsupMsg  map[string]int64
	paths     int64
	pathsDone int64
	steps     int64
	maxPathSt int64
	truncated bool
	abort     int32 // paths are to end: out of time or memory
	left      int
	nForks    int64
	sampleIn  []sample
	sampleN   int64
}

type runOpts struct {
	maxSteps   int64
	maxDepth   int
	timeout    time.Duration
	workers    int
	hang       bool // exceeding the step budget is a candidate
	maxCands   int
	first      bool // stop at the first candidate
	maxPaths   int64
	debug      bool
	keepGoing  bool
	noSamples  bool
	solverTime int
	seed       int64
	nSamples   int
}

// sample is a passing path with a model, for validation against the native build.
type sample struct {
	Candidate
	reach string
	steps int64
}

func (e *Engine) addCacheHit() { atomic.AddInt64(&e.stats.CacheHits, 1) }

func (e *Engine) push(alt []choice) {
	atomic.AddInt64(&e.nForks, 1)
	e.mu.Lock()
	e.stack = append(e.stack, alt)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) noteFork(fn *ssa.Function) {
	if !e.opts.debug {
		return
	}
	e.mu.Lock()
	e.forks[fn]++
	e.mu.Unlock()
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func NewEngine(p *Program, harness string, params map[string]int, o runOpts, st *Stats, cache *solverCache, dump *queryDump, cov *cover) *Engine {
	e := &Engine{Program: p, harness: harness, params: params, opts: o, cache: cache, stats: st, dump: dump, cover: cov}
	e.cond = sync.NewCond(&e.mu)
	e.notes = map[string]int{}
	e.forks = map[*ssa.Function]int{}
	e.reached = map[string]int{}
	e.candCount = map[string]int{}
	e.endCount = map[string]int64{}
	e.unsupMsg = map[string]int64{}
	if p.harn == nil {
		fatal("harness package not loaded")
	}
	e.fn = p.harn.Func(harness)
	if e.fn == nil {
		fatal("no harness %s", harness)
	}
	return e
}

// workerPool keeps interpreters (with initialised package state and solver
// processes) across harnesses of one run.
type workerPool struct {
	ins []*Interp
}

func newInterp(p *Program, st *Stats, dump *queryDump, timeoutMs int) *Interp {
	in := &Interp{
		tt:      NewTermTable(),
		globals: map[*ssa.Global]*value{},
		fns:     map[*ssa.Function]*fnInfo{},
		inited:  map[*ssa.Package]int{},
		methods: map[methKey]*ssa.Function{},
	}
	in.solver = NewSolver(st, dump, timeoutMs)
	in.anonMemo = map[*Term]uint64{}
	in.mergeMemo = map[string]value{}
	in.tabMemo = map[string]*tabRes{}
	in.mergeFail = map[*ssa.Function]int{}
	in.sets = map[interface{}]*RuneSet{}
	in.implMemo = map[implKey]bool{}
	in.sizesMemo = map[*Term]*Term{}
	return in
}

func (e *Engine) Run(pool *workerPool) {
	n := e.opts.workers
	if n <= 0 {
		n = runtime.NumCPU()
	}
	for len(pool.ins) < n {
		pool.ins = append(pool.ins, newInterp(e.Program, e.stats, e.dump, e.opts.solverTime))
	}
	for _, in := range pool.ins {
		in.resetTerms()
	}
	e.deadline = time.Now().Add(e.opts.timeout)
	e.stack = [][]choice{nil}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		last := time.Now()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				full := heapBytes() > 14<<30
				if full || time.Now().After(e.deadline.Add(8*time.Second)) {
					// end the paths that are being executed, too
					atomic.StoreInt32(&e.abort, 1)
				}
				if full || time.Now().After(e.deadline) {
					e.mu.Lock()
					e.stopped = true
					e.cond.Broadcast()
					e.mu.Unlock()
				}
				if e.opts.debug && time.Since(last) > 5*time.Second {
					last = time.Now()
					e.mu.Lock()
					fmt.Fprintf(os.Stderr, "  %s: paths=%d stack=%d cands=%d queries=%d\n", e.harness, e.paths, len(e.stack), len(e.cands), atomic.LoadInt64(&e.stats.Queries))
					e.mu.Unlock()
				}
			}
		}
	}()
	for w := 0; w < n; w++ {
		in := pool.ins[w]
		in.eng = e
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.stack) == 0 && e.active > 0 && !e.stopped {
					e.cond.Wait()
				}
				if e.stopped || len(e.stack) == 0 {
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				job := e.stack[len(e.stack)-1]
				e.stack = e.stack[:len(e.stack)-1]
				e.active++
				e.mu.Unlock()
				e.runPath(in, job)
				e.mu.Lock()
				e.active--
				if e.active == 0 && len(e.stack) == 0 {
					e.cond.Broadcast()
				}
				if e.opts.maxPaths > 0 && e.paths >= e.opts.maxPaths {
					e.stopped = true
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(stop)
	e.left = len(e.stack)
	e.truncated = e.left > 0 || atomic.LoadInt32(&e.abort) != 0
}

// heapBytes is the memory of the heap's objects.
func heapBytes() uint64 {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

// runPath executes one path from its decision prefix.
func (e *Engine) runPath(in *Interp, prefix []choice) {
	in.prefix = prefix
	in.pos = 0
	in.trace = nil
	in.pc = nil
	in.domPC = map[int32]int{}
	in.bind = map[int32]*Term{}
	in.simpMemo = map[*Term]*Term{}
	in.steps = 0
	in.maxSteps = e.opts.maxSteps
	in.maxDepth = e.opts.maxDepth
	in.depth = 0
	in.vars = nil
	in.varSet = map[*Term]bool{}
	in.varCount = map[string]int{}
	in.reached = map[string]bool{}
	in.tokLex = map[*value]value{}
	in.scalarVar = map[*Term]bool{}
	in.stdout = nil
	in.exitCode = nil
	in.pureEv = 0
	in.inInit = 0
	in.hostState = map[interface{}]interface{}{}
	if len(in.tt.tab) > 3000000 {
		// keep memory bounded: fresh tables
		in.resetTerms()
	}
	end := "return"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				end = x.why
				if e.opts.hang && (x.why == "steps" || x.why == "depth" || x.why == "memory") {
					in.candidate("hang", "does not terminate", "step budget exceeded ("+x.why+")")
				}
			case targetPanic:
				end = "panic"
				in.candidate("panic", "uncaught panic", in.describePanic(x))
			case unsupported:
				end = "unsupported"
				e.mu.Lock()
				e.unsupMsg[x.msg]++
				e.mu.Unlock()
			case runtime.Error:
				end = "unsupported"
				msg := fmt.Sprintf("engine: %v", x)
				if os.Getenv("VENGINE_DEBUG") != "" {
					buf := make([]byte, 1<<14)
					buf = buf[:runtime.Stack(buf, false)]
					fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, buf)
				}
				e.mu.Lock()
				e.unsupMsg[msg]++
				e.mu.Unlock()
			default:
				panic(r)
			}
		}()
		in.call(nil, e.fn, nil, nil)
	}()
	in.inInit = 0
	in.pureEv = 0
	in.rollback(0)
	// reservoir sample of passing paths
	wantSample := false
	var sm sample
	var slot int
	if end == "return" && e.opts.nSamples > 0 {
		e.mu.Lock()
		e.sampleN++
		h := mix(uint64(e.opts.seed)*0x9e3779b97f4a7c15+uint64(e.sampleN), 99)
		k := int64(h % uint64(e.sampleN))
		if e.sampleN <= int64(e.opts.nSamples) {
			wantSample = true
		} else if k < int64(e.opts.nSamples) && e.sampleN < 200000 {
			wantSample, slot = true, int(k)
		}
		e.mu.Unlock()
		if wantSample {
			m := map[string]uint64{}
			if in.solver.Check(in.pc, m, in.vars) == sat {
				sm.Candidate = Candidate{Harness: e.harness, Kind: "sample", Vars: map[string]int64{}, Params: e.params}
				for _, v := range in.vars {
					sm.Vars[varName(v)] = int64(m[v.name])
				}
			} else {
				wantSample = false
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.endCount[end]++
	e.steps += in.steps
	if in.steps > e.maxPathSt {
		e.maxPathSt = in.steps
	}
	if end == "return" || end == "panic" {
		for r := range in.reached {
			e.reached[r]++
		}
	}
	if wantSample {
		sm.reach = joinSet(in.reached)
		sm.steps = in.steps
		if len(e.sampleIn) < e.opts.nSamples {
			e.sampleIn = append(e.sampleIn, sm)
		} else {
			e.sampleIn[slot] = sm
		}
	}
}

func (in *Interp) resetTerms() {
	// term identities are baked into memo tables and global memory only as
	// constants, so the tables can be dropped between paths
	in.tt = NewTermTable()
	in.anonMemo = map[*Term]uint64{}
	in.mergeMemo = map[string]value{}
	in.tabMemo = map[string]*tabRes{}
	in.sizesMemo = map[*Term]*Term{}
	in.solver.Close()
	in.solver.start()
}

func (in *Interp) describePanic(tp targetPanic) string {
	s := "panic"
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = "panic (value not printable)"
			}
		}()
		switch v := tp.v.(type) {
		case iface:
			if v.t == nil {
				s = "panic(nil)"
				return
			}
			if str, ok := v.v.(string); ok {
				s = "panic: " + str
				return
			}
			s = "panic of type " + v.t.String()
		}
	}()
	if tp.where != "" {
		s += " in " + tp.where
	}
	return s
}

// candidate records a possible violation with a model of the path condition
// (and the extra conjuncts).
func (in *Interp) candidate(kind, msg, detail string, extra ...*Term) bool {
	e := in.eng
	key := kind + "|" + msg
	e.mu.Lock()
	if e.candCount[key] >= e.opts.maxCands {
		e.candCount[key]++
		e.mu.Unlock()
		return true
	}
	e.candCount[key]++
	e.mu.Unlock()
	conj := append(append([]*Term{}, in.pc...), extra...)
	m := map[string]uint64{}
	r := in.solver.Check(conj, m, in.vars)
	if r != sat {
		e.mu.Lock()
		e.candCount[key]--
		e.mu.Unlock()
		return false
	}
	c := Candidate{Harness: e.harness, Msg: msg, Kind: kind, Vars: map[string]int64{}, Params: e.params, Detail: detail}
	for _, v := range in.vars {
		c.Vars[varName(v)] = int64(m[v.name])
	}
	e.mu.Lock()
	e.cands = append(e.cands, c)
	if e.opts.first {
		e.stopped = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
	return true
}

func (c *cover) names() []string {
	var r []string
	for f := range c.m {
		n := f.String()
		if strings.Contains(n, overlayDir) {
			continue
		}
		r = append(r, strings.ReplaceAll(n, modPath+"/", ""))
	}
	sort.Strings(r)
	return r
}

// varName is the harness name of a variable.
func varName(v *Term) string { return v.name[:strings.LastIndexByte(v.name, ':')] }
