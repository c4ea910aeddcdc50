package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var slowQ *os.File

func init() {
	if f := os.Getenv("VENGINE_SLOW"); f != "" {
		slowQ, _ = os.Create(f)
	}
}

// Stats are shared by all workers.
type Stats struct {
	Queries    int64 // satisfiability queries sent to the solver
	CacheHits  int64
	Unknown    int64
	SolverNs   int64
	BranchQ    int64
	AssertQ    int64 // assertion queries (negation under the path condition)
	AssertUns  int64 // ... answered unsat
	AssertConc int64 // assertions whose condition was already the constant true on the path
	CrossOK    int64
	CrossBad   int64
}

type satRes int8

const (
	unsat satRes = iota
	sat
	unknown
)

// solverCache maps structural keys of queries to verdicts; shared by workers.
type solverCache struct {
	sh [64]struct {
		sync.RWMutex
		m map[[2]uint64]satRes
		v map[[2]uint64]uint64 // values of concretised terms
	}
}

func newSolverCache() *solverCache {
	c := &solverCache{}
	for i := range c.sh {
		c.sh[i].m = map[[2]uint64]satRes{}
		c.sh[i].v = map[[2]uint64]uint64{}
	}
	return c
}

func (c *solverCache) get(k [2]uint64) (satRes, bool) {
	s := &c.sh[k[0]&63]
	s.RLock()
	r, ok := s.m[k]
	s.RUnlock()
	return r, ok
}

func (c *solverCache) put(k [2]uint64, r satRes) {
	s := &c.sh[k[0]&63]
	s.Lock()
	s.m[k] = r
	s.Unlock()
}

func (c *solverCache) value(k [2]uint64) (uint64, bool) {
	s := &c.sh[k[0]&63]
	s.RLock()
	v, ok := s.v[k]
	s.RUnlock()
	return v, ok
}

func (c *solverCache) putValue(k [2]uint64, v uint64) {
	s := &c.sh[k[0]&63]
	s.Lock()
	s.v[k] = v
	s.Unlock()
}

// Solver is one z3 process.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.Closer
	out      *bufio.Reader
	declared map[string]bool
	sets     map[string]bool
	stats    *Stats
	dump     *queryDump
	timeout  int
	fed      int // queries since start
}

// queryDump keeps a sample of queries for a second solver.
type queryDump struct {
	sync.Mutex
	every int64
	n     int64
	max   int
	list  []dumped
}

type dumped struct {
	text string
	res  satRes
}

func NewSolver(st *Stats, dump *queryDump, timeoutMs int) *Solver {
	s := &Solver{stats: st, dump: dump, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := os.Getenv("VENGINE_Z3")
	if bin == "" {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inPipe = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	s.sets = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	s.fed = 0
}

func (s *Solver) Close() {
	s.in.Flush()
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func declText(ts []*Term, declared map[string]bool, sets map[string]bool, out *strings.Builder) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.vars) == 0 {
			return
		}
		seen[t] = true
		switch t.op {
		case OpVar:
			if !declared[t.name] {
				declared[t.name] = true
				if t.w == 0 {
					fmt.Fprintf(out, "(declare-const |%s| Bool)\n", t.name)
				} else {
					fmt.Fprintf(out, "(declare-const |%s| (_ BitVec %d))\n", t.name, t.w)
				}
			}
		case OpInSet:
			if !sets[t.name] {
				sets[t.name] = true
				out.WriteString(t.set.smt())
				out.WriteByte('\n')
			}
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error \"eof\")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Check asks whether the conjunction is satisfiable. With model != nil the
// values of the given variables are read back on sat.
func (s *Solver) Check(conj []*Term, model map[string]uint64, vars []*Term) satRes {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.SolverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	if s.fed > 20000 {
		s.Close()
		s.start()
	}
	s.fed++
	var sb strings.Builder
	declText(conj, s.declared, s.sets, &sb)
	if model != nil {
		declText(vars, s.declared, s.sets, &sb)
	}
	sb.WriteString("(push)\n")
	defText(conj, &sb)
	for _, c := range conj {
		sb.WriteString("(assert ")
		sb.WriteString(c.SMT())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	l := s.readLine()
	var r satRes
	switch l {
	case "sat":
		r = sat
	case "unsat":
		r = unsat
	default:
		r = unknown
		atomic.AddInt64(&s.stats.Unknown, 1)
		if strings.Contains(l, "error") {
			if os.Getenv("VENGINE_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "solver: %s\n%s\n", l, sb.String())
			}
			s.Close()
			s.start()
			return unknown
		}
	}
	if r == sat && model != nil {
		for _, v := range vars {
			fmt.Fprintf(s.in, "(get-value (|%s|))\n", v.name)
		}
		s.in.Flush()
		for _, v := range vars {
			l := s.readLine()
			for strings.Count(l, "(") > strings.Count(l, ")") {
				l += " " + s.readLine()
			}
			model[v.name] = parseValue(l)
		}
	}
	s.in.WriteString("(pop)\n")
	if d := time.Since(t0); slowQ != nil && d > 500*time.Millisecond {
		fmt.Fprintf(slowQ, "; %v %v\n%s\n", d, r, sb.String())
	}
	if s.dump != nil && r != unknown {
		d := s.dump
		n := atomic.AddInt64(&d.n, 1)
		if n%d.every == 0 {
			d.Lock()
			if len(d.list) < d.max {
				var full strings.Builder
				full.WriteString("(set-logic QF_BV)\n")
				declText(conj, map[string]bool{}, map[string]bool{}, &full)
				defText(conj, &full)
				for _, c := range conj {
					fmt.Fprintf(&full, "(assert %s)\n", c.SMT())
				}
				full.WriteString("(check-sat)\n")
				d.list = append(d.list, dumped{full.String(), r})
			}
			d.Unlock()
		}
	}
	return r
}

func parseValue(l string) uint64 {
	// ((|name| value))
	i := strings.LastIndex(l, "| ")
	if i < 0 {
		i = strings.LastIndex(l, " ")
	} else {
		i++
	}
	v := strings.TrimRight(strings.TrimSpace(l[i:]), ")")
	v = strings.TrimSpace(v)
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		n, _ := strconv.ParseUint(f[0], 10, 64)
		return n
	}
	fatal("cannot parse solver value %q", l)
	return 0
}

// crossCheck re-decides sampled queries with cvc5.
func (d *queryDump) crossCheck(st *Stats) (ok, bad int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var a, b int64
	for _, q := range d.list {
		q := q
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			c := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-q")
			c.Stdin = strings.NewReader(q.text)
			out, _ := c.Output()
			o := strings.TrimSpace(string(out))
			want := "sat"
			if q.res == unsat {
				want = "unsat"
			}
			if o == want {
				atomic.AddInt64(&a, 1)
			} else if o == "sat" || o == "unsat" {
				atomic.AddInt64(&b, 1)
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "CROSS-CHECK MISMATCH z3=%s cvc5=%s\n%s\n", want, o, q.text)
				}
			}
		}()
	}
	wg.Wait()
	return int(a), int(b)
}

// keys: for components over a single variable the variable name is left out of
// the key, so that equal questions about different variables share a verdict.
func anonHash(t *Term, memo map[*Term]uint64) uint64 {
	if len(t.vars) == 0 {
		return t.hash
	}
	if h, ok := memo[t]; ok {
		return h
	}
	h := mix(uint64(t.op)<<8|uint64(t.w), t.c)
	if t.op == OpInSet || t.op == OpMem {
		h = mix(h, strHash(t.name))
	}
	if t.op == OpAnd || t.op == OpOr || (t.op == OpEq) {
		// argument order depends on named hashes: combine commutatively
		var x, y uint64
		for _, a := range t.a {
			ah := anonHash(a, memo)
			x += ah * 0x9e3779b97f4a7c15
			y ^= mix(ah, 77)
		}
		h = mix(mix(h, x), y)
	} else {
		for _, a := range t.a {
			h = mix(h, anonHash(a, memo))
		}
	}
	h = mix(h, 0xabcdef)
	memo[t] = h
	return h
}

// queryKey is a 128-bit key of a conjunction.
func queryKey(conj []*Term, single bool, memo map[*Term]uint64) [2]uint64 {
	var k [2]uint64
	k[0] = uint64(len(conj))
	k[1] = 0x1234567
	if single {
		k[1] = 0x7654321
	}
	var x, y uint64
	for _, c := range conj {
		var h uint64
		if single {
			h = anonHash(c, memo)
		} else {
			h = c.hash
		}
		x += mix(h, 11)
		y += mix(h, 131)*3 ^ mix(h, 17)
	}
	k[0] = mix(k[0], x)
	k[1] = mix(k[1], y)
	return k
}
