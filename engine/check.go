package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// checkSpec is one property's entry of checks.json.
type checkSpec struct {
	Harness []harnessSpec `json:"harness"`
	Bounds  string        `json:"bounds"`
	Outside string        `json:"outside"`
	Assume  []string      `json:"assume"`
}

type harnessSpec struct {
	Fn      string         `json:"fn"`
	Q       map[string]int `json:"q"`
	T       map[string]int `json:"t"`
	QSec    int            `json:"qsec"` // budget, quick
	TSec    int            `json:"tsec"`
	Hang    bool           `json:"hang"` // exceeding the step budget is a violation
	Steps   int64          `json:"steps"`
	Require []string       `json:"require"`
	Skip    string         `json:"skip"` // "quick": thorough only
}

type known struct {
	Property, Harness, Msg, What string
}

// readKnown parses the known-findings file: lines
//
//	known: property=<id> harness=<H> msg=<assertion text> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			fatal("known-findings: bad line %q", l)
		}
		k := known{What: l[i+4:]}
		l = l[:i]
		j := strings.Index(l, " msg=")
		k.Msg = l[j+5:]
		for _, f := range strings.Fields(l[:j]) {
			if strings.HasPrefix(f, "property=") {
				k.Property = f[9:]
			}
			if strings.HasPrefix(f, "harness=") {
				k.Harness = f[8:]
			}
		}
		ks = append(ks, k)
	}
	return ks
}

// quickTotal is the number of seconds a quick check explores for at most.
const quickTotal = 600

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	tier := fs.String("tier", "quick", "")
	verbose := fs.Bool("v", false, "")
	noEv := fs.Bool("noev", false, "do not write evidence")
	first := fs.Bool("first", false, "stop at the first violation")
	capSec := fs.Int("cap", 0, "seconds per harness at most")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fatal("usage: vengine check [-tier quick|thorough] PROPERTY")
	}
	prop := fs.Arg(0)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	var all map[string]checkSpec
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("checks.json: %v", err)
	}
	spec, ok := all[prop]
	if !ok {
		fatal("no check for %s", prop)
	}
	defer cleanupReplayer()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		cleanupReplayer()
		os.Exit(2)
	}()
	ks := readKnown(filepath.Join(*verif, "known-findings.txt"))

	if len(spec.Harness) == 0 {
		fatal("no harness for %s", prop)
	}
	pat, env := target(spec.Harness[0].Fn)
	p := loadProgram(*verif, *repo, append([]string{harnPath}, pat...), env)
	repCh := make(chan *replayer, 1)
	go func() { repCh <- newReplayer(*verif, *repo) }()

	st := &Stats{}
	cov := &cover{m: coverMap()}
	dump := &queryDump{every: 7, max: 40}
	pool := &workerPool{}
	cache := newSolverCache()

	type hres struct {
		Fn        string           `json:"harness"`
		Params    map[string]int   `json:"bounds"`
		Paths     int64            `json:"paths"`
		Ends      map[string]int64 `json:"path_ends"`
		Steps     int64            `json:"ssa_instructions"`
		MaxSteps  int64            `json:"longest_path"`
		Complete  bool             `json:"complete"`
		Left      int              `json:"unexplored_branches"`
		Unsup     map[string]int64 `json:"not_encoded,omitempty"`
		Notes     map[string]int   `json:"notes,omitempty"`
		Reached   map[string]int   `json:"witnesses"`
		Missing   []string         `json:"witnesses_missing,omitempty"`
		Validated int              `json:"paths_validated_natively"`
		Mismatch  []string         `json:"native_mismatch,omitempty"`
		Unconf    []string         `json:"unconfirmed_candidates,omitempty"`
		WallS     float64          `json:"wall_s"`
	}
	var results []hres
	var samples []interface{}
	violations := 0
	reported := map[string]bool{}
	var totPaths, totSteps, totForks int64
	validated := 0
	complete := true
	repDir := filepath.Join(*verif, "evidence", "replays")
	knownSeen := map[string]bool{}

	report := func(c Candidate, res replayResult) {
		for _, k := range ks {
			if k.Property == prop && k.Harness == c.Harness && k.Msg == c.Msg {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				return
			}
		}
		key := c.Harness + "|" + c.Kind + "|" + c.Msg
		if reported[key] {
			return
		}
		reported[key] = true
		violations++
		os.MkdirAll(repDir, 0755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, violations))
		rf := replayFile{Property: prop, Harness: c.Harness, Msg: c.Msg, Kind: c.Kind, Vars: c.Vars, Params: c.Params, Detail: c.Detail, Observed: res.status + "\n" + res.out}
		jb, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, jb, 0644)
		fmt.Printf("%s: %s: %s %s\n", c.Harness, c.Kind, c.Msg, c.Detail)
		for _, l := range strings.Split(res.out, "\n") {
			if strings.HasPrefix(l, "INPUT ") || strings.HasPrefix(l, "VSYM-ASSERT") || strings.HasPrefix(l, "panic: ") {
				if len(l) > 300 {
					l = l[:300]
				}
				fmt.Println("  " + l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}

	for _, h := range spec.Harness {
		params, sec := h.Q, h.QSec
		if *tier == "thorough" {
			if h.T != nil {
				params = h.T
			}
			sec = h.TSec
			if sec == 0 {
				sec = 600
			}
		} else if h.Skip == "quick" {
			continue
		}
		if sec == 0 {
			sec = 60
		}
		if *tier != "thorough" {
			// the whole quick check stays well below its limit
			if left := quickTotal - int(time.Since(t0).Seconds()); sec > left {
				sec = left
			}
			if sec < 5 {
				sec = 5
			}
		}
		if *capSec > 0 && sec > *capSec {
			sec = *capSec
		}
		steps := h.Steps
		if steps == 0 {
			steps = 3000000
		}
		o := runOpts{maxSteps: steps, maxDepth: 12000, timeout: time.Duration(sec) * time.Second, workers: 8, hang: h.Hang, maxCands: 3, solverTime: 20000, seed: int64(seed), nSamples: 24, first: *first}
		e := NewEngine(p, h.Fn, params, o, st, cache, dump, cov)
		t1 := time.Now()
		e.Run(pool)
		r := hres{Fn: h.Fn, Params: params, Paths: e.paths, Ends: e.endCount, Steps: e.steps, MaxSteps: e.maxPathSt, Complete: !e.truncated, Left: e.left, Unsup: e.unsupMsg, Notes: e.notes, Reached: e.reached}
		totPaths += e.paths
		totSteps += e.steps
		totForks += atomic.LoadInt64(&e.nForks)
		rep := <-repCh
		repCh <- rep
		if rep.err != nil {
			fatal("%v", rep.err)
		}
		// candidates: replay natively, in parallel
		cres := make([]replayResult, len(e.cands))
		sres := make([]replayResult, len(e.sampleIn))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 6)
		run := func(f func()) {
			wg.Add(1)
			sem <- struct{}{}
			go func() { defer wg.Done(); f(); <-sem }()
		}
		for i := range e.cands {
			i := i
			run(func() { cres[i] = rep.run(e.cands[i], prop) })
		}
		for i := range e.sampleIn {
			i := i
			run(func() { sres[i] = rep.run(e.sampleIn[i].Candidate, prop) })
		}
		wg.Wait()
		for i, c := range e.cands {
			if cres[i].confirmed {
				report(c, cres[i])
			} else {
				r.Unconf = append(r.Unconf, fmt.Sprintf("%s %s %s: %s", c.Kind, c.Msg, c.Detail, cres[i].status))
			}
		}
		for i, s := range e.sampleIn {
			res := sres[i]
			switch {
			case res.confirmed:
				// a passing path whose native run fails: the engine's model is
				// wrong for it, and the real code breaks the property
				c := s.Candidate
				c.Kind = "assert"
				for _, l := range strings.Split(res.out, "\n") {
					if strings.HasPrefix(l, "VSYM-ASSERT-FAILED ") {
						c.Msg = strings.TrimPrefix(l, "VSYM-ASSERT-FAILED ")
					}
				}
				report(c, res)
				r.Mismatch = append(r.Mismatch, "passing path fails natively: "+c.Msg)
			case res.status != "native run passes":
				r.Mismatch = append(r.Mismatch, res.status)
			default:
				got := reachLines(res.out)
				if got != s.reach {
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("witnesses differ: engine %q, native %q", s.reach, got))
				} else {
					r.Validated++
					if len(samples) < 12 {
						samples = append(samples, map[string]interface{}{"harness": h.Fn, "inputs": inputLines(res.out), "witnesses": got, "ssa_instructions": s.steps})
					}
				}
			}
		}
		for _, q := range h.Require {
			if e.reached[q] == 0 {
				r.Missing = append(r.Missing, q)
			}
		}
		validated += r.Validated
		r.WallS = time.Since(t1).Seconds()
		if !r.Complete || len(r.Unsup) > 0 {
			complete = false
		}
		results = append(results, r)
		fmt.Printf("%s %v: %d paths, complete=%v, %.1fs, %d validated", h.Fn, params, r.Paths, r.Complete, r.WallS, r.Validated)
		if len(r.Unsup) > 0 {
			fmt.Printf(", not encoded: %v", r.Unsup)
		}
		if len(r.Missing) > 0 {
			fmt.Printf(", MISSING WITNESSES %v", r.Missing)
		}
		if len(r.Mismatch) > 0 {
			fmt.Printf(", NATIVE MISMATCH %v", r.Mismatch)
		}
		if len(r.Unconf) > 0 {
			fmt.Printf(", UNCONFIRMED %v", r.Unconf)
		}
		fmt.Println()
		if *verbose {
			fmt.Println("   ", e.reached, e.notes, e.endCount)
		}
		if *first && violations > 0 {
			break
		}
	}
	if !complete {
		fmt.Printf("REDUCED property=%s: not every path within the bounds was decided (see the evidence file)\n", prop)
	}
	okc, bad := dump.crossCheck(st)
	if bad > 0 {
		fmt.Printf("solver disagreement on %d queries\n", bad)
	}
	wall := time.Since(t0).Seconds()
	if !*noEv {
		if samples == nil {
			samples = []interface{}{}
		}
		ev := map[string]interface{}{
			"property": prop, "tier": *tier, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{
				"states":                        totPaths,
				"transitions":                   totSteps,
				"traces_validated_against_impl": validated,
				"samples":                       samples,
				"exhaustive":                    complete,
				"explanation":                   "states: symbolic paths decided; transitions: SSA instructions executed symbolically; each path stands for every input satisfying its path condition. traces_validated_against_impl: solver models of passing paths run against the native build with equal witnesses.",
				"rule":                          "bounded symbolic execution of the SSA form of the current source; every branch and assertion decided by z3 for all inputs within the bounds",
				"bounds":                        spec.Bounds,
				"outside_bounds":                spec.Outside,
				"harnesses":                     results,
				"functions_encoded":             cov.names(),
				"branch_decisions":              totForks,
				"solver": map[string]interface{}{
					"solver": "z3", "queries_discharged": st.Queries, "cache_hits": st.CacheHits, "unknown": st.Unknown, "solver_s": float64(st.SolverNs) / 1e9,
					"assertions_decided_by_query": st.AssertQ, "assertion_queries_unsat": st.AssertUns, "assertions_constant_on_path": st.AssertConc,
					"crosscheck": map[string]int{"cvc5_agrees": okc, "cvc5_disagrees": bad, "sampled": len(dump.list)},
				},
			},
			"assumptions": spec.Assume, "wall_s": wall, "violations": violations,
		}
		if spec.Assume == nil {
			ev["assumptions"] = []string{}
		}
		jb, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fatal("evidence: %v", err)
		}
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(*verif, "evidence", prop+".json"), jb, 0644); err != nil {
			fatal("evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: %d paths, %d queries, %.1fs, violations=%d\n", prop, *tier, totPaths, st.Queries, wall, violations)
	for _, in := range pool.ins {
		in.solver.Close()
	}
	cleanupReplayer()
	if violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func reachLines(out string) string {
	set := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "REACH ") {
			set[l[6:]] = true
		}
	}
	return joinSet(set)
}

func joinSet(set map[string]bool) string {
	var ls []string
	for l := range set {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return strings.Join(ls, ",")
}

func inputLines(out string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "INPUT ") {
			if i := strings.Index(l, " = "); i > 0 {
				m[l[6:i]] = l[i+3:]
			}
		}
	}
	return m
}

// cmdReplay runs a replay file against the current tree.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	r := newReplayer(*verif, *repo)
	abs, _ := filepath.Abs(fs.Arg(0))
	res := r.runFile(abs, Candidate{Kind: rf.Kind, Harness: rf.Harness})
	cleanupReplayer()
	fmt.Println(res)
	if res.confirmed {
		os.Exit(1)
	}
}
