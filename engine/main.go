package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if f := os.Getenv("VENGINE_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}

	if len(os.Args) < 2 {
		fatal("usage: vengine check|run ...")
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// cmdRun explores one harness and prints what was found (development aid).
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	h := fs.String("h", "", "harness")
	ps := fs.String("p", "", "params a=1,b=2")
	to := fs.Duration("t", 60*time.Second, "timeout")
	w := fs.Int("w", 8, "workers")
	maxSteps := fs.Int64("steps", 2000000, "")
	hang := fs.Bool("hang", false, "")
	replay := fs.Bool("replay", true, "")
	fs.Parse(args)
	params := map[string]int{}
	for _, kv := range strings.Split(*ps, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			n, _ := strconv.Atoi(kv[i+1:])
			params[kv[:i]] = n
		}
	}
	t0 := time.Now()
	pat, env := target(*h)
	p := loadProgram(*verif, *repo, append([]string{harnPath}, pat...), env)
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	st := &Stats{}
	cov := &cover{m: coverMap()}
	o := runOpts{maxSteps: *maxSteps, maxDepth: 12000, timeout: *to, workers: *w, hang: *hang, maxCands: 3, debug: true, solverTime: 20000}
	pool := &workerPool{}
	for _, name := range strings.Split(*h, ",") {
		e := NewEngine(p, name, params, o, st, newSolverCache(), nil, cov)
		t1 := time.Now()
		e.Run(pool)
		fmt.Printf("%s: paths=%d ends=%v truncated=%v left=%d steps=%d max=%d time=%v\n", name, e.paths, e.endCount, e.truncated, e.left, e.steps, e.maxPathSt, time.Since(t1))
		fmt.Printf("  stats %+v\n  reached %v\n", *st, e.reached)
		for m, n := range e.unsupMsg {
			fmt.Printf("  UNSUPPORTED %d x %s\n", n, m)
		}
		for m, n := range e.notes {
			fmt.Printf("  NOTE %d x %s\n", n, m)
		}
		type fc struct {
			n string
			c int
		}
		var fcs []fc
		for f, c := range e.forks {
			nm := "?"
			if f != nil {
				nm = f.String()
			}
			fcs = append(fcs, fc{nm, c})
		}
		sort.Slice(fcs, func(i, j int) bool { return fcs[i].c > fcs[j].c })
		for i, f := range fcs {
			if i > 12 {
				break
			}
			fmt.Printf("  forks %6d %s\n", f.c, f.n)
		}
		for _, c := range e.cands {
			fmt.Printf("  CAND %s %q %s %v\n", c.Kind, c.Msg, c.Detail, c.Vars)
			if *replay {
				r := newReplayer(*verif, *repo)
				res := r.run(c, "")
				fmt.Printf("    replay: %s\n", strings.ReplaceAll(res.String(), "\n", "\n      "))
			}
		}
	}
}
