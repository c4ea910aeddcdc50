package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func coverMap() map[*ssa.Function]int64 { return map[*ssa.Function]int64{} }

// replayer runs candidates against the native build of the target.
type replayer struct {
	verif, repo string
	dir         string
	bin         string
	err         error

	progOnce sync.Once
	prog     string
	progErr  error
	goroot   string
}

var replayOnce sync.Once
var theReplayer *replayer

func newReplayer(verif, repo string) *replayer {
	replayOnce.Do(func() {
		r := &replayer{verif: verif, repo: repo}
		theReplayer = r
		r.dir, r.err = os.MkdirTemp("", "vengine-replay-")
		if r.err != nil {
			return
		}
		r.bin = filepath.Join(r.dir, "replay")
		ov := map[string]map[string]string{"Replace": {}}
		for dst, src := range overlayFiles(verif, repo) {
			ov["Replace"][dst] = src
		}
		// registry of harnesses, generated from the harness sources
		main := r.genMain(filepath.Join(verif, "harness", "harness"))
		mp := filepath.Join(r.dir, "main.go")
		os.WriteFile(mp, []byte(main), 0644)
		ov["Replace"][filepath.Join(repo, overlayDir, "zz_replay", "main.go")] = mp
		b, _ := json.Marshal(ov)
		op := filepath.Join(r.dir, "overlay.json")
		os.WriteFile(op, b, 0644)
		cmd := exec.Command("go", "build", "-overlay", op, "-o", r.bin, "./"+overlayDir+"/zz_replay")
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	})
	return theReplayer
}

// program builds a program of the target.
func (r *replayer) program(pkg string, env []string) (string, error) {
	r.progOnce.Do(func() {
		r.prog = filepath.Join(r.dir, "program")
		if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
			r.goroot = strings.TrimSpace(string(out))
		}
		cmd := exec.Command("go", "build", "-o", r.prog, pkg)
		cmd.Dir = r.repo
		cmd.Env = append(append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0"), env...)
		if out, err := cmd.CombinedOutput(); err != nil {
			r.progErr = fmt.Errorf("native build of %s: %v: %s", pkg, err, out)
		}
	})
	return r.prog, r.progErr
}

func cleanupReplayer() {
	if theReplayer != nil && theReplayer.dir != "" {
		os.RemoveAll(theReplayer.dir)
	}
}

func (r *replayer) genMain(dir string) string {
	var names []string
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func H_") && strings.Contains(l, "()") {
				names = append(names, strings.TrimPrefix(l[:strings.Index(l, "(")], "func "))
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"" + harnPath + "\"\n\t\"" + vsymPath + "\"\n)\n\nvar reg = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: harness.%s,\n", n, n)
	}
	sb.WriteString("}\n\nfunc main() {\n\tvar r vsym.Replay\n\tb, err := os.ReadFile(os.Args[1])\n\tif err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(9)\n\t}\n\tif err := json.Unmarshal(b, &r); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(9)\n\t}\n\tvsym.Load(r)\n\tf := reg[r.Harness]\n\tif f == nil {\n\t\tfmt.Println(\"no harness\", r.Harness)\n\t\tos.Exit(9)\n\t}\n\tf()\n\tfmt.Println(\"VSYM-OK\")\n}\n")
	return sb.String()
}

type replayResult struct {
	confirmed bool
	status    string
	out       string
}

func (r replayResult) String() string {
	return fmt.Sprintf("confirmed=%v %s\n%s", r.confirmed, r.status, r.out)
}

type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Msg      string            `json:"msg"`
	Kind     string            `json:"kind"`
	Vars     map[string]int64  `json:"vars"`
	Params   map[string]int    `json:"params"`
	Detail   string            `json:"detail,omitempty"`
	Observed string            `json:"observed,omitempty"`
	Inputs   map[string]string `json:"inputs,omitempty"`
}

const replayLimitSec = 10

func (r *replayer) run(c Candidate, prop string) replayResult {
	if r.err != nil {
		return replayResult{false, "cannot build: " + r.err.Error(), ""}
	}
	rf := replayFile{Property: prop, Harness: c.Harness, Msg: c.Msg, Kind: c.Kind, Vars: c.Vars, Params: c.Params, Detail: c.Detail}
	b, _ := json.Marshal(rf)
	f, _ := os.CreateTemp(r.dir, "cand-*.json")
	f.Write(b)
	f.Close()
	return r.runFile(f.Name(), c)
}

func (r *replayer) runFile(path string, c Candidate) replayResult {
	ctx, cancel := context.WithTimeout(context.Background(), replayLimitSec*time.Second)
	defer cancel()
	// memory is capped so that runaway growth ends as a crash
	limit := "ulimit -v 6000000; "
	if strings.HasPrefix(c.Harness, "H_C25_") {
		limit = "" // node reserves address space
	}
	cmd := exec.CommandContext(ctx, "bash", "-c", limit+"exec \"$0\" \"$1\"", r.bin, path)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=2")
	if pat, env := target(c.Harness); pat != nil {
		prog, err := r.program(pat[0], env)
		if err != nil {
			return replayResult{false, err.Error(), ""}
		}
		cmd.Env = append(cmd.Env, "VSYM_PROGRAM="+prog, "VSYM_SCRATCH="+r.dir, "VSYM_GOROOT="+r.goroot)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Dir = r.dir
	err := cmd.Run()
	o := out.String()
	if len(o) > 40000 {
		o = o[:40000] + "..."
	}
	if ctx.Err() != nil {
		return replayResult{c.Kind == "hang", "timeout: no termination within the limit", o}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case code == 0:
		return replayResult{false, "native run passes", o}
	case code == 3:
		return replayResult{true, "assertion fails natively", o}
	case code == 4:
		return replayResult{false, "assumption false natively", o}
	case code == 9:
		return replayResult{false, "replay error", o}
	default:
		crash := strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") || strings.Contains(o, "goroutine ")
		return replayResult{crash, fmt.Sprintf("native run crashes (exit %d)", code), o}
	}
}
