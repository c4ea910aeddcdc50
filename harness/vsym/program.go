package vsym

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Kinds of File.
const (
	FileMissing = iota
	FileRegular
	FileDirectory
)

// File is what a command finds under a name.
type File struct {
	Name string
	Kind int
	Text string
}

// Run is the outcome of a command: its exit status, and its standard output
// as JSON documents and the texts before, between and after them.
type Run struct {
	Exit int
	Text []string
	Docs []interface{}
}

// Command runs the estree command with arguments in a directory that contains
// the files.
func Command(args []string, files []File) Run {
	dir, err := os.MkdirTemp(os.Getenv("VSYM_SCRATCH"), "run-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, f := range files {
		p := filepath.Join(dir, f.Name)
		switch f.Kind {
		case FileRegular:
			err = os.WriteFile(p, []byte(f.Text), 0644)
		case FileDirectory:
			err = os.MkdirAll(p, 0755)
		}
		if err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(os.Getenv("VSYM_PROGRAM"), args...)
	cmd.Dir = dir
	var out, errOut bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errOut
	r := Run{}
	if err := cmd.Run(); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.Exit = ee.ExitCode()
	}
	if r.Exit == 2 && strings.Contains(errOut.String(), "goroutine ") {
		panic("the command crashed: " + errOut.String())
	}
	r.Text, r.Docs = splitJSON(out.String())
	return r
}

func splitJSON(s string) (text []string, docs []interface{}) {
	text = []string{""}
	for s != "" {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			i = len(s)
		}
		text[len(text)-1] += s[:i]
		s = s[i:]
		if s == "" {
			break
		}
		d := json.NewDecoder(strings.NewReader(s))
		var x interface{}
		if d.Decode(&x) != nil {
			text[len(text)-1] += s
			break
		}
		docs = append(docs, x)
		text = append(text, "")
		s = s[d.InputOffset():]
	}
	return text, docs
}

// JSON is the document a text consists of.
func JSON(text string) (doc interface{}, ok bool) {
	t, docs := splitJSON(text)
	if len(docs) != 1 || strings.TrimSpace(strings.Join(t, "")) != "" {
		return nil, false
	}
	return docs[0], true
}

// Answer is an object the browser entry point returns: its string properties
// result and error, and how many properties it has.
type Answer struct {
	Result    string
	HasResult bool
	Error     string
	HasError  bool
	Fields    int
}

const browserScript = `
const fs = require('fs'), env = process.env;
globalThis.require = require; globalThis.fs = fs; globalThis.path = require('path');
require(env.VSYM_GOROOT + '/lib/wasm/wasm_exec.js');
const srcs = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = [];
const done = () => {
	while (out.length < srcs.length) out.push({});
	fs.writeFileSync(process.argv[3], JSON.stringify(out));
	process.exit(0);
};
globalThis.parserLoaded = f => {
	for (const src of srcs) {
		let r;
		try { r = f(src); } catch (e) { done(); }
		if (r === undefined || r === null) done();
		out.push({fields: Object.keys(r).length, result: r.result, error: r.error});
	}
	done();
};
const go = new Go();
go.exit = done;
WebAssembly.instantiate(fs.readFileSync(env.VSYM_PROGRAM), go.importObject).then(r => go.run(r.instance));
`

// Browser hands source texts one after another to the function the browser
// program registers.
func Browser(srcs []string) []Answer {
	dir, err := os.MkdirTemp(os.Getenv("VSYM_SCRATCH"), "run-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	script, in, out := filepath.Join(dir, "run.js"), filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	b, _ := json.Marshal(srcs)
	if err := os.WriteFile(script, []byte(browserScript), 0644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(in, b, 0644); err != nil {
		panic(err)
	}
	cmd := exec.Command("node", script, in, out)
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stdout
	cmd.Env = append(os.Environ(), "GOMAXPROCS=", "GOMEMLIMIT=")
	if err := cmd.Run(); err != nil {
		panic(err)
	}
	b, err = os.ReadFile(out)
	if err != nil {
		panic(err)
	}
	var rs []struct {
		Fields        int
		Result, Error *string
	}
	if err := json.Unmarshal(b, &rs); err != nil {
		panic(err)
	}
	var as []Answer
	for _, r := range rs {
		a := Answer{Fields: r.Fields}
		if r.Result != nil {
			a.Result, a.HasResult = *r.Result, true
		}
		if r.Error != nil {
			a.Error, a.HasError = *r.Error, true
		}
		as = append(as, a)
	}
	return as
}
