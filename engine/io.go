package main

import (
	"encoding/json"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Models of the operating system and of the browser for the programs of the
// target: files, standard output, exit, flags, logging, JSON encoders and
// syscall/js. A harness runs a program's own main function.

func addStat(p *int64) { atomic.AddInt64(p, 1) }

const (
	cmdPath = modPath + "/cmd/estree"
	webPath = modPath + "/web/parser"
)

// exitPanic ends a program's main function.
type exitPanic struct{ code int }

// mainCaptured ends the browser program's main function.
type mainCaptured struct{ fn value }

// osFile is an open file of a program.
type osFile struct {
	std    int // 0 no standard file, else descriptor + 1
	kind   int64
	data   []value
	off    int
	closed bool
}

const (
	fileMissing = iota
	fileRegular
	fileDirectory
)

type osFiles struct {
	args  []value
	files map[string]*osFile
}

func (in *Interp) stdCell(n int) *value {
	if in.stdCells[n] == nil {
		c := new(value)
		*c = structV{&osFile{std: n + 1}}
		in.stdCells[n] = c
	}
	return in.stdCells[n]
}

// osGlobal is the value of a variable of package os.
func (in *Interp) osGlobal(g *ssa.Global) (value, bool) {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "os" {
		return nil, false
	}
	switch g.Name() {
	case "Stdin":
		return in.stdCell(0), true
	case "Stdout":
		return in.stdCell(1), true
	case "Stderr":
		return in.stdCell(2), true
	case "Args":
		return nil, false // programs use package flag
	}
	return nil, false
}

func (in *Interp) asFile(v value) *osFile {
	p, ok := v.(*value)
	if !ok || p == nil {
		return nil
	}
	s, ok := (*p).(structV)
	if !ok || len(s) != 1 {
		return nil
	}
	f, _ := s[0].(*osFile)
	return f
}

func (in *Interp) isStdFile(w iface, n int) bool {
	f := in.asFile(w.v)
	return f != nil && f.std == n+1
}

func (in *Interp) ioErr(msg string) iface { return in.newError(msg, iface{}).(iface) }

func (in *Interp) eofErr() value {
	g := in.eng.pkgs["io"].Var("EOF")
	return *in.global(g)
}

// jsonText is a JSON document as a string that is only written out where a
// program looks into it.
func jsonText(t iface, indent string) *LStr {
	l := &LStr{tree: &t}
	l.f = func(in *Interp) value { return in.treeText(t, indent, "") }
	return l
}

// hostChan is a channel, which no model uses.
type hostChan struct{}

// encState is a JSON encoder.
type encState struct {
	w      iface
	indent string
}

// writeTo writes to any writer.
func (in *Interp) writeTo(fr *frame, w iface, s value) value {
	if f := in.asFile(w.v); f != nil {
		switch f.std {
		case 2:
			in.writeStdout(s)
			return nilIface
		case 3:
			return nilIface
		}
		unsup("write to a file")
	}
	if w.t != nil && w.t.String() == "*strings.Builder" {
		intrinsics["(*strings.Builder).WriteString"](in, fr, []value{w.v, s})
		return nilIface
	}
	bs := in.strBytes(in.canonStr(s))
	return in.invokeByName(fr, w, "Write", []value{sliceV{bs}}).(tupleV)[1]
}

func (in *Interp) encoder(v value) *encState {
	st, ok := in.hostState[v].(*encState)
	if !ok {
		unsup("JSON encoder")
	}
	return st
}

func (in *Interp) env() *osFiles {
	e, ok := in.hostState["os"].(*osFiles)
	if !ok {
		unsup("files outside a program")
	}
	return e
}

// runMain calls a program's main function to its end.
func (in *Interp) runMain(fr *frame, path string) (code int, captured value) {
	pkg := in.eng.pkgs[path]
	if pkg == nil || pkg.Func("main") == nil {
		unsup("program %s is not loaded", path)
	}
	depth, cur := in.depth, in.curFn
	defer func() {
		switch x := recover().(type) {
		case nil:
		case exitPanic:
			code = x.code
			in.depth, in.curFn = depth, cur
		case mainCaptured:
			captured = x.fn
			in.depth, in.curFn = depth, cur
		default:
			panic(x)
		}
	}()
	in.call(fr, pkg.Func("main"), nil, nil)
	return 0, nil
}

// flatText is the pieces a lazy text is put together from.
func flatText(v value, out []value) []value {
	if l, ok := v.(*LStr); ok && l.tree == nil && l.parts != nil {
		for _, p := range l.parts {
			out = flatText(p, out)
		}
		return out
	}
	return append(out, v)
}

// splitDocs separates JSON documents from the text around them.
func (in *Interp) splitDocs(out []value) (text []string, docs []value) {
	text = []string{""}
	plain := ""
	flush := func() {
		ts, ds := splitJSON(plain)
		text[len(text)-1] += ts[0]
		j := &jsonEnc{in: in}
		for i, d := range ds {
			docs = append(docs, j.fromHost(d))
			text = append(text, ts[i+1])
		}
		plain = ""
	}
	var flat []value
	for _, v := range out {
		flat = flatText(v, flat)
	}
	for _, v := range flat {
		if l, ok := v.(*LStr); ok && l.tree != nil {
			flush()
			docs = append(docs, *l.tree)
			text = append(text, "")
			continue
		}
		plain += in.concStr(v)
	}
	flush()
	return text, docs
}

// splitJSON is the JSON objects of a text and the text around them.
func splitJSON(s string) (text []string, docs []interface{}) {
	text = []string{""}
	for s != "" {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			i = len(s)
		}
		text[len(text)-1] += s[:i]
		s = s[i:]
		if s == "" {
			break
		}
		d := json.NewDecoder(strings.NewReader(s))
		var x interface{}
		if d.Decode(&x) != nil {
			text[len(text)-1] += s
			break
		}
		docs = append(docs, x)
		text = append(text, "")
		s = s[d.InputOffset():]
	}
	return text, docs
}

func strSlice(ss []string) sliceV {
	a := []value{}
	for _, s := range ss {
		a = append(a, s)
	}
	return sliceV{a}
}

func registerIO() {
	vreg("Command", func(in *Interp, fr *frame, a []value) value {
		e := &osFiles{files: map[string]*osFile{}}
		args := a[0].(sliceV).a
		e.args = append(e.args, args...)
		for _, f := range a[1].(sliceV).a {
			s := f.(structV)
			e.files[in.concStr(s[0])] = &osFile{kind: in.concInt(s[1]), data: in.strBytes(in.canonStr(s[2]))}
		}
		in.hostState["os"] = e
		n := len(in.stdout)
		code, _ := in.runMain(fr, cmdPath)
		out := append([]value{}, in.stdout[n:]...)
		in.stdout = in.stdout[:n]
		delete(in.hostState, "os")
		text, docs := in.splitDocs(out)
		return structV{int64(code), strSlice(text), sliceV{docs}}
	})
	vreg("Browser", func(in *Interp, fr *frame, a []value) value {
		_, fn := in.runMain(fr, webPath)
		if fn == nil {
			unsup("the program hands no function to the browser")
		}
		var answers []value
		for _, src := range a[0].(sliceV).a {
			r := in.callValue(fr, fn, []value{jsVal(nil), sliceV{[]value{jsVal(src)}}})
			res := structV{"", false, "", false, int64(0)}
			if o, ok := in.jsOf(r).(*jsObject); ok {
				res[4] = int64(len(o.keys))
				if v, ok := o.m["result"]; ok && isJsString(v) {
					res[0], res[1] = v, true
				}
				if v, ok := o.m["error"]; ok && isJsString(v) {
					res[2], res[3] = v, true
				}
			}
			answers = append(answers, res)
		}
		return sliceV{answers}
	})
	// JSON is the document a text consists of.
	vreg("JSON", func(in *Interp, fr *frame, a []value) value {
		text, docs := in.splitDocs([]value{a[0]})
		if len(docs) != 1 || strings.TrimSpace(strings.Join(text, "")) != "" {
			return tup(nilIface, false)
		}
		return tup(docs[0], true)
	})

	// os
	open := func(in *Interp, v value) (value, iface) {
		name := in.concStr(v)
		f, ok := in.env().files[name]
		if !ok || f.kind == fileMissing {
			return (*value)(nil), in.ioErr("open " + name + ": no such file or directory")
		}
		c := new(value)
		*c = structV{&osFile{kind: f.kind, data: f.data}}
		return c, nilIface
	}
	reg("os.Open", func(in *Interp, fr *frame, a []value) value {
		f, err := open(in, a[0])
		return tup(f, err)
	})
	reg("os.OpenFile", func(in *Interp, fr *frame, a []value) value {
		if in.concInt(a[1]) != 0 {
			unsup("os.OpenFile for writing")
		}
		f, err := open(in, a[0])
		return tup(f, err)
	})
	reg("os.ReadFile", func(in *Interp, fr *frame, a []value) value {
		f, err := open(in, a[0])
		if err.t != nil {
			return tup(sliceV{}, err)
		}
		of := in.asFile(f)
		if of.kind == fileDirectory {
			return tup(sliceV{}, in.ioErr("read: is a directory"))
		}
		return tup(sliceV{append([]value{}, of.data...)}, nilIface)
	})
	reg("(*os.File).Read", func(in *Interp, fr *frame, a []value) value {
		f := in.asFile(a[0])
		if f == nil || f.std != 0 {
			unsup("read of a standard file")
		}
		if f.closed {
			return tup(int64(0), in.ioErr("file already closed"))
		}
		if f.kind == fileDirectory {
			return tup(int64(0), in.ioErr("read: is a directory"))
		}
		b := a[1].(sliceV).a
		if len(b) == 0 {
			return tup(int64(0), nilIface)
		}
		if f.off >= len(f.data) {
			return tup(int64(0), in.eofErr())
		}
		n := 0
		for n < len(b) && f.off+n < len(f.data) {
			in.store(&b[n], f.data[f.off+n])
			n++
		}
		f.off += n
		return tup(int64(n), nilIface)
	})
	reg("(*os.File).Close", func(in *Interp, fr *frame, a []value) value {
		f := in.asFile(a[0])
		if f == nil {
			return in.ioErr("invalid argument")
		}
		if f.closed {
			return in.ioErr("file already closed")
		}
		f.closed = true
		return nilIface
	})
	reg("(*os.File).Name", func(in *Interp, fr *frame, a []value) value { return "file" })
	reg("(*os.File).Sync", func(in *Interp, fr *frame, a []value) value { return nilIface })
	reg("(*os.File).Write", func(in *Interp, fr *frame, a []value) value {
		in.writeTo(fr, iface{tIface, a[0]}, in.bytesToStr(a[1].(sliceV).a))
		return tup(int64(len(a[1].(sliceV).a)), nilIface)
	})
	reg("(*os.File).WriteString", func(in *Interp, fr *frame, a []value) value {
		in.writeTo(fr, iface{tIface, a[0]}, a[1])
		return tup(int64(0), nilIface)
	})
	reg("os.Exit", func(in *Interp, fr *frame, a []value) value { panic(exitPanic{int(in.concInt(a[0]))}) })
	reg("os.Getwd", func(in *Interp, fr *frame, a []value) value { return tup("/work", nilIface) })
	reg("path/filepath.Abs", func(in *Interp, fr *frame, a []value) value {
		return tup(in.concatStr("/work/", a[0]), nilIface)
	})

	// flag
	reg("flag.Parse", func(in *Interp, fr *frame, a []value) value { return nil })
	reg("flag.Parsed", func(in *Interp, fr *frame, a []value) value { return true })
	reg("flag.Args", func(in *Interp, fr *frame, a []value) value {
		return sliceV{append([]value{}, in.env().args...)}
	})
	reg("flag.NArg", func(in *Interp, fr *frame, a []value) value { return int64(len(in.env().args)) })
	reg("flag.Arg", func(in *Interp, fr *frame, a []value) value {
		i := in.concInt(a[0])
		if i < 0 || int(i) >= len(in.env().args) {
			return ""
		}
		return in.env().args[i]
	})
	for _, k := range []string{"Bool", "Int", "String", "Uint", "Int64", "Float64", "Duration"} {
		reg("flag."+k, func(in *Interp, fr *frame, a []value) value {
			c := new(value)
			*c = a[1]
			return c
		})
		reg("flag."+k+"Var", func(in *Interp, fr *frame, a []value) value {
			in.store(a[0].(*value), a[2])
			return nil
		})
	}

	// log: messages go to standard error unless the program says otherwise
	logTo := func(in *Interp, fr *frame, s func() value) {
		w, ok := in.hostState["log"].(iface)
		if ok && !in.isStdFile(w, 2) {
			in.writeTo(fr, w, in.concatStr("2000/01/01 00:00:00 ", in.concatStr(s(), "\n")))
		}
	}
	reg("log.SetOutput", func(in *Interp, fr *frame, a []value) value {
		in.hostState["log"] = a[0]
		return nil
	})
	for _, k := range []string{"SetFlags", "SetPrefix"} {
		reg("log."+k, func(in *Interp, fr *frame, a []value) value { return nil })
	}
	type lf struct {
		name string
		end  int
		kind int // 0 format, 1 plain, 2 line
	}
	for _, l := range []lf{{"Printf", 0, 0}, {"Print", 0, 1}, {"Println", 0, 2}, {"Fatalf", 1, 0}, {"Fatal", 1, 1}, {"Fatalln", 1, 2}, {"Panicf", 2, 0}, {"Panic", 2, 1}, {"Panicln", 2, 2}} {
		l := l
		f := func(in *Interp, fr *frame, a []value) value {
			text := func() value {
				if l.kind == 0 {
					return intrinsics["fmt.Sprintf"](in, fr, a)
				}
				return intrinsics["fmt.Sprint"](in, fr, a)
			}
			logTo(in, fr, text)
			switch l.end {
			case 1:
				panic(exitPanic{1})
			case 2:
				panic(exitPanic{2})
			}
			return nil
		}
		reg("log."+l.name, f)
	}

	// encoding/json
	reg("encoding/json.NewEncoder", func(in *Interp, fr *frame, a []value) value {
		p := new(value)
		*p = structV{}
		in.hostState[p] = &encState{w: a[0].(iface)}
		return p
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(in *Interp, fr *frame, a []value) value { return nil })
	reg("(*encoding/json.Encoder).SetIndent", func(in *Interp, fr *frame, a []value) value {
		in.encoder(a[0]).indent = in.concStr(a[2])
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(in *Interp, fr *frame, a []value) value {
		e := in.encoder(a[0])
		j := &jsonEnc{in: in, fr: fr}
		t, ok := j.tree(a[1].(iface))
		if !ok {
			return in.ioErr("json: unsupported value")
		}
		return in.writeTo(fr, e.w, in.concatStr(jsonText(t, e.indent), "\n"))
	})
	marshal := func(in *Interp, fr *frame, v iface, indent string) value {
		j := &jsonEnc{in: in, fr: fr}
		t, ok := j.tree(v)
		if !ok {
			return tup(sliceV{}, in.ioErr("json: unsupported value"))
		}
		s := in.treeText(t, indent, "")
		bs := make([]value, len(s))
		for i := range bs {
			bs[i] = int64(s[i])
		}
		return tup(sliceV{bs}, nilIface)
	}
	reg("encoding/json.Marshal", func(in *Interp, fr *frame, a []value) value {
		return marshal(in, fr, a[0].(iface), "")
	})
	reg("encoding/json.MarshalIndent", func(in *Interp, fr *frame, a []value) value {
		return marshal(in, fr, a[0].(iface), in.concStr(a[2]))
	})
	reg("io.WriteString", func(in *Interp, fr *frame, a []value) value {
		return tup(int64(0), in.writeTo(fr, a[0].(iface), a[1]))
	})

	registerJS()
}

// ---- syscall/js ----

// jsObject is an object made by the program.
type jsObject struct {
	keys []string
	m    map[string]value
}

type jsGlobal struct{}
type jsObjectClass struct{}

// jsVal is a js.Value holding nil, a string, a number, a truth value, an
// object or a function.
func jsVal(v value) value { return structV{arrayV{}, v, (*value)(nil)} }

func jsInner(v value) value {
	s, ok := v.(structV)
	if !ok || len(s) < 2 {
		unsup("JavaScript value %T", v)
	}
	if i, ok := s[1].(int64); ok && i == 0 {
		return nil // the zero Value is undefined
	}
	return s[1]
}

func isJsString(v value) bool {
	switch v.(type) {
	case string, *SStr, *TStr, *LStr:
		return true
	}
	return false
}

// jsOf converts like js.ValueOf.
func (in *Interp) jsOf(v value) value {
	i, ok := v.(iface)
	if !ok {
		unsup("js.ValueOf(%T)", v)
	}
	if i.t == nil {
		return nil
	}
	switch i.t.String() {
	case "syscall/js.Value":
		return jsInner(i.v)
	case "syscall/js.Func":
		return jsInner(i.v.(structV)[0])
	case "map[string]interface{}", "map[string]any":
		o := &jsObject{m: map[string]value{}}
		if m, _ := i.v.(*mapV); m != nil {
			for _, e := range m.ents {
				k := in.concStr(e.k)
				o.keys = append(o.keys, k)
				o.m[k] = in.jsOf(e.v)
			}
		}
		return o
	}
	if b, ok := i.t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0, b.Info()&types.IsBoolean != 0, b.Info()&types.IsNumeric != 0:
			return i.v
		}
	}
	if _, ok := i.t.Underlying().(*types.Slice); ok && i.t.String() == "[]interface{}" {
		return &jsObject{m: map[string]value{}}
	}
	in.rtPanicPlain("ValueOf: invalid value")
	return nil
}

func registerJS() {
	const v = "(syscall/js.Value)."
	reg("syscall/js.Global", func(in *Interp, fr *frame, a []value) value { return jsVal(jsGlobal{}) })
	reg("syscall/js.Undefined", func(in *Interp, fr *frame, a []value) value { return jsVal(nil) })
	reg("syscall/js.Null", func(in *Interp, fr *frame, a []value) value { return jsVal(nil) })
	reg("syscall/js.ValueOf", func(in *Interp, fr *frame, a []value) value { return jsVal(in.jsOf(a[0])) })
	reg("syscall/js.FuncOf", func(in *Interp, fr *frame, a []value) value {
		return structV{jsVal(&jsFunc{a[0]}), int64(1)}
	})
	reg("(syscall/js.Func).Release", func(in *Interp, fr *frame, a []value) value { return nil })
	reg(v+"String", func(in *Interp, fr *frame, a []value) value {
		x := jsInner(a[0])
		if isJsString(x) {
			return x
		}
		if x == nil {
			return "<undefined>"
		}
		return "<object>"
	})
	reg(v+"Get", func(in *Interp, fr *frame, a []value) value {
		k := in.concStr(a[1])
		switch o := jsInner(a[0]).(type) {
		case jsGlobal:
			if k == "Object" {
				return jsVal(jsObjectClass{})
			}
		case *jsObject:
			return jsVal(o.m[k])
		}
		unsup("JavaScript property %s", k)
		return nil
	})
	reg(v+"Set", func(in *Interp, fr *frame, a []value) value {
		o, ok := jsInner(a[0]).(*jsObject)
		if !ok {
			k := in.concStr(a[1])
			if _, g := jsInner(a[0]).(jsGlobal); g {
				if f, ok := in.jsOf(a[2]).(*jsFunc); ok {
					in.hostState["js:"+k] = f
					return nil
				}
			}
			unsup("JavaScript assignment to %s", k)
		}
		k := in.concStr(a[1])
		if _, ok := o.m[k]; !ok {
			o.keys = append(o.keys, k)
		}
		o.m[k] = in.jsOf(a[2])
		return nil
	})
	reg(v+"New", func(in *Interp, fr *frame, a []value) value {
		if _, ok := jsInner(a[0]).(jsObjectClass); ok {
			return jsVal(&jsObject{m: map[string]value{}})
		}
		unsup("JavaScript new")
		return nil
	})
	call := func(in *Interp, name string, args []value) {
		if name != "parserLoaded" || len(args) != 1 {
			unsup("JavaScript call of %s", name)
		}
		f, ok := in.jsOf(args[0]).(*jsFunc)
		if !ok {
			unsup("no function for the browser")
		}
		panic(mainCaptured{f.fn})
	}
	reg(v+"Call", func(in *Interp, fr *frame, a []value) value {
		if _, ok := jsInner(a[0]).(jsGlobal); !ok {
			unsup("JavaScript method call")
		}
		call(in, in.concStr(a[1]), a[2].(sliceV).a)
		return nil
	})
	undefined := func(in *Interp, fr *frame, a []value) value { return jsInner(a[0]) == nil }
	reg(v+"IsUndefined", undefined)
	reg(v+"IsNull", func(in *Interp, fr *frame, a []value) value { return false })
	reg(v+"Truthy", func(in *Interp, fr *frame, a []value) value {
		x := jsInner(a[0])
		if isJsString(x) {
			return in.simpVal(in.notV(in.eqStr(x, "")))
		}
		return x != nil
	})
	reg(v+"Type", func(in *Interp, fr *frame, a []value) value {
		switch x := jsInner(a[0]); {
		case x == nil:
			return int64(0)
		case isJsString(x):
			return int64(4)
		}
		unsup("JavaScript type")
		return nil
	})
}

type jsFunc struct{ fn value }
