package harness

import (
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// contents are what files may hold.
var contents = []vsym.File{
	{Kind: vsym.FileRegular, Text: "a = 'b';\n"},
	{Kind: vsym.FileRegular, Text: "a b"},
	{Kind: vsym.FileMissing},
	{Kind: vsym.FileDirectory},
	{Kind: vsym.FileRegular, Text: ""},
	{Kind: vsym.FileRegular, Text: "'use strict'; let x = \"<a&b>\u2028\"\n---\n{}"},
	{Kind: vsym.FileRegular, Text: "1e999"},
	{Kind: vsym.FileRegular, Text: "f(\""},
	{Kind: vsym.FileRegular, Text: "with (a) b"},
	{Kind: vsym.FileRegular, Text: "// \xff\nfunction f() { return }"},
	{Kind: vsym.FileRegular, Text: "a\xffb"},
	{Kind: vsym.FileRegular, Text: "\ufeff({a: /[/]/g, b: {c: 'x\\u0000'}})"},
	{Kind: vsym.FileRegular, Text: "import a from 'b'"},
	{Kind: vsym.FileRegular, Text: "/*" + strings.Repeat(".", 4091) + "\u00e9*/a"},
	{Kind: vsym.FileRegular, Text: "/*" + strings.Repeat(".", 4088) + "*/a = '\U00010400'; }"},
}

// document is the JSON document of a script, if it is one.
func document(text string) (interface{}, bool) {
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(text), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
	if err != nil {
		return nil, false
	}
	return vsym.Tree(n.ESTree())
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

// separated is whether a text is one line --- and else blank.
func separated(s string) bool {
	n := 0
	for i, l := range strings.Split(s, "\n") {
		if l == "---" && i > 0 {
			n++
		} else if !blank(l) {
			return false
		}
	}
	return n == 1
}

// command runs the command on files and checks what it does.
func command(files []vsym.File) {
	var args []string
	for _, f := range files {
		args = append(args, f.Name)
	}
	r := vsym.Command(args, files)
	var want []interface{}
	failed := false
	for _, f := range files {
		if f.Kind != vsym.FileRegular {
			failed = true
			break
		}
		d, ok := document(f.Text)
		if !ok {
			failed = true
			break
		}
		want = append(want, d)
	}
	for i, f := range files {
		vsym.Noteq("file "+itoa(i), f.Text)
	}
	vsym.Assert(len(r.Docs) >= len(want), "a document is missing")
	vsym.Assert(len(r.Docs) <= len(want), "a document for a file that can not be parsed, or for a later one")
	for i, d := range want {
		equalDoc(r.Docs[i], d)
	}
	for i, t := range r.Text {
		switch {
		case i > 0 && i < len(r.Docs):
			vsym.Assert(separated(t), "documents are not separated by the separator line")
		case i == len(r.Docs) && failed && i > 0:
			vsym.Assert(blank(t) || separated(t), "text after the last document")
		default:
			vsym.Assert(blank(t), "text around the documents")
		}
	}
	if failed {
		vsym.Assert(r.Exit != 0, "the status is 0 although a file failed")
		vsym.Reach("failed")
	} else {
		vsym.Assert(r.Exit == 0, "the status is not 0")
		vsym.Reach("printed")
	}
}

// equalDoc asserts that two JSON documents are the same.
func equalDoc(got, want interface{}) {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		vsym.Assert(ok && len(g) == len(w), "an object of the document differs")
		for k, v := range w {
			f, there := g[k]
			vsym.Assert(there, "a field of the document is missing")
			equalDoc(f, v)
		}
	case arr:
		g, ok := got.(arr)
		vsym.Assert(ok && len(g) == len(w), "a list of the document differs")
		for i := range w {
			equalDoc(g[i], w[i])
		}
	default:
		sameDoc(got, want)
	}
}

var fileNames = []string{"a.js", "b c%20.js", "\u00e9.js"}

// H_C22_files: lists of 0 to F files of all kinds.
func H_C22_files() {
	n := vsym.Pick("files", vsym.Param("F")+1)
	var files []vsym.File
	for i := 0; i < n; i++ {
		f := contents[vsym.Pick("content"+itoa(i), len(contents))]
		f.Name = fileNames[i]
		files = append(files, f)
	}
	command(files)
}

// H_C22_same: a file given again.
func H_C22_same() {
	f := contents[vsym.Pick("content", len(contents))]
	f.Name = "a.js"
	g := contents[0]
	g.Name = "b.js"
	switch vsym.Pick("order", 3) {
	case 0:
		commandAgain([]vsym.File{f, f})
	case 1:
		commandAgain([]vsym.File{f, g, f})
	case 2:
		commandAgain([]vsym.File{g, f, g})
	}
}

func commandAgain(files []vsym.File) { command(files) }

// H_C22_bytes: a file of N arbitrary bytes inside a text, alone or after a
// file that is printed.
func H_C22_bytes() {
	in := byteContexts[vsym.Pick("context", len(byteContexts))]
	b := []byte(in[0])
	for i := vsym.Param("N"); i > 0; i-- {
		b = append(b, vsym.Byte("byte"))
	}
	b = append(b, in[1]...)
	f := vsym.File{Name: "f.js", Kind: vsym.FileRegular, Text: string(b)}
	if vsym.Pick("after", 2) == 1 {
		g := contents[0]
		g.Name = "g.js"
		command([]vsym.File{g, f})
		return
	}
	command([]vsym.File{f})
}

var byteContexts = [][2]string{{"", ""}, {"'", "'"}, {"/*", "*/"}, {"a", ""}, {"/", "/"}, {"", "a"}}
