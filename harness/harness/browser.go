package harness

import (
	"strings"

	"github.com/jchv/cleansheets/ecmascript/lexer"
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// browser hands texts to the browser entry point and checks its answers,
// with the error's message if asked to.
func browser(messages bool, texts ...string) {
	for i, text := range texts {
		vsym.Noteq("source "+itoa(i), text)
	}
	rs := vsym.Browser(texts)
	vsym.Assert(len(rs) == len(texts), "an answer is missing")
	for i, text := range texts {
		answer(rs[i], text, messages)
	}
}

func answer(r vsym.Answer, text string, messages bool) {
	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(text), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
	vsym.Assert(r.Fields == 1, "the answer has not exactly one field")
	vsym.Assert(r.HasResult != r.HasError, "the answer is neither a result nor an error")
	if err != nil {
		vsym.Assert(r.HasError, "a result for a source that is no script")
		if messages {
			vsym.Assert(r.Error == err.Error(), "another message than the error's")
		}
		vsym.Reach("error")
		return
	}
	want, ok := vsym.Tree(n.ESTree())
	if !ok {
		vsym.Assert(r.HasError, "a result for a tree that can not be encoded")
		return
	}
	vsym.Assert(r.HasResult, "an error for a script")
	got, ok := vsym.JSON(r.Result)
	vsym.Assert(ok, "the result is no JSON document")
	equalDoc(got, want)
	vsym.Reach("result")
}

func aText(name string) string {
	i := vsym.Pick(name, len(sampleTexts)+len(contents))
	if i < len(sampleTexts) {
		return sampleTexts[i]
	}
	return strings.ToValidUTF8(contents[i-len(sampleTexts)].Text, "?")
}

// H_C25_texts: N of the sample texts and the contents of the command's files,
// one after another.
func H_C25_texts() {
	var texts []string
	for i := vsym.Param("N"); i > 0; i-- {
		texts = append(texts, aText("text"))
	}
	browser(true, texts...)
}

// H_C25_any: N arbitrary code points inside a text.
func H_C25_any() {
	in := byteContexts[vsym.Pick("context", len(byteContexts))]
	rs := []rune(in[0])
	for i := vsym.Param("N"); i > 0; i-- {
		rs = append(rs, vsym.Rune("char"))
	}
	rs = append(rs, []rune(in[1])...)
	browser(false, string(rs))
}
