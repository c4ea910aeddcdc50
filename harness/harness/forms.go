package harness

import (
	"github.com/jchv/cleansheets/ecmascript/parser"
	"github.com/jchv/cleansheets/zz_verif/vsym"
)

// C28: accepted programs have the forms the grammar asks for.

func H_C28_any()    { anyJudge(wantForms) }
func H_C28_corpus() { corpusPlain(wantForms) }
func H_C28_near()   { corpusNear(wantForms) }

// formPlace is where arbitrary tokens of a vocabulary are put.
type formPlace struct {
	before string
	v      *voc
	after  string
}

var targetVoc = newVoc(words("<id> <num> ( ) [ ] { } , . ?. = : + ++ => async"))
var bindingVoc = newVoc(words("<id> <num> [ ] { } , = : ... in"))
var bodyVoc = newVoc(words("<id> let const var function class import async ( ) { } [ ] ; : ="))
var caseVoc = newVoc(words("<id> case default : ;"))
var tryVoc = newVoc(words("<id> try catch finally ( ) { }"))

// Kinds of places.
var formPlaces = [][]formPlace{
	{
		{"", targetVoc, "= z"},
		{"", targetVoc, "+= z"},
		{"", targetVoc, "??= z"},
		{"( [", targetVoc, "] = z )"},
		{"( { k :", targetVoc, "} = z )"},
		{"( {", targetVoc, "} = z )"},
	},
	{
		{"", targetVoc, "++"},
		{"", targetVoc, "-- ;"},
		{"++", targetVoc, ""},
		{"- --", targetVoc, "* z"},
	},
	{
		{"for (", targetVoc, "of z ) ;"},
		{"for (", targetVoc, "in z ) ;"},
		{"for ( let", targetVoc, "of z ) ;"},
		{"for ( z of", targetVoc, ") ;"},
		{"for ( z of z ,", targetVoc, ") ;"},
	},
	{
		{"for ( var", bindingVoc, "of z ) ;"},
		{"for ( var", bindingVoc, "in z ) ;"},
		{"for ( let [", bindingVoc, "of z ) ;"},
		{"for ( let [", bindingVoc, "; ; ) ;"},
		{"for ( var", bindingVoc, "; ; ) ;"},
		{"var", bindingVoc, ";"},
		{"let", bindingVoc, ";"},
		{"const", bindingVoc, ";"},
	},
	{
		{"if ( z )", bodyVoc, ""},
		{"if ( z ) ; else", bodyVoc, ""},
		{"while ( z )", bodyVoc, ""},
		{"for ( ; ; )", bodyVoc, ""},
		{"for ( z of z )", bodyVoc, ""},
		{"for ( z in z )", bodyVoc, ""},
		{"l :", bodyVoc, ""},
		{"do", bodyVoc, "while ( z )"},
	},
	{
		{"switch ( z ) {", caseVoc, "}"},
		{"switch ( z ) { default :", caseVoc, "}"},
	},
	{
		{"try { }", tryVoc, ""},
		{"try { }", tryVoc, "z"},
		{"", tryVoc, ""},
	},
}

// H_C28_places: 0 to N tokens at the places of a kind, in scripts and modules.
func H_C28_places() {
	ps := formPlaces[vsym.Param("KIND")]
	p := ps[vsym.Pick("place", len(ps))]
	mode := parser.ScriptMode
	if vsym.Pick("mode", 2) == 1 {
		mode = parser.ModuleMode
	}
	s := &tokSource{}
	s.words(p.before)
	n := vsym.Pick("len", vsym.Param("N")+1)
	for i := 0; i < n; i++ {
		s.any(p.v)
	}
	s.words(p.after)
	judge(wantForms, s.parse(mode), s)
}
