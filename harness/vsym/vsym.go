// Package vsym is the harness interface to the symbolic executor. The engine
// intercepts every function of this package; compiled natively the functions
// read the solver's assignment from a replay file, so that a counterexample
// runs against the real build.
package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Msg      string            `json:"msg"`
	Kind     string            `json:"kind"`
	Vars     map[string]int64  `json:"vars"`
	Params   map[string]int    `json:"params"`
	Detail   string            `json:"detail,omitempty"`
	Observed string            `json:"observed,omitempty"`
	Inputs   map[string]string `json:"inputs,omitempty"`
}

var cur Replay
var count = map[string]int{}

// Load reads a replay file.
func Load(r Replay) { cur = r; count = map[string]int{} }

func uniq(name string) string {
	count[name]++
	if n := count[name]; n > 1 {
		return fmt.Sprintf("%s~%d", name, n)
	}
	return name
}

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	v, ok := cur.Vars[uniq(name)]
	n := int(v) + lo
	if !ok {
		n = lo
	}
	if n < lo || n > hi {
		Assume(false)
	}
	return n
}

// Rune is an arbitrary Unicode scalar value.
func Rune(name string) rune {
	v, ok := cur.Vars[uniq(name)]
	if !ok {
		return 'a'
	}
	return rune(v)
}

// Bool is an arbitrary truth value.
func Bool(name string) bool { return cur.Vars[uniq(name)] != 0 }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(cur.Vars[uniq(name)]) }

// Pick is an arbitrary integer in [0, n), decided by forking.
func Pick(name string, n int) int { return Int(name, 0, n-1) }

// Conc makes the engine enumerate the value by forking; identity natively.
func Conc(x int) int { return x }

type assumeFail struct{}

// AssumeFailed reports whether a recovered value is a failed assumption.
func AssumeFailed(r interface{}) bool { _, ok := r.(assumeFail); return ok }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("VSYM-ASSUME-FALSE")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("VSYM-ASSERT-FAILED " + msg)
		os.Exit(3)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Reach is a reachability witness: a run is vacuous unless every witness the
// check lists is reached on a feasible path.
func Reach(label string) { fmt.Println("REACH " + label) }

// Param is a bound that depends on the tier.
func Param(name string) int { return cur.Params[name] }

// Select is tab[i] as one symbolic string.
func Select(i int, tab []string) string { return tab[i] }

// SelectInt is tab[i] as one symbolic integer.
func SelectInt(i int, tab []int) int { return tab[i] }

// And, Or, Not, Implies, Iff do not fork.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt is c ? a : b without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqStr compares strings without forking.
func EqStr(a, b string) bool { return a == b }

// SameNumber compares floats; the engine first compares the texts they were
// parsed from.
func SameNumber(a, b float64) bool { return a == b || (a != a && b != b) }

// Note shows a concrete rendering of an input in native replays.
func Note(name, val string) {
	if len(val) > 2000 {
		val = val[:2000] + "..."
	}
	fmt.Printf("INPUT %s = %s\n", name, strings.ReplaceAll(val, "\n", "\\n"))
}

// Noteq is Note with Go quoting.
func Noteq(name, val string) {
	if len(val) > 2000 {
		val = val[:2000] + "..."
	}
	fmt.Printf("INPUT %s = %q\n", name, val)
}

// Tree is the JSON document of v as a generic tree of
// map[string]interface{}, []interface{}, string, float64, bool and nil, and
// whether the encoding succeeds.
func Tree(v interface{}) (t interface{}, ok bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	if err := json.Unmarshal(b, &t); err != nil {
		return nil, false
	}
	return t, true
}

// Native reports whether this is a native replay.
func Native() bool { return true }

// Debug prints in native replays.
func Debug(a ...interface{}) { fmt.Println(a...) }

// TokenLexer makes a lexer take its tokens and locations from src, which has
// the methods Lex, ReLex and Location. Natively it does nothing: the harness
// then lexes the text of the tokens instead.
func TokenLexer(l, src interface{}) {}

// NoSpans is whether every source span reachable from v is zero.
func NoSpans(v interface{}) bool { return noSpans(reflect.ValueOf(v)) }

func isSpan(t reflect.Type) bool { return t.Kind() == reflect.Struct && t.Name() == "Span" }

func noSpans(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || noSpans(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !noSpans(v.Index(i)) {
				return false
			}
		}
	case reflect.Struct:
		if isSpan(v.Type()) {
			return v.IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if !noSpans(v.Field(i)) {
				return false
			}
		}
	}
	return true
}

// SameButSpans compares trees deeply except for their spans.
func SameButSpans(a, b interface{}) bool {
	return sameButSpans(reflect.ValueOf(a), reflect.ValueOf(b))
}

func sameButSpans(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Invalid:
		return true
	case reflect.Interface:
		return sameButSpans(a.Elem(), b.Elem())
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameButSpans(a.Elem(), b.Elem())
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() || a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameButSpans(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if isSpan(a.Type()) {
			return true
		}
		for i := 0; i < a.NumField(); i++ {
			if !sameButSpans(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64:
		return SameNumber(a.Float(), b.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	panic("comparison of " + a.Type().String())
}
