// Package vf is the interface between the harnesses and the two ways of
// running them: symbolically (the engine replaces the functions marked "engine")
// and natively (replay of a recorded trace of nondeterministic values).
package vf

import (
	"fmt"
	"math"
	"strconv"
)

type Ev struct {
	K string `json:"k"`
	N string `json:"n"`
	V string `json:"v"`
}

// Stop is the panic value that ends a native run.
type Stop struct{ Status, ID, Msg string }

type State struct {
	Trace []Ev
	Pos   int
	Obs   []string
}

var Cur *State

var Registry = map[string]func(){}

// Reg registers a harness for native replay.
func Reg(name string, f func()) bool { Registry[name] = f; return true }

func next(kind, name string) string {
	if Cur == nil || Cur.Pos >= len(Cur.Trace) {
		panic(Stop{Status: "diverged", Msg: "trace exhausted at " + name})
	}
	e := Cur.Trace[Cur.Pos]
	Cur.Pos++
	if e.K != kind || e.N != name {
		panic(Stop{Status: "diverged", Msg: fmt.Sprintf("trace has %s %s, run wants %s %s", e.K, e.N, kind, name)})
	}
	return e.V
}

// Int is any int. (engine)
func Int(name string) int {
	v, _ := strconv.ParseInt(next("i", name), 10, 64)
	return int(v)
}

// IntRange is any int in [lo,hi]. (engine)
func IntRange(name string, lo, hi int) int {
	v, _ := strconv.ParseInt(next("i", name), 10, 64)
	return int(v)
}

// Choice is any int in [0,n); the engine explores each value separately. (engine)
func Choice(name string, n int) int {
	v, _ := strconv.ParseInt(next("i", name), 10, 64)
	return int(v)
}

// Bool is any bool. (engine)
func Bool(name string) bool { return next("b", name) == "true" }

// Float is any float64 bit pattern. (engine)
func Float(name string) float64 {
	v, _ := strconv.ParseUint(next("f", name), 16, 64)
	return math.Float64frombits(v)
}

// Str is any string of min..max bytes drawn from alphabet ("" for any byte;
// "a-z" style ranges are expanded). (engine)
func Str(name string, min, max int, alphabet string) string {
	h := next("s", name)
	b := make([]byte, len(h)/2)
	for i := range b {
		v, _ := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b)
}

// Assume discards runs in which c is false. (engine)
func Assume(c bool) {
	if !c {
		panic(Stop{Status: "assume"})
	}
}

// Assert states the property. (engine)
func Assert(c bool, id string) {
	if !c {
		panic(Stop{Status: "assert", ID: id})
	}
}

// Fail is Assert(false, id).
func Fail(id string) { Assert(false, id) }

// Reached marks a program point that the exploration has to reach. (engine)
func Reached(name string) {}

// Observe records a scalar or string for comparison of the two runs. (engine)
func Observe(name string, v interface{}) {
	if Cur == nil {
		return
	}
	var s string
	switch x := v.(type) {
	case nil:
		s = "nil"
	case float64:
		s = "NaN"
		if x == x {
			s = fmt.Sprintf("f%016x", math.Float64bits(x))
		}
	case string:
		s = fmt.Sprintf("%q", x)
	default:
		s = fmt.Sprint(x)
	}
	Cur.Obs = append(Cur.Obs, name+"="+s)
}

// MapOrders asks for exploration of map iteration orders. (engine)
func MapOrders(on bool) {}

// Pick returns quick or thorough depending on the tier. (engine; natively the
// value is part of the trace)
func Pick(quick, thorough int) int {
	v, _ := strconv.ParseInt(next("i", "pick"), 10, 64)
	return int(v)
}

// Boolean connectives that do not branch. (engine)
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Iff(a, b bool) bool { return a == b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteFloat(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// SameFloat: equal as values, or both NaN (signed zeros are told apart). (engine)
func SameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool, v interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			panicked = true
			v = r
		}
	}()
	f()
	return
}
