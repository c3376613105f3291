// Package h holds the property harnesses. Every exported function named
// Pnn_xxx is explored symbolically; the same functions run natively for replay.
package h

import (
	"math"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

func newCtx() *oc.EvalContext { return oc.NewEvalContext(lpg.NewGraph()) }

func rv(v interface{}) oc.RValue { return oc.RValue{Value: v} }

// params binds $a, $b, ... to the values.
func bind(ctx *oc.EvalContext, params ...interface{}) *oc.EvalContext {
	for i, p := range params {
		ctx.SetParameter("$"+string(rune('a'+i)), rv(p))
	}
	return ctx
}

// eval evaluates a query with parameters $a, $b, ... bound to the values.
func eval(q string, params ...interface{}) (oc.Value, error) {
	return oc.ParseAndEvaluate(q, bind(newCtx(), params...))
}

// ret runs "return <expr>" and gives the single value produced.
func ret(expr string, params ...interface{}) (interface{}, error) {
	v, err := eval("return "+expr, params...)
	if err != nil {
		return nil, err
	}
	return single(v), nil
}

// rows is the result set of a query.
func rows(v oc.Value) oc.ResultSet {
	if v == nil {
		vf.Fail("nil-value")
	}
	rs, ok := v.Get().(oc.ResultSet)
	if !ok {
		vf.Fail("not-a-resultset")
	}
	return rs
}

func single(v oc.Value) interface{} {
	rs := rows(v)
	if len(rs.Rows) != 1 || len(rs.Cols) != 1 {
		vf.Fail("not-a-single-value")
	}
	return cell(rs, 0, rs.Cols[0])
}

func cell(rs oc.ResultSet, row int, col string) interface{} {
	c, ok := rs.Rows[row][col]
	if !ok {
		vf.Fail("column-missing-from-row")
	}
	if c == nil {
		vf.Fail("nil-cell")
	}
	return c.Get()
}

// must fails the property when err is set.
func must(err error, id string) { vf.Assert(err == nil, id) }

func isNaN(f float64) bool { return f != f }

// ---- numbers

// num is any number of a kind chosen by fork.
func num(name string) interface{} {
	if vf.Choice(name+".kind", 2) == 0 {
		return vf.Int(name)
	}
	return vf.Float(name)
}

func toF(v interface{}) float64 {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v.(float64)
}

func isZero(v interface{}) bool {
	if i, ok := v.(int); ok {
		return i == 0
	}
	return v.(float64) == 0
}

// arith is the reference semantics of one arithmetic operator on numbers; the
// second result is false when the operation is undefined (division by zero).
func arith(op byte, a, b interface{}) (interface{}, bool) {
	x, xi := a.(int)
	y, yi := b.(int)
	if xi && yi && op != '^' {
		switch op {
		case '+':
			return x + y, true
		case '-':
			return x - y, true
		case '*':
			return x * y, true
		}
		if y == 0 {
			return nil, false
		}
		if op == '/' {
			return x / y, true
		}
		return x % y, true
	}
	f, g := toF(a), toF(b)
	switch op {
	case '+':
		return f + g, true
	case '-':
		return f - g, true
	case '*':
		return f * g, true
	case '^':
		return math.Pow(f, g), true
	}
	if g == 0 {
		return nil, false
	}
	if op == '/' {
		return f / g, true
	}
	return math.Mod(f, g), true
}

// assertNum asserts that got is exactly the number want.
func assertNum(got, want interface{}, id string) {
	switch w := want.(type) {
	case int:
		g, ok := got.(int)
		vf.Assert(ok, id+"-kind")
		vf.Observe(id, g)
		vf.Assert(g == w, id)
	case float64:
		g, ok := got.(float64)
		vf.Assert(ok, id+"-kind")
		vf.Observe(id, g)
		vf.Assert(vf.SameFloat(g, w), id)
	default:
		vf.Fail(id + "-want")
	}
}

// ---- values of every kind

const (
	kNull = iota
	kInt
	kFloat
	kStr
	kBool
	kDur
	kDate
	kTime
	kDateTime
	kList
	kMap
	kNode
	kPath
	kSet
	nKinds
)

const nPrim = kList // kinds 0..nPrim-1 are null and the primitives

func instant(name string) time.Time {
	return time.Unix(int64(vf.IntRange(name, -60000000000, 60000000000)), int64(vf.IntRange(name+".ns", 0, 999999999)))
}

func duration(name string) oc.Duration {
	return oc.Duration{Months: int64(vf.Int(name + ".m")), Days: int64(vf.Int(name + ".d")), Seconds: int64(vf.Int(name + ".s")), Nanos: vf.Int(name + ".n")}
}

// value is any value of the kind.
func value(kind int, name string) interface{} {
	switch kind {
	case kNull:
		return nil
	case kInt:
		return vf.Int(name)
	case kFloat:
		return vf.Float(name)
	case kStr:
		return vf.Str(name, 0, 2, "")
	case kBool:
		return vf.Bool(name)
	case kDur:
		return duration(name)
	case kDate:
		return oc.Date(instant(name))
	case kTime:
		return oc.LocalTime(instant(name))
	case kDateTime:
		return oc.LocalDateTime(instant(name))
	case kList:
		return []oc.Value{rv(vf.Int(name)), rv(nil)}
	case kMap:
		return map[string]oc.Value{"k": rv(vf.Int(name))}
	case kNode:
		g := lpg.NewGraph()
		return g.NewNode([]string{"L"}, map[string]interface{}{"p": vf.Int(name)})
	case kPath:
		g := lpg.NewGraph()
		n := g.NewNode([]string{"L"}, nil)
		return lpg.NewPathFromElements(lpg.PathElement{Edge: g.NewEdge(n, n, "R", map[string]interface{}{"p": vf.Int(name)})})
	case kSet:
		return lpg.NewStringSet("x")
	}
	panic("kind")
}

func oc_eval(ctx *oc.EvalContext, q string) (oc.Value, error) { return oc.ParseAndEvaluate(q, ctx) }

func labelSet(l ...string) lpg.StringSet { return lpg.NewStringSet(l...) }

func valueList(v ...oc.Value) []oc.Value { return v }
