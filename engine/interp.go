package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v Iface
}

// pathEnd ends exploration of a path.
type pathEnd struct {
	status string // infeasible, assume, done, budget, unsupported, undecided, violation
	msg    string
}

type Interp struct {
	P       *Program
	tt      *TermTab
	solver  *Solver
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Val
	inited  map[*ssa.Package]bool
	path    *PathState
	depth   int
	mcache  map[methKey]*ssa.Function
	icache  map[implKey]bool
	fclos   map[*ssa.Function]*Closure
	used    map[string]int // functions executed, with call count
	eng     *Engine
	caseBuf []byte
}

type methKey struct {
	t types.Type
	n string
}
type implKey struct {
	t types.Type
	i types.Type
}

type opnd struct {
	r int
	c Val
}

type cblock struct {
	phis  []cphi
	ins   []func(*frame)
	term  func(*frame) int
	succs []int
	preds []int
}

type cphi struct {
	dst   int
	edges []opnd
}

type cfunc struct {
	fn      *ssa.Function
	nregs   int
	blocks  []*cblock
	recover int
	hasDef  bool
	target  bool // in package under test
	intr    intrinsic
	name    string
}

type deferred struct {
	fn   Val
	args []Val
	call func(fr *frame) // executes
}

type frame struct {
	it        *Interp
	cf        *cfunc
	regs      []Val
	caller    *frame
	prev      int
	defers    []func()
	result    Val
	panicking bool
	panicV    targetPanic
	recovered bool
}

func NewInterp(P *Program, eng *Engine) *Interp {
	it := &Interp{P: P, eng: eng, tt: NewTermTab(), funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Val{}, inited: map[*ssa.Package]bool{}, mcache: map[methKey]*ssa.Function{}, icache: map[implKey]bool{}, fclos: map[*ssa.Function]*Closure{}, used: map[string]int{}}
	it.solver = NewSolver(it.tt, &eng.stats)
	return it
}

func (it *Interp) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if os.Getenv("SYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED:", msg)
	}
	panic(pathEnd{"unsupported", msg})
}

func (it *Interp) rtPanic(msg string) {
	panic(targetPanic{Iface{it.P.rtErrT, msg}})
}

func (it *Interp) nilDeref() {
	it.rtPanic("invalid memory address or nil pointer dereference")
}

func (it *Interp) globalCell(g *ssa.Global) *Val {
	c, ok := it.globals[g]
	if !ok {
		c = new(Val)
		*c = zero(g.Type().(*types.Pointer).Elem())
		it.globals[g] = c
	}
	return c
}

func (it *Interp) funcVal(fn *ssa.Function) *Closure {
	c := it.fclos[fn]
	if c == nil {
		c = &Closure{fn: fn}
		it.fclos[fn] = c
	}
	return c
}

// ---------- initialisation

func (it *Interp) initPackages(reset bool) {
	for _, p := range it.P.initOrd {
		path := p.Pkg.Path()
		mut := mutablePkg(path)
		if reset && !mut {
			continue
		}
		if !mut && !initOncePkg(path) {
			continue
		}
		if reset {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					if c, ok := it.globals[g]; ok {
						*c = zero(g.Type().(*types.Pointer).Elem())
					}
				}
			}
		} else if mut {
			continue
		}
		if f := p.Func("init"); f != nil {
			it.call(nil, f, nil, nil)
		}
	}
}

// ---------- compilation

func (it *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := it.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, recover: -1, name: fn.String()}
	cf.intr = intrinsicFor(fn)
	it.funcs[fn] = cf
	if fn.Pkg != nil {
		cf.target = fn.Pkg.Pkg.Path() == pkgOC
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		cf.target = o.Pkg.Pkg.Path() == pkgOC
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		if r, ok := regs[v]; ok {
			return r
		}
		r := len(regs)
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c := &compiler{it: it, cf: cf, regs: regs}
	for _, b := range fn.Blocks {
		cb := &cblock{}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := cphi{dst: regs[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Panic:
				cb.term = c.term(b, ins)
			default:
				if _, ok := ins.(*ssa.Defer); ok {
					cf.hasDef = true
				}
				if f := c.instr(ins); f != nil {
					cb.ins = append(cb.ins, f)
				}
			}
		}
		if cb.term == nil {
			cb.term = func(*frame) int { panic("no terminator in " + fn.String()) }
		}
		cf.blocks = append(cf.blocks, cb)
	}
	if fn.Recover != nil {
		cf.recover = fn.Recover.Index
	}
	cf.nregs = len(regs)
	return cf
}

type compiler struct {
	it   *Interp
	cf   *cfunc
	regs map[ssa.Value]int
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, constVal(x)}
	case *ssa.Global:
		return opnd{-1, c.it.globalCell(x)}
	case *ssa.Function:
		return opnd{-1, c.it.funcVal(x)}
	case *ssa.Builtin:
		return opnd{-1, &Closure{bi: x.Name()}}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v %T in %s", v, v, c.cf.fn))
	}
	return opnd{r, nil}
}

func (fr *frame) get(o opnd) Val {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if _, tp := t.(*types.TypeParam); tp {
			panic("const of type param")
		}
		panic(fmt.Sprintf("constVal %v", c))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		k := kindOf(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return norm(i, k)
		}
		u, _ := constant.Uint64Val(v)
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Kind() == types.UnsafePointer:
		return (*Val)(nil)
	}
	panic(fmt.Sprintf("constVal %v", c))
}

func (c *compiler) term(b *ssa.BasicBlock, ins ssa.Instruction) func(*frame) int {
	switch x := ins.(type) {
	case *ssa.Jump:
		s := b.Succs[0].Index
		return func(*frame) int { return s }
	case *ssa.If:
		o := c.op(x.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		pos := x.Cond.Pos()
		if m := c.tryMerge(b, x, o); m != nil {
			return m
		}
		return func(fr *frame) int {
			v := fr.get(o)
			if bv, ok := v.(bool); ok {
				if bv {
					return t
				}
				return f
			}
			if fr.it.decide(v.(*Term), pos) {
				return t
			}
			return f
		}
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return -1 }
		case 1:
			o := c.op(x.Results[0])
			return func(fr *frame) int { fr.result = copyVal(fr.get(o)); return -1 }
		}
		var os []opnd
		for _, r := range x.Results {
			os = append(os, c.op(r))
		}
		return func(fr *frame) int {
			tp := make(Tuple, len(os))
			for i, o := range os {
				tp[i] = copyVal(fr.get(o))
			}
			fr.result = tp
			return -1
		}
	case *ssa.Panic:
		o := c.op(x.X)
		return func(fr *frame) int {
			v, _ := fr.get(o).(Iface)
			panic(targetPanic{v})
		}
	}
	panic("term")
}

// tryMerge recognises pure boolean short-circuit diamonds inside the harness
// package only, so that && and || there build terms instead of forking.
func (c *compiler) tryMerge(b *ssa.BasicBlock, x *ssa.If, o opnd) func(*frame) int { return nil }

func (c *compiler) instr(ins ssa.Instruction) func(*frame) {
	it := c.it
	switch x := ins.(type) {
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Alloc:
		d := c.regs[x]
		t := x.Type().Underlying().(*types.Pointer).Elem()
		z := zero(t)
		switch z.(type) {
		case Struct, Array:
			return func(fr *frame) { p := new(Val); *p = zero(t); fr.regs[d] = p }
		}
		return func(fr *frame) { p := new(Val); *p = z; fr.regs[d] = p }
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			switch p := fr.get(a).(type) {
			case *Val:
				if p == nil {
					fr.it.nilDeref()
				}
				storeTo(p, fr.get(v))
			case *SymAddr:
				i := fr.it.concretize(p.idx, kindT{'i', 64, true})
				storeTo(&p.arr[i], fr.get(v))
			default:
				fr.it.unsupported("store to %T", p)
			}
		}
	case *ssa.MakeInterface:
		d, o := c.regs[x], c.op(x.X)
		t := canon(x.X.Type())
		return func(fr *frame) { fr.regs[d] = Iface{t, copyVal(fr.get(o))} }
	case *ssa.ChangeInterface:
		d, o := c.regs[x], c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(o) }
	case *ssa.ChangeType:
		d, o := c.regs[x], c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(o) }
	case *ssa.Convert:
		d, o := c.regs[x], c.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[d] = fr.it.convert(fr.get(o), from, to) }
	case *ssa.MultiConvert:
		d, o := c.regs[x], c.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) { fr.regs[d] = fr.it.convert(fr.get(o), from, to) }
	case *ssa.SliceToArrayPointer:
		d, o := c.regs[x], c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(o).(Slice)
			if len(s) < n {
				fr.it.rtPanic("cannot convert slice to array pointer")
			}
			p := new(Val)
			*p = Array(s[:n:n])
			fr.regs[d] = p
		}
	case *ssa.Extract:
		d, o, i := c.regs[x], c.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = fr.get(o).(Tuple)[i] }
	case *ssa.Field:
		d, o, i := c.regs[x], c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = copyVal(fr.get(o).(Struct)[i]) }
	case *ssa.FieldAddr:
		d, o, i := c.regs[x], c.op(x.X), x.Field
		return func(fr *frame) {
			p, ok := fr.get(o).(*Val)
			if !ok {
				if sa, ok := fr.get(o).(*SymAddr); ok {
					k := fr.it.concretize(sa.idx, kindT{'i', 64, true})
					p = &sa.arr[k]
				} else {
					fr.it.unsupported("fieldaddr of %T", fr.get(o))
				}
			}
			if p == nil {
				fr.it.nilDeref()
			}
			st, ok := (*p).(Struct)
			if !ok {
				fr.it.unsupported("fieldaddr: cell holds %T in %s", *p, fr.cf.name)
			}
			fr.regs[d] = &st[i]
		}
	case *ssa.Index:
		d, o, io := c.regs[x], c.op(x.X), c.op(x.Index)
		ik := kindOf(x.Index.Type())
		var ek kindT
		isStr := false
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			ek = kindOf(u.Elem())
		default:
			isStr = true
			ek = kindT{'i', 8, false}
		}
		return func(fr *frame) {
			xv := fr.get(o)
			iv := fr.get(io)
			var elems []Val
			n := 0
			if isStr {
				n = strLen(xv)
			} else {
				elems = []Val(xv.(Array))
				n = len(elems)
			}
			if i, ok := iv.(int64); ok {
				if i < 0 || i >= int64(n) {
					fr.it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
				}
				if isStr {
					fr.regs[d] = strAt(xv, int(i))
				} else {
					fr.regs[d] = copyVal(elems[i])
				}
				return
			}
			if isStr {
				elems = strBytes(xv)
			}
			fr.it.boundsCheck(iv.(*Term), ik, n)
			fr.regs[d] = fr.it.symLoad(elems, fr.it.idx64(iv.(*Term), ik), ek)
		}
	case *ssa.IndexAddr:
		d, o, io := c.regs[x], c.op(x.X), c.op(x.Index)
		ik := kindOf(x.Index.Type())
		onlyLoads := true
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						onlyLoads = false
					}
				}
			}
		}
		return func(fr *frame) {
			var elems []Val
			switch xv := fr.get(o).(type) {
			case Slice:
				elems = []Val(xv)
			case *Val:
				if xv == nil {
					fr.it.nilDeref()
				}
				elems = []Val((*xv).(Array))
			default:
				fr.it.unsupported("indexaddr %T", xv)
			}
			switch i := fr.get(io).(type) {
			case int64:
				if i < 0 || i >= int64(len(elems)) {
					fr.it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(elems)))
				}
				fr.regs[d] = &elems[i]
			case *Term:
				fr.it.boundsCheck(i, ik, len(elems))
				t := fr.it.idx64(i, ik)
				if onlyLoads && len(elems) <= 512 {
					fr.regs[d] = &SymAddr{elems, t}
				} else {
					k := fr.it.concretize(t, kindT{'i', 64, true})
					fr.regs[d] = &elems[k]
				}
			}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.MakeSlice:
		d, lo, co := c.regs[x], c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lk, ck := kindOf(x.Len.Type()), kindOf(x.Cap.Type())
		return func(fr *frame) {
			n := fr.it.concInt(fr.get(lo), lk)
			cp := fr.it.concInt(fr.get(co), ck)
			if n < 0 || n > 1<<40 {
				fr.it.rtPanic("makeslice: len out of range")
			}
			if cp < n || cp > 1<<40 {
				fr.it.rtPanic("makeslice: cap out of range")
			}
			if cp > 1<<22 {
				fr.it.unsupported("huge allocation %d", cp)
			}
			s := make(Slice, n, cp)
			full := s[:cp]
			z := zero(et)
			switch z.(type) {
			case Struct, Array:
				for i := range full {
					full[i] = zero(et)
				}
			default:
				for i := range full {
					full[i] = z
				}
			}
			fr.regs[d] = s
		}
	case *ssa.MakeMap:
		d := c.regs[x]
		return func(fr *frame) { fr.regs[d] = newMap() }
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			mp := fr.get(m).(*Map)
			if mp == nil {
				panic(targetPanic{Iface{fr.it.P.rtErrT, "assignment to entry in nil map"}})
			}
			fr.it.mapSet(mp, copyVal(fr.get(k)), copyVal(fr.get(v)))
		}
	case *ssa.Lookup:
		d, xo, io := c.regs[x], c.op(x.X), c.op(x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			zt := mt.Elem()
			return func(fr *frame) {
				m, _ := fr.get(xo).(*Map)
				var e *mapEnt
				k := fr.get(io)
				if m != nil {
					e = fr.it.mapFind(m, k)
				} else {
					fr.it.checkHashable(k)
				}
				var v Val
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = zero(zt)
				}
				if x.CommaOk {
					fr.regs[d] = Tuple{v, e != nil}
				} else {
					fr.regs[d] = v
				}
			}
		}
		ik := kindOf(x.Index.Type())
		return func(fr *frame) {
			s := fr.get(xo)
			n := strLen(s)
			switch i := fr.get(io).(type) {
			case int64:
				if i < 0 || i >= int64(n) {
					fr.it.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
				}
				fr.regs[d] = strAt(s, int(i))
			case *Term:
				fr.it.boundsCheck(i, ik, n)
				fr.regs[d] = fr.it.symLoad(strBytes(s), fr.it.idx64(i, ik), kindT{'i', 8, false})
			}
		}
	case *ssa.Range:
		d, o := c.regs[x], c.op(x.X)
		cf := c.cf
		return func(fr *frame) {
			switch m := fr.get(o).(type) {
			case *Map:
				fr.regs[d] = fr.it.newMapIter(m, cf)
			case string, *SymStr:
				fr.regs[d] = &StrIter{s: m}
			default:
				fr.it.unsupported("range over %T", m)
			}
		}
	case *ssa.Next:
		d, o := c.regs[x], c.op(x.Iter)
		tup := x.Type().(*types.Tuple)
		return func(fr *frame) {
			switch itr := fr.get(o).(type) {
			case *MapIter:
				e := itr.next()
				if e == nil {
					fr.regs[d] = Tuple{false, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type())}
				} else {
					fr.regs[d] = Tuple{true, copyVal(e.k), copyVal(e.v)}
				}
			case *StrIter:
				fr.regs[d] = fr.it.strNext(fr, itr)
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.MakeClosure:
		d := c.regs[x]
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]Val, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.regs[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.Call:
		d := c.regs[x]
		call := c.call(&x.Call, x)
		return func(fr *frame) { fr.regs[d] = call(fr)() }
	case *ssa.Defer:
		call := c.call(&x.Call, nil)
		return func(fr *frame) { fr.defers = append(fr.defers, wrapDefer(fr, call(fr))) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		return func(fr *frame) { fr.it.unsupported("goroutine") }
	case *ssa.MakeChan:
		return func(fr *frame) { fr.it.unsupported("channel") }
	case *ssa.Send:
		return func(fr *frame) { fr.it.unsupported("channel send") }
	case *ssa.Select:
		return func(fr *frame) { fr.it.unsupported("select") }
	}
	_ = it
	return func(fr *frame) { fr.it.unsupported("instruction %T", ins) }
}

func wrapDefer(fr *frame, f func() Val) func() { return func() { f() } }

func zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// ---------- symbolic indexing

func (it *Interp) idx64(t *Term, k kindT) *Term {
	if k.w == 64 {
		return t
	}
	if k.signed {
		return it.tt.Mk(OSext, bv(64), t)
	}
	return it.tt.Mk(OZext, bv(64), t)
}

func (it *Interp) boundsCheck(i *Term, k kindT, n int) {
	t := it.idx64(i, k)
	in := it.tt.Mk(OUlt, sBool, t, it.tt.BV(uint64(n), 64))
	if !it.truth(it.simp(in)) {
		it.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (it *Interp) symLoad(elems []Val, idx *Term, k kindT) Val {
	if idx.isConst() {
		return copyVal(elems[idx.val])
	}
	if k.c != 'i' && k.c != 'b' && k.c != 'f' {
		i := it.concretize(idx, kindT{'i', 64, true})
		return copyVal(elems[i])
	}
	// restrict to indices the path allows cheaply: group equal constants
	var r *Term
	for i := len(elems) - 1; i >= 0; i-- {
		e := it.term(elems[i], k)
		if r == nil {
			r = e
			continue
		}
		r = it.tt.Ite(it.tt.Eq(idx, it.tt.BV(uint64(i), 64)), e, r)
	}
	return it.simpK(r, k)
}

func (it *Interp) concInt(v Val, k kindT) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return it.concretize(x, k)
	}
	panic("concInt")
}

// ---------- operators

func (c *compiler) unop(x *ssa.UnOp) func(*frame) {
	d, o := c.regs[x], c.op(x.X)
	switch x.Op {
	case token.MUL:
		ek := kindOf(x.Type())
		return func(fr *frame) {
			switch p := fr.get(o).(type) {
			case *Val:
				if p == nil {
					fr.it.nilDeref()
				}
				v := *p
				switch v.(type) {
				case Struct, Array:
					v = copyVal(v)
				}
				fr.regs[d] = v
			case *SymAddr:
				fr.regs[d] = fr.it.symLoad(p.arr, p.idx, ek)
			default:
				fr.it.unsupported("load from %T in %s", p, fr.cf.name)
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch b := fr.get(o).(type) {
			case bool:
				fr.regs[d] = !b
			case *Term:
				fr.regs[d] = fr.it.simp(fr.it.tt.Not(b))
			}
		}
	case token.SUB:
		k := kindOf(x.Type())
		return func(fr *frame) {
			switch v := fr.get(o).(type) {
			case int64:
				fr.regs[d] = norm(-v, k)
			case float64:
				fr.regs[d] = -v
			case *Term:
				if k.c == 'f' {
					fr.regs[d] = fr.it.tt.Mk(OFNeg, v.sort, v)
				} else {
					fr.regs[d] = fr.it.simpK(fr.it.tt.Mk(ONeg, v.sort, v), k)
				}
			}
		}
	case token.XOR:
		k := kindOf(x.Type())
		return func(fr *frame) {
			switch v := fr.get(o).(type) {
			case int64:
				fr.regs[d] = norm(^v, k)
			case *Term:
				fr.regs[d] = fr.it.simpK(fr.it.tt.Mk(OBNot, v.sort, v), k)
			}
		}
	case token.ARROW:
		return func(fr *frame) { fr.it.unsupported("channel receive") }
	}
	panic("unop")
}

func (c *compiler) binop(x *ssa.BinOp) func(*frame) {
	d, xo, yo := c.regs[x], c.op(x.X), c.op(x.Y)
	k := kindOf(x.X.Type())
	yk := kindOf(x.Y.Type())
	op := x.Op
	switch op {
	case token.EQL:
		return func(fr *frame) { fr.regs[d] = fr.it.eqVal(fr.get(xo), fr.get(yo)) }
	case token.NEQ:
		return func(fr *frame) {
			switch b := fr.it.eqVal(fr.get(xo), fr.get(yo)).(type) {
			case bool:
				fr.regs[d] = !b
			case *Term:
				fr.regs[d] = fr.it.simp(fr.it.tt.Not(b))
			}
		}
	}
	// fast paths
	if k.c == 'i' && k.w == 64 && k.signed {
		switch op {
		case token.ADD:
			return func(fr *frame) {
				a, b := fr.get(xo), fr.get(yo)
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						fr.regs[d] = x + y
						return
					}
				}
				fr.regs[d] = fr.it.binop(op, k, yk, a, b)
			}
		case token.LSS:
			return func(fr *frame) {
				a, b := fr.get(xo), fr.get(yo)
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						fr.regs[d] = x < y
						return
					}
				}
				fr.regs[d] = fr.it.binop(op, k, yk, a, b)
			}
		}
	}
	return func(fr *frame) { fr.regs[d] = fr.it.binop(op, k, yk, fr.get(xo), fr.get(yo)) }
}

func (it *Interp) binop(op token.Token, k, yk kindT, x, y Val) Val {
	tt := it.tt
	switch k.c {
	case 's':
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return it.strLess(x, y, false)
		case token.LEQ:
			return it.strLess(x, y, true)
		case token.GTR:
			return it.strLess(y, x, false)
		case token.GEQ:
			return it.strLess(y, x, true)
		}
	case 'b':
		a, b := it.boolTerm(x), it.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return it.simp(tt.And(a, b))
		case token.OR, token.LOR:
			return it.simp(tt.Or(a, b))
		case token.XOR:
			return it.simp(tt.Not(tt.Eq(a, b)))
		}
	case 'f':
		xf, xc := x.(float64)
		yf, yc := y.(float64)
		if xc && yc {
			var r float64
			switch op {
			case token.ADD:
				r = xf + yf
			case token.SUB:
				r = xf - yf
			case token.MUL:
				r = xf * yf
			case token.QUO:
				r = xf / yf
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
			if k.w == 32 {
				r = float64(float32(r))
			}
			return r
		}
		a, b := it.term(x, k), it.term(y, k)
		switch op {
		case token.ADD:
			return it.simpK(tt.Mk(OFAdd, a.sort, a, b), k)
		case token.SUB:
			return it.simpK(tt.Mk(OFSub, a.sort, a, b), k)
		case token.MUL:
			return it.simpK(tt.Mk(OFMul, a.sort, a, b), k)
		case token.QUO:
			return it.simpK(tt.Mk(OFDiv, a.sort, a, b), k)
		case token.LSS:
			return it.simp(tt.Mk(OFLt, sBool, a, b))
		case token.LEQ:
			return it.simp(tt.Mk(OFLe, sBool, a, b))
		case token.GTR:
			return it.simp(tt.Mk(OFLt, sBool, b, a))
		case token.GEQ:
			return it.simp(tt.Mk(OFLe, sBool, b, a))
		}
	case 'i':
		xi, xc := x.(int64)
		yi, yc := y.(int64)
		if xc && yc {
			return it.intOp(op, k, yk, xi, yi)
		}
		if op == token.SHL || op == token.SHR {
			return it.shift(op, k, yk, x, y)
		}
		a, b := it.term(x, k), it.term(y, k)
		s := a.sort
		lt, le := OUlt, OUle
		if k.signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.ADD:
			return it.simpK(tt.Mk(OAdd, s, a, b), k)
		case token.SUB:
			return it.simpK(tt.Mk(OSub, s, a, b), k)
		case token.MUL:
			return it.simpK(tt.Mk(OMul, s, a, b), k)
		case token.QUO, token.REM:
			if it.truth(it.simp(tt.Eq(b, tt.BV(0, k.w)))) {
				it.rtPanic("integer divide by zero")
			}
			if q, ok := it.quotient(a, b, k); ok {
				if op == token.QUO {
					return norm(q, k)
				}
				return it.simpK(tt.Mk(OSub, s, a, tt.BV(uint64(q)*b.val, k.w)), k)
			}
			var o Op
			switch {
			case op == token.QUO && k.signed:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case k.signed:
				o = OSRem
			default:
				o = OURem
			}
			return it.simpK(tt.Mk(o, s, a, b), k)
		case token.AND:
			return it.simpK(it.ivSimp(tt.Mk(OBAnd, s, a, b)), k)
		case token.OR:
			return it.simpK(tt.Mk(OBOr, s, a, b), k)
		case token.XOR:
			return it.simpK(tt.Mk(OBXor, s, a, b), k)
		case token.AND_NOT:
			return it.simpK(tt.Mk(OBAnd, s, a, tt.Mk(OBNot, s, b)), k)
		case token.LSS:
			return it.simp(tt.Mk(lt, sBool, a, b))
		case token.LEQ:
			return it.simp(tt.Mk(le, sBool, a, b))
		case token.GTR:
			return it.simp(tt.Mk(lt, sBool, b, a))
		case token.GEQ:
			return it.simp(tt.Mk(le, sBool, b, a))
		}
	}
	it.unsupported("binop %v on kind %c (%T,%T)", op, k.c, x, y)
	return nil
}

func (it *Interp) shift(op token.Token, k, yk kindT, x, y Val) Val {
	tt := it.tt
	a := it.term(x, k)
	b := it.term(y, yk)
	if yk.signed {
		neg := it.simp(tt.Mk(OSlt, sBool, b, tt.BV(0, yk.w)))
		if it.truth(neg) {
			it.rtPanic("negative shift amount")
		}
	}
	var cnt *Term
	if yk.w > k.w {
		big := tt.Mk(OUle, sBool, tt.BV(uint64(k.w), yk.w), b)
		cnt = tt.Ite(big, tt.BV(uint64(k.w), k.w), tt.MkAB(OExtract, bv(k.w), uint16(k.w-1), 0, "", b))
	} else {
		cnt = tt.Mk(OZext, bv(k.w), b)
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if k.signed {
			o = OAshr
		}
	}
	return it.simpK(tt.Mk(o, a.sort, a, cnt), k)
}

func (it *Interp) intOp(op token.Token, k, yk kindT, x, y int64) Val {
	switch op {
	case token.ADD:
		return norm(x+y, k)
	case token.SUB:
		return norm(x-y, k)
	case token.MUL:
		return norm(x*y, k)
	case token.QUO:
		if y == 0 {
			it.rtPanic("integer divide by zero")
		}
		if !k.signed {
			return int64(uint64(x) / uint64(y))
		}
		return norm(x/y, k)
	case token.REM:
		if y == 0 {
			it.rtPanic("integer divide by zero")
		}
		if !k.signed {
			return int64(uint64(x) % uint64(y))
		}
		return norm(x%y, k)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return norm(x^y, k)
	case token.AND_NOT:
		return norm(x&^y, k)
	case token.SHL:
		if yk.signed && y < 0 {
			it.rtPanic("negative shift amount")
		}
		if uint64(y) >= 64 {
			return int64(0)
		}
		return norm(x<<uint64(y), k)
	case token.SHR:
		if yk.signed && y < 0 {
			it.rtPanic("negative shift amount")
		}
		if k.signed {
			if uint64(y) >= 64 {
				y = 63
			}
			return x >> uint64(y)
		}
		if uint64(y) >= 64 {
			return int64(0)
		}
		return int64(uint64(x) >> uint64(y))
	case token.LSS:
		if !k.signed {
			return uint64(x) < uint64(y)
		}
		return x < y
	case token.LEQ:
		if !k.signed {
			return uint64(x) <= uint64(y)
		}
		return x <= y
	case token.GTR:
		if !k.signed {
			return uint64(x) > uint64(y)
		}
		return x > y
	case token.GEQ:
		if !k.signed {
			return uint64(x) >= uint64(y)
		}
		return x >= y
	}
	panic("intOp " + op.String())
}

// ---------- conversions

func (it *Interp) convert(v Val, from, to types.Type) Val {
	ft, tu := from.Underlying(), to.Underlying()
	fk, tk := kindOf(ft), kindOf(tu)
	tt := it.tt
	switch {
	case fk.c == 'i' && tk.c == 'i':
		switch x := v.(type) {
		case int64:
			return norm(x, tk)
		case *Term:
			return it.simpK(it.resize(x, fk, tk), tk)
		}
	case fk.c == 'i' && tk.c == 'f':
		switch x := v.(type) {
		case int64:
			var f float64
			if fk.signed || x >= 0 {
				f = float64(x)
			} else {
				f = float64(uint64(x))
			}
			if tk.w == 32 {
				if fk.signed || x >= 0 {
					f = float64(float32(x))
				} else {
					f = float64(float32(uint64(x)))
				}
			}
			return f
		case *Term:
			s := sF64
			if tk.w == 32 {
				s = sF32
			}
			if fk.signed {
				return it.simpK(tt.Mk(OSToF, s, x), tk)
			}
			return it.simpK(tt.Mk(OUToF, s, x), tk)
		}
	case fk.c == 'f' && tk.c == 'f':
		switch x := v.(type) {
		case float64:
			if tk.w == 32 {
				return float64(float32(x))
			}
			return x
		case *Term:
			s := sF64
			if tk.w == 32 {
				s = sF32
			}
			return it.simpK(tt.Mk(OFToF, s, x), tk)
		}
	case fk.c == 'f' && tk.c == 'i':
		switch x := v.(type) {
		case float64:
			return f2i(x, tk)
		case *Term:
			return it.symF2I(x, tk)
		}
	case fk.c == 'i' && tk.c == 's':
		switch x := v.(type) {
		case int64:
			if !fk.signed && uint64(x) > 0x10ffff || x < 0 || x > 0x10ffff {
				return "\uFFFD"
			}
			return string(rune(x))
		case *Term:
			return it.encodeRune(it.resize(x, fk, kindT{'i', 32, true}), fk)
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if fk.c == 's' {
			ek := kindOf(t.Elem())
			if ek.w == 8 {
				return Slice(strBytes(v))
			}
			// []rune
			out := Slice{}
			itr := &StrIter{s: v}
			for {
				tp := it.strNext(nil, itr)
				if tp[0] != true {
					break
				}
				out = append(out, tp[2])
			}
			return out
		}
		return v
	case *types.Basic:
		if tk.c == 's' {
			if s, ok := v.(Slice); ok {
				ek := kindOf(ft.(*types.Slice).Elem())
				if ek.w == 8 {
					return mkStr(append([]Val(nil), s...))
				}
				var out Val = ""
				for _, r := range s {
					switch x := r.(type) {
					case int64:
						out = strConcat(out, string(rune(x)))
					case *Term:
						out = strConcat(out, it.encodeRune(x, kindT{'i', 32, true}))
					}
				}
				return out
			}
			return v
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if tk.c == 'i' {
			// uintptr(unsafe.Pointer)
			if p, ok := v.(*Val); ok {
				return int64(uintptr(unsafe.Pointer(p)))
			}
		}
		return v
	case *types.Pointer:
		// a cast that reinterprets bits
		if b, ok := ft.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if p, ok := v.(*Val); ok && p != nil {
				ek := kindOf(t.Elem().Underlying())
				_, isF := (*p).(float64)
				_, isI := (*p).(int64)
				if x, ok := (*p).(*Term); ok {
					isF, isI = x.sort.K == 'f', x.sort.K != 'f'
				}
				if ek.c == 'i' && isF || ek.c == 'f' && isI {
					it.unsupported("unsafe reinterpretation of bits")
				}
			}
		}
		return v
	}
	return v
}

func (it *Interp) resize(x *Term, fk, tk kindT) *Term {
	switch {
	case tk.w == int(x.sort.W):
		return x
	case tk.w < int(x.sort.W):
		return it.tt.MkAB(OExtract, bv(tk.w), uint16(tk.w-1), 0, "", x)
	case fk.signed:
		return it.ivSimp(it.tt.Mk(OSext, bv(tk.w), x))
	default:
		return it.ivSimp(it.tt.Mk(OZext, bv(tk.w), x))
	}
}

func f2i(x float64, k kindT) int64 {
	switch {
	case k.w == 64 && k.signed:
		return int64(x)
	case k.w == 64:
		return int64(uint64(x))
	case k.w == 32 && k.signed:
		return int64(int32(x))
	case k.w == 32:
		return int64(uint32(x))
	case k.w == 16 && k.signed:
		return int64(int16(x))
	case k.w == 16:
		return int64(uint16(x))
	case k.signed:
		return int64(int8(x))
	default:
		return int64(uint8(x))
	}
}

func (it *Interp) symF2I(x *Term, k kindT) Val {
	kf := kindT{'f', int(x.sort.W), true}
	if !(k.w == 64 && k.signed) {
		if k.w == 64 {
			it.unsupported("symbolic float to uint64")
		}
		// via int64 (uint32) or int32 range
		w := 32
		if k.w == 32 && !k.signed {
			w = 64
		}
		t := it.symF2Iw(x, w, kf)
		return it.simpK(it.resize(t, kindT{'i', w, true}, k), k)
	}
	return it.simpK(it.symF2Iw(x, 64, kf), kindT{'i', 64, true})
}

func (it *Interp) symF2Iw(x *Term, w int, kf kindT) *Term {
	tt := it.tt
	lo, hi := math.Ldexp(-1, w-1), math.Ldexp(1, w-1)
	in := tt.And(tt.Mk(OFLt, sBool, x, it.term(hi, kf)), tt.Mk(OFLe, sBool, it.term(lo, kf), x))
	if w == 32 {
		in = tt.And(tt.Mk(OFLt, sBool, x, it.term(hi, kf)), tt.Mk(OFLt, sBool, it.term(lo-1, kf), x))
	}
	return tt.Ite(in, tt.MkAB(OFToS, bv(w), 0, 0, "", x), tt.BV(1<<(w-1), w))
}

// encodeRune of a symbolic 32-bit rune, forking on its encoded length.
func (it *Interp) encodeRune(r *Term, fk kindT) Val {
	tt := it.tt
	c := func(n uint64) *Term { return tt.BV(n, 32) }
	ext := func(hi, lo int, pre uint64) Val {
		n := hi - lo + 1
		x := tt.MkAB(OExtract, bv(n), uint16(hi), uint16(lo), "", r)
		return it.simpK(tt.Mk(OBOr, bv(8), tt.Mk(OZext, bv(8), x), tt.BV(pre, 8)), kindT{'i', 8, false})
	}
	if it.truth(it.simp(tt.Mk(OUlt, sBool, r, c(0x80)))) {
		return mkStr([]Val{ext(7, 0, 0)})
	}
	if it.truth(it.simp(tt.Mk(OUlt, sBool, r, c(0x800)))) {
		return mkStr([]Val{ext(10, 6, 0xC0), ext(5, 0, 0x80)})
	}
	bad := tt.Or(tt.Mk(OUlt, sBool, c(0x10ffff), r), tt.And(tt.Mk(OUle, sBool, c(0xd800), r), tt.Mk(OUle, sBool, r, c(0xdfff))))
	if it.truth(it.simp(bad)) {
		return "\uFFFD"
	}
	if it.truth(it.simp(tt.Mk(OUlt, sBool, r, c(0x10000)))) {
		return mkStr([]Val{ext(15, 12, 0xE0), ext(11, 6, 0x80), ext(5, 0, 0x80)})
	}
	return mkStr([]Val{ext(20, 18, 0xF0), ext(17, 12, 0x80), ext(11, 6, 0x80), ext(5, 0, 0x80)})
}

func (it *Interp) strNext(fr *frame, itr *StrIter) Tuple {
	n := strLen(itr.s)
	if itr.i >= n {
		return Tuple{false, int64(0), int64(0)}
	}
	if s, ok := itr.s.(string); ok {
		for i, r := range s[itr.i:] {
			if i == 0 {
				at := itr.i
				size := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(s[itr.i:], "\uFFFD") {
					size = 1
				}
				itr.i += size
				return Tuple{true, int64(at), int64(r)}
			}
		}
	}
	at := itr.i
	b := strAt(itr.s, at)
	if bt, ok := b.(*Term); ok {
		if it.truth(it.simp(it.tt.Mk(OUlt, sBool, bt, it.tt.BV(0x80, 8)))) {
			itr.i++
			return Tuple{true, int64(at), it.simpK(it.tt.Mk(OZext, bv(32), bt), kindT{'i', 32, true})}
		}
	} else if b.(int64) < 0x80 {
		itr.i++
		return Tuple{true, int64(at), b}
	}
	dec := it.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	res := it.call(fr, dec, []Val{strSlice(itr.s, at, n)}, nil).(Tuple)
	itr.i += int(it.concInt(res[1], kindT{'i', 64, true}))
	return Tuple{true, int64(at), res[0]}
}

// ---------- slicing

func (c *compiler) slice(x *ssa.Slice) func(*frame) {
	d, o := c.regs[x], c.op(x.X)
	var lo, hi, mx *opnd
	var lk, hk, mk kindT
	if x.Low != nil {
		a := c.op(x.Low)
		lo = &a
		lk = kindOf(x.Low.Type())
	}
	if x.High != nil {
		a := c.op(x.High)
		hi = &a
		hk = kindOf(x.High.Type())
	}
	if x.Max != nil {
		a := c.op(x.Max)
		mx = &a
		mk = kindOf(x.Max.Type())
	}
	return func(fr *frame) {
		it := fr.it
		xv := fr.get(o)
		var n, cp int
		var sl Slice
		isStr, isArr := false, false
		switch v := xv.(type) {
		case string, *SymStr:
			isStr = true
			n = strLen(v)
			cp = n
		case Slice:
			sl, n, cp = v, len(v), cap(v)
		case *Val:
			if v == nil {
				it.nilDeref()
			}
			a := (*v).(Array)
			sl, n, cp = Slice(a), len(a), len(a)
			sl = sl[:n:n]
			isArr = true
		default:
			it.unsupported("slice of %T", v)
		}
		bound := func(p *opnd, k kindT, def int) int64 {
			if p == nil {
				return int64(def)
			}
			switch v := fr.get(*p).(type) {
			case int64:
				return v
			case *Term:
				// out of range bounds all behave alike (panic)
				t := it.idx64(v, k)
				if !it.truth(it.simp(it.tt.Mk(OUle, sBool, t, it.tt.BV(uint64(cp), 64)))) {
					it.rtPanic("slice bounds out of range [symbolic]")
				}
				return it.concretize(t, kindT{'i', 64, true})
			}
			panic("bound")
		}
		m := bound(mx, mk, cp)
		h := bound(hi, hk, n)
		l := bound(lo, lk, 0)
		if m < 0 || m > int64(cp) || h < 0 || h > m || l < 0 || l > h {
			it.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if isStr {
			fr.regs[d] = strSlice(xv, int(l), int(h))
			return
		}
		if sl == nil && !isArr {
			fr.regs[d] = Slice(nil)
			return
		}
		fr.regs[d] = sl[l:h:m]
	}
}

// ---------- type assertions

func (it *Interp) implements(t types.Type, i *types.Interface, ic types.Type) bool {
	k := implKey{t, ic}
	if r, ok := it.icache[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	it.icache[k] = r
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(*frame) {
	d, o := c.regs[x], c.op(x.X)
	at := canon(x.AssertedType)
	ci := x.AssertedType
	if i, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		return func(fr *frame) {
			v := fr.get(o).(Iface)
			okk := v.t != nil
			if okk {
				if _, rt := v.v.(*RType); rt {
					okk = true
				} else {
					okk = fr.it.implements(v.t, i, ci)
				}
			}
			if x.CommaOk {
				if okk {
					fr.regs[d] = Tuple{v, true}
				} else {
					fr.regs[d] = Tuple{Iface{}, false}
				}
				return
			}
			if !okk {
				fr.it.rtPanic(fmt.Sprintf("interface conversion: %v is not %v", v.t, ci))
			}
			fr.regs[d] = v
		}
	}
	z := zero(x.AssertedType)
	return func(fr *frame) {
		v := fr.get(o).(Iface)
		okk := v.t != nil && v.t == at
		if x.CommaOk {
			if okk {
				fr.regs[d] = Tuple{copyVal(v.v), true}
			} else {
				fr.regs[d] = Tuple{copyVal(z), false}
			}
			return
		}
		if !okk {
			fr.it.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at))
		}
		fr.regs[d] = copyVal(v.v)
	}
}

// ---------- calls

func (it *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := it.mcache[k]; ok {
		return f
	}
	sel := it.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		it.mcache[k] = nil
		return nil
	}
	f := it.P.prog.MethodValue(sel)
	it.mcache[k] = f
	return f
}

// call compiles a call; the returned function evaluates operands and yields a thunk.
func (c *compiler) call(cc *ssa.CallCommon, instr ssa.Value) func(fr *frame) func() Val {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	getArgs := func(fr *frame, extra int) []Val {
		vs := make([]Val, len(args)+extra)
		for i, a := range args {
			vs[i+extra] = copyVal(fr.get(a))
		}
		return vs
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func() Val {
			it := fr.it
			r, ok := fr.get(recv).(Iface)
			if !ok {
				it.unsupported("invoke on %T", fr.get(recv))
			}
			if r.t == nil {
				it.nilDeref()
			}
			vs := getArgs(fr, 1)
			if rt, ok := r.v.(*RType); ok {
				return func() Val { return it.rtypeMethod(rt, m.Name(), vs[1:]) }
			}
			fn := it.findMethod(r.t, m)
			if fn == nil {
				it.unsupported("no method %s on %v", m.Name(), r.t)
			}
			vs[0] = r.v
			return func() Val { return it.call(fr, fn, vs, nil) }
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		name := v.Name()
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		var rt types.Type
		if instr != nil {
			rt = instr.Type()
		}
		return func(fr *frame) func() Val {
			vs := make([]Val, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			return func() Val { return fr.it.builtin(fr, name, vs, ats, rt) }
		}
	case *ssa.Function:
		fn := v
		if fn.Name() == "init" && fn.Synthetic == "package initializer" {
			return func(fr *frame) func() Val { return func() Val { return nil } }
		}
		if errorText(fn, instr) {
			return func(fr *frame) func() Val {
				vs := getArgs(fr, 0)
				if l, ok := vs[len(vs)-1].(Slice); ok {
					vs[len(vs)-1] = fr.it.errArgs(l)
				}
				return func() Val { return fr.it.call(fr, fn, vs, nil) }
			}
		}
		return func(fr *frame) func() Val {
			vs := getArgs(fr, 0)
			return func() Val { return fr.it.call(fr, fn, vs, nil) }
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame) func() Val {
		f, ok := fr.get(fo).(*Closure)
		if !ok {
			fr.it.unsupported("call of %T", fr.get(fo))
		}
		vs := getArgs(fr, 0)
		return func() Val { return fr.it.callClosure(fr, f, vs) }
	}
}

// errorText reports whether the call formats a text that only becomes part of an
// error value.
func errorText(fn *ssa.Function, instr ssa.Value) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "fmt" || instr == nil || instr.Referrers() == nil || len(*instr.Referrers()) == 0 {
		return false
	}
	switch fn.Name() {
	case "Sprint", "Sprintf", "Sprintln":
	default:
		return false
	}
	isErr := func(t types.Type) bool {
		return types.NewMethodSet(t).Lookup(nil, "Error") != nil || types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "Error") != nil
	}
	for _, r := range *instr.Referrers() {
		switch x := r.(type) {
		case *ssa.ChangeType:
			if !isErr(x.Type()) {
				return false
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			p, ok := fa.X.Type().Underlying().(*types.Pointer)
			if !ok || !isErr(p.Elem()) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (it *Interp) callClosure(fr *frame, f *Closure, args []Val) Val {
	if f == nil {
		it.nilDeref()
	}
	if f.nat != nil {
		return f.nat(it, args)
	}
	if f.fn == nil {
		it.unsupported("call of builtin value %s", f.bi)
	}
	return it.call(fr, f.fn, args, f.env)
}

const maxDepth = 1500

func (it *Interp) call(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	cf, ok := it.funcs[fn]
	if !ok {
		cf = it.compile(fn)
	}
	if cf.intr != nil {
		if r, ok := cf.intr(it, caller, fn, args); ok {
			return r
		}
	}
	if fn.Blocks == nil {
		it.unsupported("function without body: %s", fn.String())
	}
	if cf.target {
		it.used[cf.name]++
	}
	it.depth++
	if it.depth > maxDepth {
		it.depth = 0
		panic(pathEnd{"budget", "call depth exceeded in " + fn.String()})
	}
	fr := &frame{it: it, cf: cf, caller: caller, regs: make([]Val, cf.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	d := it.depth
	if cf.hasDef || cf.recover >= 0 {
		it.runWithDefers(fr)
	} else {
		it.runBlocks(fr, 0)
	}
	it.depth = d - 1
	return fr.result
}

func (it *Interp) runWithDefers(fr *frame) {
	d := it.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				it.depth = d
				fr.panicking = true
				fr.panicV = tp
			}
		}()
		it.runBlocks(fr, 0)
	}()
	if fr.panicking {
		fr.runDefersPanicking()
		// recovered
		it.depth = d
		if fr.cf.recover >= 0 {
			it.runBlocks(fr, fr.cf.recover)
		} else {
			fr.result = zeroResults(fr.cf.fn)
		}
	}
}

func zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		f()
	}
}

func (fr *frame) runDefersPanicking() {
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			d := fr.it.depth
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.it.depth = d
					fr.panicking = true
					fr.panicV = tp
				}
			}()
			f()
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (it *Interp) runBlocks(fr *frame, b int) {
	ps := it.path
	var tmp [8]Val
	for b >= 0 {
		cb := fr.cf.blocks[b]
		if ps != nil {
			ps.steps += len(cb.ins) + 1
			if ps.steps > ps.maxSteps {
				panic(pathEnd{"budget", "step budget exceeded in " + fr.cf.name})
			}
		}
		if len(cb.phis) > 0 {
			pi := -1
			for i, p := range cb.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(cb.phis[0].edges[pi])
			} else {
				vs := tmp[:0]
				for i := range cb.phis {
					vs = append(vs, fr.get(cb.phis[i].edges[pi]))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vs[i]
				}
			}
		}
		for _, f := range cb.ins {
			f(fr)
		}
		fr.prev = b
		b = cb.term(fr)
	}
}

// ---------- map iteration

func (it *Interp) newMapIter(m *Map, cf *cfunc) *MapIter {
	if m == nil {
		return &MapIter{}
	}
	var live []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			live = append(live, e)
		}
	}
	mi := &MapIter{m: m, order: live, tail: len(m.ents)}
	if it.path != nil && it.path.mapMode > 0 && len(live) > 1 && cf.target {
		it.permute(mi)
	}
	return mi
}

func (mi *MapIter) next() *mapEnt {
	for mi.i < len(mi.order) {
		e := mi.order[mi.i]
		mi.i++
		if !e.dead {
			return e
		}
	}
	if mi.m != nil {
		for mi.tail < len(mi.m.ents) {
			e := mi.m.ents[mi.tail]
			mi.tail++
			if !e.dead {
				return e
			}
		}
	}
	return nil
}

// ---------- builtins

type growKey struct {
	size   int64
	ptr    bool
	oldCap int
	newLen int
}

var growMu sync.Mutex
var growCache = map[growKey]int{}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (it *Interp) growCap(et types.Type, oldLen, oldCap, newLen int) int {
	sz := it.P.sizes.Sizeof(et)
	k := growKey{sz, hasPointers(et), oldCap, newLen}
	growMu.Lock()
	defer growMu.Unlock()
	if c, ok := growCache[k]; ok {
		return c
	}
	if newLen > 1<<16 {
		return newLen + newLen/4
	}
	var rt reflect.Type
	if k.ptr {
		rt = reflect.ArrayOf(int((sz+7)/8), reflect.TypeOf((*int)(nil)))
	} else {
		rt = reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
		if sz == 1 {
			rt = reflect.TypeOf(byte(0))
		} else if sz == 8 {
			rt = reflect.TypeOf(int64(0))
		} else if sz == 4 {
			rt = reflect.TypeOf(int32(0))
		}
	}
	s := reflect.MakeSlice(reflect.SliceOf(rt), oldCap, oldCap)
	add := reflect.MakeSlice(reflect.SliceOf(rt), newLen-oldCap, newLen-oldCap)
	c := reflect.AppendSlice(s, add).Cap()
	growCache[k] = c
	return c
}

func (it *Interp) appendVals(s Slice, add []Val, et types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		copy(r[len(s):], add)
		return r
	}
	nc := it.growCap(et, len(s), cap(s), n)
	r := make(Slice, n, nc)
	copy(r, s)
	copy(r[len(s):], add)
	z := zero(et)
	full := r[:nc]
	for i := n; i < nc; i++ {
		switch z.(type) {
		case Struct, Array:
			full[i] = zero(et)
		default:
			full[i] = z
		}
	}
	return r
}

func (it *Interp) builtin(fr *frame, name string, a []Val, ats []types.Type, rt types.Type) Val {
	switch name {
	case "len":
		switch x := a[0].(type) {
		case string, *SymStr:
			return int64(strLen(x))
		case Slice:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case Array:
			return int64(len(x))
		case *Val:
			if x == nil {
				if p, ok := ats[0].Underlying().(*types.Pointer); ok {
					return p.Elem().Underlying().(*types.Array).Len()
				}
				return int64(0)
			}
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := a[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Val:
			return int64(len((*x).(Array)))
		}
	case "append":
		s := a[0].(Slice)
		et := ats[0].Underlying().(*types.Slice).Elem()
		var add []Val
		switch y := a[1].(type) {
		case Slice:
			add = make([]Val, len(y))
			for i := range y {
				add[i] = copyVal(y[i])
			}
		case string, *SymStr:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		return it.appendVals(s, add, et)
	case "copy":
		d := a[0].(Slice)
		var src []Val
		switch y := a[1].(type) {
		case Slice:
			src = make([]Val, len(y))
			for i := range y {
				src[i] = copyVal(y[i])
			}
		case string, *SymStr:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			storeTo(&d[i], src[i])
		}
		return int64(n)
	case "delete":
		m, _ := a[0].(*Map)
		if m != nil {
			it.mapDelete(m, a[1])
		}
		return nil
	case "clear":
		switch x := a[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.idx = map[any]*mapEnt{}
				x.n, x.nsym = 0, 0
			}
		case Slice:
			et := ats[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "panic":
		v, _ := a[0].(Iface)
		panic(targetPanic{v})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking one
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV.v
			if v.t == nil {
				return Iface{it.P.rtErrT, "panic called with nil argument"}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := a[0]
		k := kindOf(rt)
		for _, y := range a[1:] {
			if k.c == 'f' {
				if _, ok := r.(*Term); ok {
					it.unsupported("symbolic float min/max")
				}
				if _, ok := y.(*Term); ok {
					it.unsupported("symbolic float min/max")
				}
				if name == "min" {
					r = math.Min(r.(float64), y.(float64))
				} else {
					r = math.Max(r.(float64), y.(float64))
				}
				continue
			}
			lt := it.binop(token.LSS, k, k, y, r)
			if name == "max" {
				lt = it.binop(token.LSS, k, k, r, y)
			}
			switch b := lt.(type) {
			case bool:
				if b {
					r = y
				}
			case *Term:
				if k.c == 's' {
					if it.truth(b) {
						r = y
					}
				} else {
					r = it.simpK(it.tt.Ite(b, it.term(y, k), it.term(r, k)), k)
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := a[0].(*Val); ok && p == nil {
			it.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
		}
		return a[0]
	case "String": // unsafe.String
		n := int(it.concInt(a[1], kindT{'i', 64, true}))
		p := a[0].(*Val)
		if n == 0 {
			return ""
		}
		return mkStr(append([]Val(nil), unsafe.Slice(p, n)...))
	case "StringData":
		b := strBytes(a[0])
		if len(b) == 0 {
			return (*Val)(nil)
		}
		return &b[0]
	case "SliceData":
		s := a[0].(Slice)
		if cap(s) == 0 {
			return (*Val)(nil)
		}
		return &s[:1][0]
	case "Slice":
		n := int(it.concInt(a[1], kindT{'i', 64, true}))
		p := a[0].(*Val)
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "Add":
		it.unsupported("unsafe.Add")
	}
	it.unsupported("builtin %s", name)
	return nil
}
