package main

// Path exploration by re-execution from decision prefixes.

import (
	"fmt"
	"go/token"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	taken bool
	val   uint64 // value tried, for concretisation decisions
}

type Item struct {
	h      *Harness
	prefix []Dec
	model  Model
}

type nondet struct {
	kind byte // i f b s
	name string
	v    Val
}

type obs struct {
	name string
	v    Val
}

type PathState struct {
	h        *Harness
	prefix   []Dec
	decs     []Dec
	pc       []*Term
	model    Model
	ev       *evaluator
	steps    int
	maxSteps int
	mapMode  int
	permuted bool
	mapBack  int // 2: every map is iterated backwards
	mapDevs  int // iterations in another order than insertion
	opaque   bool
	nd       []nondet
	obs      []obs
	asserts  int
	marks    map[string]bool
	streams  map[*Val]Val
	nvar     int
	folds    int              // term normalisations up to the last assertion
	bnd      map[int][2]int64 // signed bounds of terms
	decText  map[decKey]Val   // decimal texts of terms
	known    map[int]bool     // ids of conjuncts; negative: the negation is on the path
}

// Harness is one entry function h.Pnn_xxx.
type Harness struct {
	name string
	fn   *ssa.Function

	mu        sync.Mutex
	stack     []*Item
	inflight  int
	spentNs   int64
	paths     map[string]int // by end status
	decisions int64
	steps     int64
	asserts   int64 // assertions evaluated
	queriesA  int64 // assertions decided by the solver
	onPath    int64 // assertions settled by the solver-decided branches of their path
	byNorm    int64 // assertions settled by normalising symbolic terms
	trivial   int64 // assertions without symbolic input before them
	undecided int64 // branch or assertion queries without an answer
	notes     map[string]int
	cands     map[string]int // candidates tried per violation key
	confirmed map[string]*Violation
	unconf    map[string]int
	samples   []*Sample
	nsample   int
	markers   map[string]bool
	opaqueP   int
	maxDec    int
}

type Violation struct {
	Harness string
	Key     string // property:harness:id
	ID      string
	Msg     string
	Trace   []Ev
	Native  string
	Replay  string
	Known   string
}

type Sample struct {
	Trace []Ev
	Obs   []string
	Perm  bool
}

type Ev struct {
	K string `json:"k"`
	N string `json:"n"`
	V string `json:"v"`
}

type Engine struct {
	P        *Program
	stats    Stats
	harn     []*Harness
	deadline time.Time
	maxSteps int
	maxDecs  int
	maxPaths int
	nworkers int
	native   *Native
	thorough bool
	seed     int

	mu     sync.Mutex
	cond   *sync.Cond
	used   map[string]int
	stop   bool
	cutoff int64
}

func (e *Engine) next() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		var best *Harness
		busy := false
		for _, h := range e.harn {
			if h.inflight > 0 {
				busy = true
			}
			if len(h.stack) == 0 {
				continue
			}
			if best == nil || atomic.LoadInt64(&h.spentNs) < atomic.LoadInt64(&best.spentNs) {
				best = h
			}
		}
		if best != nil {
			it := best.stack[len(best.stack)-1]
			best.stack = best.stack[:len(best.stack)-1]
			best.inflight++
			return it
		}
		if !busy {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) push(h *Harness, it *Item) {
	e.mu.Lock()
	h.stack = append(h.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) done(h *Harness) {
	e.mu.Lock()
	h.inflight--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Engine) run() {
	e.cond = sync.NewCond(&e.mu)
	e.used = map[string]int{}
	for _, h := range e.harn {
		h.stack = []*Item{{h: h, model: Model{}}}
	}
	tick := time.NewTicker(200 * time.Millisecond)
	doneCh := make(chan bool)
	go func() {
		for {
			select {
			case <-tick.C:
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					e.stop = true
					e.mu.Unlock()
				}
				e.cond.Broadcast()
			case <-doneCh:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	tick.Stop()
	close(doneCh)
	for _, h := range e.harn {
		e.cutoff += int64(len(h.stack))
	}
}

func (e *Engine) newWorkerInterp() *Interp {
	it := NewInterp(e.P, e)
	it.solver.deadline = e.deadline
	it.path = &PathState{maxSteps: 1 << 40, known: map[int]bool{}, marks: map[string]bool{}, streams: map[*Val]Val{}, h: &Harness{}}
	it.initPackages(false)
	return it
}

func (e *Engine) worker() {
	var it *Interp
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					fmt.Fprintln(os.Stderr, "package initialisation:", pe.status, pe.msg)
					it = nil
					return
				}
				if tp, ok := r.(targetPanic); ok {
					fmt.Fprintln(os.Stderr, "package initialisation panicked:", panicText(tp.v))
					it = nil
					return
				}
				panic(r)
			}
		}()
		it = e.newWorkerInterp()
	}()
	if it == nil {
		return
	}
	defer func() {
		e.mu.Lock()
		for k, v := range it.used {
			e.used[k] += v
		}
		e.mu.Unlock()
		it.solver.stop()
	}()
	for {
		item := e.next()
		if item == nil {
			return
		}
		t0 := time.Now()
		it.runPath(item)
		atomic.AddInt64(&item.h.spentNs, int64(time.Since(t0)))
		if os.Getenv("SYM_SLOW") != "" && time.Since(t0) > 2*time.Second {
			fmt.Fprintf(os.Stderr, "slow path %s %.1fs %d decisions: %v\n", item.h.name, time.Since(t0).Seconds(), len(it.path.decs), it.trace(it.path, it.path.ev))
		}
		e.done(item.h)
		if it.tt.nextID > 3_000_000 {
			e.mu.Lock()
			for k, v := range it.used {
				e.used[k] += v
			}
			e.mu.Unlock()
			it.solver.stop()
			it = e.newWorkerInterp()
			runtime.GC()
		}
	}
}

func panicText(v Iface) string {
	switch x := v.v.(type) {
	case string:
		return x
	}
	if v.t != nil {
		return fmt.Sprintf("%v value", v.t)
	}
	return "nil"
}

func (it *Interp) runPath(item *Item) {
	h := item.h
	e := it.eng
	ps := &PathState{h: h, prefix: item.prefix, model: item.model, maxSteps: e.maxSteps, folds: it.tt.folds, known: map[int]bool{}, marks: map[string]bool{}, streams: map[*Val]Val{}}
	ps.ev = newEval(ps.model)
	it.depth = 0
	var status, msg string
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					status, msg = x.status, x.msg
				case targetPanic:
					status, msg = "panic", panicText(x.v)
				default:
					if os.Getenv("SYM_CRASH") != "" {
						panic(r)
					}
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					if os.Getenv("SYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "ENGINE: %v\n%s\n", r, buf)
					}
					status, msg = "unsupported", fmt.Sprintf("engine: %v", r)
				}
			}
		}()
		it.path = &PathState{maxSteps: 1 << 40, h: h}
		it.initPackages(true)
		it.path = ps
		it.call(nil, h.fn, nil, nil)
		status = "done"
	}()
	it.depth = 0
	switch status {
	case "panic":
		it.candidate(ps, "panic", "uncaught panic: "+msg)
	case "budget":
		if it.candidate(ps, "hang", msg) {
			status = "hang"
		}
	}
	h.mu.Lock()
	h.paths[status]++
	h.steps += int64(ps.steps)
	h.decisions += int64(len(ps.decs))
	if len(ps.decs) > h.maxDec {
		h.maxDec = len(ps.decs)
	}
	h.asserts += int64(ps.asserts)
	if status != "done" && status != "assume" && status != "infeasible" && msg != "" {
		h.notes[status+": "+msg]++
	}
	for m := range ps.marks {
		h.markers[m] = true
	}
	if ps.opaque {
		h.opaqueP++
	}
	if status == "done" {
		h.nsample++
		n := h.nsample
		// keep a spread of completed paths: first 12, then ever rarer
		if (n <= 12 || n&(n-1) == 0 || n%97 == 0) && len(h.samples) < 48 {
			h.samples = append(h.samples, &Sample{Trace: it.trace(ps, ps.ev), Obs: it.obsText(ps), Perm: ps.permuted})
		}
	}
	h.mu.Unlock()
}

// ---------- trace construction

func (it *Interp) trace(ps *PathState, ev *evaluator) []Ev {
	var out []Ev
	for _, n := range ps.nd {
		e := Ev{K: string(n.kind), N: n.name}
		switch n.kind {
		case 'i':
			switch x := n.v.(type) {
			case int64:
				e.V = fmt.Sprint(x)
			case *Term:
				e.V = fmt.Sprint(sext(ev.eval(x), x.sort.W))
			}
		case 'b':
			switch x := n.v.(type) {
			case bool:
				e.V = fmt.Sprint(x)
			case *Term:
				e.V = fmt.Sprint(ev.eval(x) == 1)
			}
		case 'f':
			switch x := n.v.(type) {
			case *Term:
				e.V = fmt.Sprintf("%016x", ev.eval(x))
			}
		case 's':
			b := make([]byte, strLen(n.v))
			for i := range b {
				switch c := strAt(n.v, i).(type) {
				case int64:
					b[i] = byte(c)
				case *Term:
					b[i] = byte(ev.eval(c))
				}
			}
			e.V = fmt.Sprintf("%x", b)
		}
		out = append(out, e)
	}
	return out
}

func (it *Interp) obsText(ps *PathState) []string {
	var out []string
	for _, o := range ps.obs {
		out = append(out, o.name+"="+it.show(o.v, ps.ev, 4))
	}
	return out
}

// candidate replays a suspected violation natively; true when confirmed.
func (it *Interp) candidate(ps *PathState, id, msg string) bool {
	return it.candidateM(ps, ps.model, id, msg)
}

func (it *Interp) candidateM(ps *PathState, m Model, id, msg string) bool {
	h := ps.h
	h.mu.Lock()
	if h.confirmed[id] != nil {
		h.mu.Unlock()
		return true
	}
	if h.cands[id] >= 6 {
		h.unconf[id]++
		h.mu.Unlock()
		return false
	}
	h.cands[id]++
	h.mu.Unlock()
	tr := it.trace(ps, newEval(m))
	tries := 1
	if ps.permuted || ps.mapMode > 0 {
		tries = 300
	}
	res := it.eng.native.replay(h.name, tr, tries)
	ok := false
	switch {
	case res.Status == "assert":
		ok = true
		id = res.ID
	case res.Status == "panic" || res.Status == "crash":
		ok = true
		id = "panic"
	case res.Status == "timeout" && id == "hang":
		ok = true
	}
	if os.Getenv("SYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "candidate %s %s %s -> native %s %s %s\n  trace %v\n", h.name, id, msg, res.Status, res.ID, res.Msg, tr)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if ok {
		if h.confirmed[id] == nil {
			h.confirmed[id] = &Violation{Harness: h.name, ID: id, Msg: msg, Trace: tr, Native: res.Status + " " + res.ID + " " + res.Msg}
		}
		if os.Getenv("SYM_FIRST") != "" && !strings.Contains(h.name, "_Finding") {
			it.eng.stop = true // development: one violation is enough
		}
		return true
	}
	h.unconf[id]++
	h.notes["unconfirmed candidate "+id+": "+msg+" (native "+res.Status+")"]++
	return false
}

// ---------- decisions

// slice returns the conjuncts of pc connected to c through shared variables.
func (it *Interp) slicePC(ps *PathState, c *Term) []*Term {
	want := map[int32]bool{}
	for _, v := range it.tt.varsOf(c) {
		want[v] = true
	}
	n := len(ps.pc)
	used := make([]bool, n)
	for changed := true; changed; {
		changed = false
		for i, p := range ps.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range it.tt.varsOf(p) {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range it.tt.varsOf(p) {
					want[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, p := range ps.pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return append(out, c)
}

func (it *Interp) query(ps *PathState, c *Term, must bool) (Result, Model) {
	r, m := it.solver.Check(it.slicePC(ps, c), must)
	if r != Sat {
		return r, nil
	}
	nm := make(Model, len(ps.model)+len(m))
	for k, v := range ps.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

func (ps *PathState) setModel(m Model) {
	ps.model = m
	ps.ev = newEval(m)
}

func (it *Interp) addPC(ps *PathState, c *Term) {
	if c.isTrue() || ps.known[c.id] {
		return
	}
	ps.pc = append(ps.pc, c)
	ps.known[c.id] = true
	if c.op == ONot {
		ps.known[-c.args[0].id] = true
	}
}

func (it *Interp) truth(v Val) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return it.decide(x, token.NoPos)
	}
	panic(fmt.Sprintf("truth %T", v))
}

// decide forks on c.
func (it *Interp) decide(c *Term, pos token.Pos) bool { return it.decideC(c, 0) }

// decideV is decide for a choice of value: the value tried is recorded with the
// decision, also when the outcome is already known, so that a replayed prefix
// tries the same values.
func (it *Interp) decideV(c *Term, val uint64) bool {
	ps := it.path
	known, r := c.isConst(), c.isConst() && c.val == 1
	if !known && ps.known[c.id] {
		known, r = true, true
	} else if !known && (c.op == ONot && ps.known[-c.args[0].id] || ps.known[-c.id]) {
		known, r = true, false
	}
	if !known {
		r, known = it.ivDecide(c)
	}
	if known {
		ps.decs = append(ps.decs, Dec{r, val})
		return r
	}
	return it.decideC(c, val)
}

func (it *Interp) decideC(c *Term, val uint64) bool {
	if c.isConst() {
		return c.val == 1
	}
	ps := it.path
	if ps.h.fn == nil {
		it.unsupported("symbolic branch outside a path")
	}
	if ps.known[c.id] {
		return true
	}
	if c.op == ONot && ps.known[-c.args[0].id] || ps.known[-c.id] {
		return false
	}
	if v, ok := it.ivDecide(c); ok {
		return v
	}
	if i := len(ps.decs); i < len(ps.prefix) {
		d := ps.prefix[i]
		ps.decs = append(ps.decs, d)
		if d.taken {
			it.addPC(ps, c)
		} else {
			it.addPC(ps, it.tt.Not(c))
		}
		return d.taken
	}
	if len(ps.decs) >= it.eng.maxDecs {
		panic(pathEnd{"budget", "decision budget exceeded"})
	}
	if it.eng.stop {
		panic(pathEnd{"cutoff", ""})
	}
	b := ps.ev.eval(c) == 1
	this, other := c, it.tt.Not(c)
	if !b {
		this, other = other, this
	}
	r, m := it.query(ps, other, false)
	switch r {
	case Sat:
		np := make([]Dec, len(ps.decs)+1)
		copy(np, ps.decs)
		np[len(ps.decs)] = Dec{!b, val}
		it.eng.push(ps.h, &Item{h: ps.h, prefix: np, model: m})
	case Unknown:
		atomic.AddInt64(&ps.h.undecided, 1)
	}
	ps.decs = append(ps.decs, Dec{b, val})
	it.addPC(ps, this)
	return b
}

// concretize enumerates the feasible values of t.
func (it *Interp) concretize(t *Term, k kindT) int64 {
	if t.isConst() {
		return norm(int64(t.val), k)
	}
	ps := it.path
	for n := 0; ; n++ {
		if n > 600 {
			panic(pathEnd{"unsupported", "too many values for a concretised term"})
		}
		var v uint64
		if i := len(ps.decs); i < len(ps.prefix) {
			v = ps.prefix[i].val
		} else {
			v = ps.ev.eval(t)
		}
		c := it.tt.Eq(t, it.tt.BV(v, int(t.sort.W)))
		if it.decideV(c, v) {
			return norm(int64(v), k)
		}
	}
}

// assume adds c to the path condition, ending the path if impossible.
func (it *Interp) assume(v Val) {
	ps := it.path
	switch x := v.(type) {
	case bool:
		if !x {
			panic(pathEnd{"assume", ""})
		}
	case *Term:
		if ps.ev.eval(x) != 1 && len(ps.decs) >= len(ps.prefix) {
			r, m := it.query(ps, x, true)
			switch r {
			case Unsat:
				panic(pathEnd{"assume", ""})
			case Unknown:
				atomic.AddInt64(&ps.h.undecided, 1)
				panic(pathEnd{"undecided", "assumption undecided"})
			}
			ps.setModel(m)
		}
		it.addPC(ps, x)
	}
}

func (it *Interp) assertHolds(v Val, id string) {
	ps := it.path
	ps.asserts++
	switch x := v.(type) {
	case bool:
		switch {
		case it.tt.folds != ps.folds:
			ps.folds = it.tt.folds
			atomic.AddInt64(&ps.h.byNorm, 1)
		case len(ps.decs) > 0:
			atomic.AddInt64(&ps.h.onPath, 1)
		default:
			atomic.AddInt64(&ps.h.trivial, 1)
		}
		if !x {
			it.candidate(ps, id, "assertion "+id)
			panic(pathEnd{"violation", id})
		}
	case *Term:
		if len(ps.decs) < len(ps.prefix) {
			// replaying: this assertion was decided when the prefix was first run
			it.addPC(ps, x)
			return
		}
		n := it.tt.Not(x)
		if ps.ev.eval(x) != 1 {
			it.candidate(ps, id, "assertion "+id)
			// continue on the side where it holds
			r, m := it.query(ps, x, true)
			if r != Sat {
				panic(pathEnd{"violation", id})
			}
			ps.setModel(m)
			it.addPC(ps, x)
			return
		}
		r, m := it.query(ps, n, true)
		atomic.AddInt64(&ps.h.queriesA, 1)
		switch r {
		case Sat:
			it.candidateM(ps, m, id, "assertion "+id)
		case Unknown:
			atomic.AddInt64(&ps.h.undecided, 1)
			ps.h.mu.Lock()
			ps.h.notes["undecided assertion "+id]++
			ps.h.mu.Unlock()
		}
		it.addPC(ps, x)
	}
}

// permute chooses the iteration order of a map. Insertion order is the norm; a
// path has at most mapMode iterations in another order, which is any permutation,
// or every iteration of the path runs backwards.
func (it *Interp) permute(mi *MapIter) {
	ps := it.path
	ps.permuted = true
	choose := func(n uint64) int {
		ps.nvar++
		v := it.tt.Var(fmt.Sprintf("ord%d", ps.nvar), bv(8))
		it.assume(it.simp(it.tt.Mk(OUlt, sBool, v, it.tt.BV(n, 8))))
		return int(it.concretize(v, kindT{'i', 8, false}))
	}
	if ps.mapBack == 0 {
		ps.mapBack = 1 + choose(2)
	}
	o := append([]*mapEnt(nil), mi.order...)
	mi.order = o
	if ps.mapBack == 2 {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
		return
	}
	if ps.mapDevs >= ps.mapMode {
		return
	}
	if ps.mapMode == 1 {
		// quick: rotations and the reverse order
		r := uint64(len(o))
		if r > 2 {
			r++
		}
		k := choose(r)
		if k > 0 {
			ps.mapDevs++
		}
		switch {
		case k == len(o):
			for i, j := 0, k-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
		default:
			mi.order = append(append([]*mapEnt(nil), o[k:]...), o[:k]...)
		}
		return
	}
	n := len(o)
	if n > 4 {
		n = 4 // of larger maps the first four entries (stated bound)
	}
	f := uint64(1)
	for i := 2; i <= n; i++ {
		f *= uint64(i)
	}
	k := choose(f)
	if k > 0 {
		ps.mapDevs++
	}
	for i := 0; i < n-1; i++ {
		f /= uint64(n - i)
		j := k / int(f)
		k %= int(f)
		x := o[i+j]
		copy(o[i+1:i+j+1], o[i:i+j])
		o[i] = x
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
