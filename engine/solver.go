package main

// SMT solver back end: one incremental z3 process per worker, with one-shot
// escalation to other solvers for undecided queries.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

type Stats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Escalated, Lemmas int64
	SolverNs                                                      int64
}

type Solver struct {
	tt       *TermTab
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	ndef     int
	stats    *Stats
	cache    map[string]cacheEnt
	dead     bool
	deadline time.Time
	softMs   int
	hardMs   int
	lemmas   []*Term
}

type cacheEnt struct {
	r Result
	m Model
}

func NewSolver(tt *TermTab, st *Stats) *Solver {
	return &Solver{tt: tt, bin: solverBin(), defined: map[int]bool{}, stats: st, cache: map[string]cacheEnt{}, softMs: 3000, hardMs: 20000}
}

var solverOnce sync.Once
var solverPath string

func solverBin() string {
	solverOnce.Do(func() {
		for _, n := range []string{"z3-new", "z3"} {
			if p, err := exec.LookPath(n); err == nil {
				solverPath = p
				return
			}
		}
		solverPath = "z3"
	})
	return solverPath
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "memory_max_size=3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.ndef = 0
	s.in.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// emit definitions needed for t and return its reference.
func (s *Solver) ref(t *Term, w io.StringWriter, defined map[int]bool, ufs map[string]bool) string {
	switch t.op {
	case OConst:
		return t.smtNode(nil)
	case OVar:
		if !defined[t.id] {
			defined[t.id] = true
			w.WriteString("(declare-const " + t.name + " " + t.sort.smt() + ")\n")
		}
		return t.name
	}
	name := "t" + strconv.Itoa(t.id)
	if defined[t.id] {
		return name
	}
	if t.op == OUF {
		if !defined[-hashName(t.name)] {
			defined[-hashName(t.name)] = true
			var sb strings.Builder
			sb.WriteString("(declare-fun " + t.name + " (")
			for _, a := range t.args {
				sb.WriteString(a.sort.smt() + " ")
			}
			sb.WriteString(") " + t.sort.smt() + ")\n")
			w.WriteString(sb.String())
		}
	}
	txt := t.smtNode(func(a *Term) string { return s.ref(a, w, defined, ufs) })
	defined[t.id] = true
	w.WriteString("(define-fun " + name + " () " + t.sort.smt() + " " + txt + ")\n")
	return name
}

func hashName(n string) int {
	h := 7
	for _, c := range n {
		h = (h*131 + int(c)) & 0xfffffff
	}
	return h + 1
}

// Check decides the conjunction. The model covers the variables occurring in it.
func (s *Solver) Check(conj []*Term, must bool) (Result, Model) {
	for round := 0; ; round++ {
		r, m := s.check1(conj, must)
		if r != Sat {
			return r, m
		}
		// validate under native UF semantics; add lemmas on mismatch
		ok := true
		ev := newEval(m)
		for _, c := range conj {
			if ev.eval(c) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return Sat, m
		}
		if round >= 12 {
			return Unknown, nil
		}
		added := false
		seen := map[int]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if seen[t.id] || !(t.ufs) {
				return
			}
			seen[t.id] = true
			for _, a := range t.args {
				visit(a)
			}
			if t.op == OUF {
				cond := s.tt.Bool(true)
				for _, a := range t.args {
					cond = s.tt.And(cond, s.tt.Eq(a, s.tt.raw(OConst, a.sort, 0, 0, ev.eval(a), "")))
				}
				lem := s.tt.Or(s.tt.Not(cond), s.tt.Eq(t, s.tt.raw(OConst, t.sort, 0, 0, ev.eval(t), "")))
				conj = append(conj[:len(conj):len(conj)], lem)
				atomic.AddInt64(&s.stats.Lemmas, 1)
				added = true
			}
		}
		for _, c := range conj[:len(conj):len(conj)] {
			visit(c)
		}
		if !added {
			if os.Getenv("SYM_DEBUG") != "" {
				for _, c := range conj {
					if newEval(m).eval(c) != 1 {
						fmt.Fprintln(os.Stderr, "model mismatch on", c.dump(6), m)
					}
				}
			}
			return Unknown, nil // solver/evaluator disagreement (e.g. NaN payload)
		}
	}
}

func (t *Term) dump(d int) string {
	if t.op == OConst || t.op == OVar {
		return t.smtNode(nil)
	}
	if d == 0 {
		return "…"
	}
	return t.smtNode(func(a *Term) string { return a.dump(d - 1) })
}

func (s *Solver) key(conj []*Term) string {
	ids := make([]int, len(conj))
	for i, c := range conj {
		ids[i] = c.id
	}
	// order-insensitive
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j-1] > ids[j]; j-- {
			ids[j-1], ids[j] = ids[j], ids[j-1]
		}
	}
	b := make([]byte, 0, len(ids)*4)
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

func (s *Solver) check1(conj []*Term, must bool) (Result, Model) {
	var live []*Term
	for _, c := range conj {
		if c.isFalse() {
			return Unsat, nil
		}
		if !c.isTrue() {
			live = append(live, c)
		}
	}
	if len(live) == 0 {
		return Sat, Model{}
	}
	k := s.key(live)
	if e, ok := s.cache[k]; ok && (e.r != Unknown || !must) {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return e.r, e.m
	}
	t0 := time.Now()
	atomic.AddInt64(&s.stats.Queries, 1)
	heavy := false
	for _, c := range live {
		if c.heavy {
			heavy = true
		}
	}
	var r Result
	var m Model
	soft := s.softMs
	if heavy && must {
		soft = 1500
	} else if !heavy {
		soft = 600
	}
	if rem := time.Until(s.deadline); !s.deadline.IsZero() && rem < time.Duration(soft)*time.Millisecond {
		soft = int(rem / time.Millisecond)
		if soft < 50 {
			soft = 50
		}
	}
	r, m = s.incremental(live, soft)
	if r == Unknown {
		hard := s.hardMs
		if !must {
			hard = hard / 2
		}
		if !must && !heavy {
			hard = hard / 2
		}
		if rem := time.Until(s.deadline); !s.deadline.IsZero() && rem < time.Duration(hard)*time.Millisecond {
			hard = int(rem / time.Millisecond)
		}
		if hard > 200 {
			atomic.AddInt64(&s.stats.Escalated, 1)
			r, m = s.oneShot(live, hard)
		}
	}
	atomic.AddInt64(&s.stats.SolverNs, int64(time.Since(t0)))
	if os.Getenv("SYM_SLOW") != "" && time.Since(t0) > time.Second {
		var sb strings.Builder
		for _, c := range live {
			sb.WriteString(c.dump(8) + "\n")
		}
		fmt.Fprintf(os.Stderr, "slow query %.1fs r=%d\n%s", time.Since(t0).Seconds(), r, sb.String())
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	s.cache[k] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) allVars(conj []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			out = append(out, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, c := range conj {
		visit(c)
	}
	return out
}

func (s *Solver) incremental(live []*Term, ms int) (Result, Model) {
	if s.cmd == nil || s.ndef > 60000 {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	var refs []string
	for _, c := range live {
		n0 := len(s.defined)
		refs = append(refs, s.ref(c, s.in, s.defined, nil))
		s.ndef += len(s.defined) - n0
	}
	vars := s.allVars(live)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(push 1)\n", ms)
	for _, r := range refs {
		s.in.WriteString("(assert " + r + ")\n")
	}
	s.in.WriteString("(check-sat)\n(echo \"@@\")\n")
	if s.in.Flush() != nil {
		s.stop()
		return Unknown, nil
	}
	lines, ok := s.readUntil("@@", time.Duration(ms)*time.Millisecond+5*time.Second)
	if !ok {
		s.stop()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("SYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
			s.stop()
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			s.in.WriteString(v.name + " ")
		}
		s.in.WriteString("))\n(echo \"@@\")\n")
		s.in.Flush()
		lines, ok := s.readUntil("@@", 20*time.Second)
		if !ok {
			s.stop()
			return Unknown, nil
		}
		m = parseModel(strings.Join(lines, " "))
		if m == nil {
			s.stop()
			return Unknown, nil
		}
	} else if res == Sat {
		m = Model{}
	}
	s.in.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readUntil(marker string, d time.Duration) ([]string, bool) {
	var lines []string
	timer := time.AfterFunc(d, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, false
		}
		l = strings.TrimSpace(l)
		if l == marker {
			return lines, true
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
}

func parseModel(txt string) Model {
	// ((name #x...) (name #b1) (name true) ...)
	m := Model{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	i := 0
	for i < len(toks) {
		if toks[i] == "(" && i+2 < len(toks) && toks[i+1] != "(" {
			name, v := toks[i+1], toks[i+2]
			switch {
			case v == "true":
				m[name] = 1
			case v == "false":
				m[name] = 0
			case strings.HasPrefix(v, "#x"):
				n, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return nil
				}
				m[name] = n
			case strings.HasPrefix(v, "#b"):
				n, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return nil
				}
				m[name] = n
			case v == "(" && i+5 < len(toks) && toks[i+3] == "_" && strings.HasPrefix(toks[i+4], "bv"):
				n, err := strconv.ParseUint(toks[i+4][2:], 10, 64)
				if err != nil {
					return nil
				}
				m[name] = n
				i += 4
			default:
				return nil
			}
			i += 3
			continue
		}
		i++
	}
	return m
}

var shotSeq int64

func (s *Solver) script(live []*Term, z3ext bool) string {
	var b bytes.Buffer
	defined := map[int]bool{}
	var refs []string
	for _, c := range live {
		refs = append(refs, s.ref(c, &b, defined, nil))
	}
	for _, r := range refs {
		b.WriteString("(assert " + r + ")\n")
	}
	b.WriteString("(check-sat)\n")
	vars := s.allVars(live)
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.name + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

var shotSem = make(chan struct{}, 8)

func (s *Solver) oneShot(live []*Term, ms int) (Result, Model) {
	body := s.script(live, true)
	usesIEEE := strings.Contains(body, "fp.to_ieee_bv")
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+time.Second)
	defer cancel()
	type res struct {
		r Result
		m Model
	}
	run := func(args []string, pre string) res {
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.Stdin = strings.NewReader(pre + body)
		out, _ := cmd.Output()
		txt := string(out)
		line, rest, _ := strings.Cut(txt, "\n")
		switch strings.TrimSpace(line) {
		case "unsat":
			return res{Unsat, nil}
		case "sat":
			if strings.Contains(rest, "(error") {
				return res{}
			}
			m := parseModel(rest)
			if m == nil {
				return res{}
			}
			return res{Sat, m}
		}
		return res{}
	}
	ch := make(chan res, 4)
	n := 0
	sec := ms/1000 + 1
	launch := func(args []string, pre string) {
		if _, err := exec.LookPath(args[0]); err != nil {
			return
		}
		n++
		go func() { ch <- run(args, pre) }()
	}
	launch([]string{s.bin, "-in", "-smt2", fmt.Sprintf("-T:%d", sec), "memory_max_size=3000"}, "")
	if !usesIEEE {
		if !strings.Contains(body, "fp.") && !strings.Contains(body, "to_fp") {
			// integer reasoning decides chains of additions that bit-blasting does not
			launch([]string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n")
		}
		launch([]string{"cvc5", "--lang=smt2", "--produce-models", "--fp-exp", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n")
	}
	for ; n > 0; n-- {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
