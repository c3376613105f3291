package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		ID       string `json:"id"` // harness:assertion-id
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func main() {
	prop := flag.String("p", "", "property id")
	only := flag.String("h", "", "regexp of harness names")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	secs := flag.Int("t", 0, "time budget in seconds")
	workers := flag.Int("j", 8, "workers")
	quiet := flag.Bool("q", false, "no summary per harness")
	noev := flag.Bool("n", false, "do not write evidence")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(10 << 30)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	budget := 60
	if tier == "thorough" {
		budget = 600
	}
	if *secs > 0 {
		budget = *secs
	}
	work, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fatal("tempdir: %v", err)
	}
	defer os.RemoveAll(work)
	harn := filepath.Join(*verif, "harness")
	if err := prepareMod(*repo, harn, work); err != nil {
		cleanup(work)
		fatal("module: %v", err)
	}
	modf := filepath.Join(work, "go.mod")
	// native binary
	bin := filepath.Join(work, "native")
	buildErr := make(chan error, 1)
	go func() {
		cmd := exec.Command("go", "build", "-modfile="+modf, "-o", bin, "./cmd")
		cmd.Dir = harn
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		buildErr <- err
	}()
	P, err := loadProgram(harn, modf)
	if err != nil {
		cleanup(work)
		fatal("load: %v", err)
	}
	if err := <-buildErr; err != nil {
		cleanup(work)
		fatal("build: %v", err)
	}
	eng := &Engine{P: P, maxSteps: 4_000_000, maxDecs: 4000, nworkers: *workers, native: &Native{bin: bin}, thorough: tier == "thorough"}
	loadS := time.Since(t0).Seconds()
	eng.deadline = time.Now().Add(time.Duration(budget) * time.Second)
	var names []string
	re := regexp.MustCompile(*only)
	for n, m := range P.harness.Members {
		if f, ok := m.(*ssa.Function); ok && regexp.MustCompile(`^P\d\d_`).MatchString(n) && f.Signature.Params().Len() == 0 {
			if (*prop == "" || strings.HasPrefix(n, *prop+"_")) && re.MatchString(n) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		cleanup(work)
		fatal("no harness for %s", *prop)
	}
	for _, n := range names {
		eng.harn = append(eng.harn, &Harness{name: n, fn: P.harness.Func(n), paths: map[string]int{}, notes: map[string]int{}, cands: map[string]int{}, confirmed: map[string]*Violation{}, unconf: map[string]int{}, markers: map[string]bool{}})
	}
	if f := os.Getenv("SYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	eng.run()
	pprof.StopCPUProfile()
	if f := os.Getenv("SYM_HEAP"); f != "" {
		w, _ := os.Create(f)
		pprof.WriteHeapProfile(w)
		w.Close()
	}
	code := eng.report(*prop, tier, *verif, t0, loadS, *quiet, *noev)
	eng.native.close()
	cleanup(work)
	os.Exit(code)
}

func cleanup(w string) { os.RemoveAll(w) }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(3)
}

// prepareMod writes a module file for the harness that follows the
// requirements of the repository under test.
func prepareMod(repo, harn, work string) error {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	var sb strings.Builder
	sb.WriteString("module verif/harness\n")
	in := false
	gov := "go 1.19"
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "go "):
			gov = t
		case strings.HasPrefix(t, "require (") || strings.HasPrefix(t, "replace ("):
			in = true
			sb.WriteString(l + "\n")
		case in:
			sb.WriteString(l + "\n")
			if t == ")" {
				in = false
			}
		case strings.HasPrefix(t, "require ") || strings.HasPrefix(t, "replace "):
			sb.WriteString(l + "\n")
		}
	}
	sb.WriteString(gov + "\nrequire github.com/cloudprivacylabs/opencypher v0.0.0\nreplace github.com/cloudprivacylabs/opencypher => " + repo + "\n")
	if err := os.WriteFile(filepath.Join(work, "go.mod"), []byte(sb.String()), 0o644); err != nil {
		return err
	}
	s, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	return os.WriteFile(filepath.Join(work, "go.sum"), s, 0o644)
}

func (e *Engine) validate() (ok, bad int, first []string) {
	var reqs []map[string]any
	var smp []*Sample
	var hs []*Harness
	for _, h := range e.harn {
		for _, s := range h.samples {
			if s.Perm {
				continue
			}
			reqs = append(reqs, map[string]any{"h": h.name, "trace": s.Trace, "tries": 1})
			smp = append(smp, s)
			hs = append(hs, h)
		}
	}
	if len(reqs) == 0 {
		return
	}
	rs := e.native.batch(reqs, 10*time.Second)
	for i, r := range rs {
		h := hs[i]
		same := r.Status == "ok" && len(r.Obs) == len(smp[i].Obs)
		if same {
			for j := range r.Obs {
				if r.Obs[j] != smp[i].Obs[j] {
					same = false
				}
			}
		}
		if same {
			ok++
			continue
		}
		bad++
		if len(first) < 5 {
			first = append(first, fmt.Sprintf("%s: native %s %s %s obs %v / engine obs %v trace %v", h.name, r.Status, r.ID, r.Msg, r.Obs, smp[i].Obs, smp[i].Trace))
		}
		if r.Status == "assert" || r.Status == "panic" || r.Status == "crash" {
			id := r.ID
			if r.Status != "assert" {
				id = "panic"
			}
			if h.confirmed[id] == nil {
				h.confirmed[id] = &Violation{Harness: h.name, ID: id, Msg: "native run of a completed path", Trace: smp[i].Trace, Native: r.Status + " " + r.ID + " " + r.Msg}
			}
		}
	}
	return
}

func (e *Engine) report(prop, tier, verif string, t0 time.Time, loadS float64, quiet, noev bool) int {
	vok, vbad, vfirst := e.validate()
	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &known)
	}
	var states, trans, asserts, aq, triv, onPath, byNorm, undec int64
	var samples []any
	var perH []any
	viol, knownN, inconc := 0, 0, 0
	code := 0
	exhaustive := e.cutoff == 0
	for _, h := range e.harn {
		np := 0
		for _, n := range h.paths {
			np += n
		}
		states += int64(np)
		trans += h.decisions
		asserts += h.asserts
		aq += h.queriesA
		triv += h.trivial
		onPath += h.onPath
		byNorm += h.byNorm
		undec += h.undecided
		info := map[string]any{"harness": h.name, "paths": h.paths, "branch_decisions": h.decisions, "steps": h.steps, "assertions_evaluated": h.asserts, "assertions_queried": h.queriesA, "undecided_queries": h.undecided, "max_decisions_on_a_path": h.maxDec, "unexplored_prefixes": len(h.stack), "cpu_s": round(float64(h.spentNs) / 1e9), "markers": sortedKeys(h.markers), "completed_paths_with_unmodelled_text": h.opaqueP}
		if len(h.notes) > 0 {
			info["notes"] = h.notes
		}
		perH = append(perH, info)
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": s.Trace, "observed": s.Obs})
			}
		}
		if h.undecided > 0 || len(h.stack) > 0 || h.paths["unsupported"] > 0 || h.paths["undecided"] > 0 || h.paths["budget"] > 0 {
			exhaustive = false
			inconc++
		}
		if h.paths["done"] == 0 && len(h.confirmed) == 0 {
			fmt.Fprintf(os.Stderr, "warning: %s: no path ran to completion (%v)\n", h.name, h.paths)
		} else if h.asserts == 0 && len(h.confirmed) == 0 {
			fmt.Fprintf(os.Stderr, "warning: %s: no assertion was reached\n", h.name)
		}
		if !quiet {
			fmt.Printf("%-34s paths %v decisions %d asserts %d (solver %d) undecided %d left %d cpu %.1fs\n", h.name, h.paths, h.decisions, h.asserts, h.queriesA, h.undecided, len(h.stack), float64(h.spentNs)/1e9)
			for _, n := range sortedKeys(h.notes) {
				fmt.Printf("    %s x%d\n", n, h.notes[n])
			}
		}
		for _, id := range sortedKeys(h.confirmed) {
			v := h.confirmed[id]
			key := h.name + ":" + id
			isKnown := ""
			for _, k := range known.Findings {
				if k.ID == key {
					isKnown = k.What
				}
			}
			p := h.name[:3]
			if isKnown != "" {
				knownN++
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p, key, isKnown)
				continue
			}
			viol++
			code = 1
			dir := filepath.Join(verif, "out", "replay")
			os.MkdirAll(dir, 0o755)
			f := filepath.Join(dir, h.name+"-"+strings.Map(fileRune, id)+".json")
			b, _ := json.MarshalIndent(map[string]any{"property": p, "harness": h.name, "assertion": id, "message": v.Msg, "native": v.Native, "h": h.name, "trace": v.Trace, "tries": 300}, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p, f)
			fmt.Printf("  %s assertion %q: %s; native replay: %s; inputs %s\n", h.name, id, v.Msg, firstLine(v.Native), traceText(v.Trace))
		}
	}
	var fns []string
	for f := range e.used {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": vok, "samples": samples,
		"exhaustive":                  exhaustive,
		"meaning":                     "states = symbolic execution paths explored (each covers every input satisfying its path condition); transitions = symbolic branch decisions; traces_validated = solver models of completed paths run natively with equal observations",
		"trace_validation_mismatches": vbad,
		"functions_encoded":           fns,
		"queries_discharged":          e.stats.Queries,
		"query_cache_hits":            e.stats.CacheHits,
		"queries_sat":                 e.stats.SatN,
		"queries_unsat":               e.stats.UnsatN,
		"queries_unknown":             e.stats.UnknownN,
		"queries_escalated":           e.stats.Escalated,
		"uf_lemmas":                   e.stats.Lemmas,
		"solver_s":                    round(float64(e.stats.SolverNs) / 1e9),
		"assertions_evaluated":        asserts,
		"assertions_queried":          aq,
		"assertions_settled_by_branch_queries_of_their_path": onPath,
		"assertions_settled_by_term_normalisation":           byNorm,
		"assertions_without_symbolic_input":                  triv,
		"undecided_queries":                                  undec,
		"unexplored_prefixes":                                e.cutoff,
		"native_replays":                                     e.native.replays,
		"bounds":                                             map[string]any{"max_steps_per_path": e.maxSteps, "max_decisions_per_path": e.maxDecs, "time_budget_s": round(time.Until(e.deadline).Seconds() + wall), "harness_bounds": "per harness, see DESIGN.md and the harness source"},
		"harnesses":                                          perH,
		"load_and_build_s":                                   round(loadS),
		"solver":                                             solverBin(),
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall), "violations": viol,
		"assumptions": []string{"the SSA produced by golang.org/x/tools and the engine's evaluation of it agree with the Go compiler (checked on the replayed traces)", "ANTLR-generated lexer/parser is run natively and trusted", "math.Pow/Mod and transcendental functions are uninterpreted with native values for models", "map iteration follows insertion order unless the harness asks for all orders"}}
	if !noev && prop != "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
		}
	}
	if vbad > 0 {
		fmt.Fprintf(os.Stderr, "note: %d of %d replayed traces differ from the engine's prediction\n", vbad, vok+vbad)
		for _, s := range vfirst {
			fmt.Fprintln(os.Stderr, "   ", s)
		}
	}
	fmt.Printf("%s: %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), %d traces validated, %d undecided, %d unexplored, %d violations, %d known, %.1fs\n", prop, states, trans, asserts, e.stats.Queries, float64(e.stats.SolverNs)/1e9, vok, undec, e.cutoff, viol, knownN, wall)
	return code
}

func fileRune(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
		return r
	}
	return '_'
}

func firstLine(s string) string { a, _, _ := strings.Cut(s, "\n"); return a }

func traceText(t []Ev) string {
	var sb strings.Builder
	for i, e := range t {
		if i > 0 {
			sb.WriteString(" ")
		}
		v := e.V
		if e.K == "s" {
			v = fmt.Sprintf("%q", unhex(v))
		}
		sb.WriteString(e.N + "=" + v)
	}
	return sb.String()
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
