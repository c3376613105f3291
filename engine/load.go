package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by import path
	initOrd  []*ssa.Package          // all packages in dependency order
	harness  *ssa.Package
	repoDir  string
	harnDir  string
	rtErrT   types.Type
	errStrT  types.Type // *errors.errorString
	wrapErrT types.Type // *fmt.wrapError
	sizes    types.Sizes
}

const (
	pkgHarness = "verif/harness/h"
	pkgVF      = "verif/harness/vf"
	pkgOC      = "github.com/cloudprivacylabs/opencypher"
	pkgLPG     = "github.com/cloudprivacylabs/lpg/v2"
)

func loadProgram(harnDir, modf string) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        harnDir,
		Env:        os.Environ(),
		BuildFlags: []string{"-modfile=" + modf},
	}
	ps, err := packages.Load(cfg, pkgHarness)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, harnDir: harnDir, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	// dependency order
	seen := map[string]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp.Path()] {
			return
		}
		seen[tp.Path()] = true
		for _, i := range tp.Imports() {
			visit(i)
		}
		if sp := P.pkgs[tp.Path()]; sp != nil {
			P.initOrd = append(P.initOrd, sp)
		}
	}
	P.harness = P.pkgs[pkgHarness]
	if P.harness == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	visit(P.harness.Pkg)
	rt := P.pkgs["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	P.rtErrT = canon(rt.Type("errorString").Type())
	P.errStrT = ptrTo(P.pkgs["errors"].Type("errorString").Type())
	if f := P.pkgs["fmt"]; f != nil {
		P.wrapErrT = ptrTo(f.Type("wrapError").Type())
	}
	return P, nil
}

// packages whose globals are reset for every path
func mutablePkg(path string) bool {
	return strings.HasPrefix(path, "verif/") || path == pkgOC || path == pkgLPG || strings.HasPrefix(path, "github.com/emirpasic/gods")
}

// packages whose initialisers are run (once per worker)
func initOncePkg(path string) bool {
	switch path {
	case "errors", "unicode", "unicode/utf8", "strings", "strconv", "math", "math/bits", "sort", "slices", "bytes", "io", "time", "internal/bytealg", "internal/stringslite", "cmp", "iter", "maps", "container/list", "container/heap", "regexp", "regexp/syntax", "internal/oserror", "internal/godebugs", "math/rand", "text/tabwriter", "bufio", "internal/strconv":
		return true
	}
	return strings.HasPrefix(path, "github.com/nleeper") || strings.HasPrefix(path, "github.com/tkuchiki")
}
