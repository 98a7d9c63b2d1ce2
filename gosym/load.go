package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath = "github.com/aperturerobotics/starpc"
	zzPath  = modPath + "/zz_verif"
	goRoot  = "/opt/veriftools/go1.24.13"
)

// Engine is one invocation.
type Engine struct {
	prog          *ssa.Program
	vpkg          *ssa.Package
	rtErrT        *TInfo
	tier          string
	seed          int
	solverKind    string
	queryTimeout  int
	maxSamples    int
	maxViolations int
	hardDeadline  time.Time
	known         []knownFinding
	initHarness   *Harness
	repo          string
	hdir          string
	verbose       bool
}

var progMu sync.Mutex

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK", "GOOS", "GOARCH", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goRoot + "/bin/go"); err == nil {
		path = goRoot + "/bin:" + path
	}
	env = append(env, "PATH="+path, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// overlay maps harness sources (and generated ones) into the module.
func (eng *Engine) overlay(dirs []string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range dirs {
		fs, err := filepath.Glob(filepath.Join(eng.hdir, d, "*.go"))
		if err != nil {
			return nil, err
		}
		if len(fs) == 0 {
			return nil, fmt.Errorf("no harness files in %s", d)
		}
		for _, f := range fs {
			m[filepath.Join(eng.repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	return m, nil
}

func (eng *Engine) load(dirs []string, extra map[string][]byte) ([]*ssa.Package, error) {
	ov, err := eng.overlay(append([]string{"v", "hx"}, dirs...))
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	for k, b := range extra {
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: eng.repo, Env: goEnv(), Overlay: overlay}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./zz_verif/"+d)
	}
	pats = append(pats, "./zz_verif/v")
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	eng.prog = prog
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == vPath {
			eng.vpkg = p
		}
	}
	eng.rtErrT = tinfo(eng.vpkg.Type("RuntimeError").Type())
	eng.initHarness = &Harness{name: "init", maxSteps: 20000000, maxThreads: 10, maxAlloc: 1 << 22}
	var out []*ssa.Package
	for _, p := range sp {
		if p != nil && p.Pkg.Path() != vPath {
			out = append(out, p)
		}
	}
	// harness directives
	return out, nil
}

func (eng *Engine) isFresh(p *ssa.Package) bool {
	pp := p.Pkg.Path()
	return strings.HasPrefix(pp, modPath) && pp != vPath
}

// harnesses finds the H_ functions of a package with their bounds.
func (eng *Engine) harnesses(p *ssa.Package) ([]*Harness, error) {
	var hs []*Harness
	// initialisation order of the fresh packages
	var fresh []*ssa.Package
	seen := map[string]bool{}
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if sp == nil || seen[sp.Pkg.Path()] {
			return
		}
		seen[sp.Pkg.Path()] = true
		imps := sp.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, im := range imps {
			visit(eng.prog.ImportedPackage(im.Path()))
		}
		if eng.isFresh(sp) {
			fresh = append(fresh, sp)
		}
	}
	visit(p)
	for name, m := range p.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "H_") {
			continue
		}
		h := &Harness{name: name, fn: fn, pkg: p, delays: 1, race: true, maxSteps: 300000, maxThreads: 64, maxAlloc: 1 << 17, maxTicks: 3, budget: 240 * time.Second, opts: map[string]string{}, fresh: fresh}
		if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
			for _, c := range fd.Doc.List {
				l := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
				if !strings.HasPrefix(l, "sym:") {
					continue
				}
				for _, kv := range strings.Fields(l[4:]) {
					k, val, ok := strings.Cut(kv, "=")
					if !ok {
						return nil, fmt.Errorf("%s: bad directive %q", name, kv)
					}
					if kk, tier, ok := strings.Cut(k, "@"); ok {
						if tier != eng.tier {
							continue
						}
						k = kk
					}
					h.opts[k] = val
				}
			}
		}
		var err error
		num := func(k string, d *int) {
			if s, ok := h.opts[k]; ok {
				n, e := strconv.Atoi(s)
				if e != nil {
					err = e
				}
				*d = n
			}
		}
		num("delays", &h.delays)
		num("steps", &h.maxSteps)
		num("threads", &h.maxThreads)
		num("alloc", &h.maxAlloc)
		num("paths", &h.maxPaths)
		num("ticks", &h.maxTicks)
		b := int(h.budget / time.Second)
		if eng.tier == "thorough" {
			b = 3000
		}
		num("budget", &b)
		sc := 0
		num("selcost", &sc)
		h.selCost = sc != 0
		h.budget = time.Duration(b) * time.Second
		r := 1
		num("race", &r)
		h.race = r != 0
		if err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		h.labels = reachLabels(fn)
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs, nil
}

// reachLabels collects the vacuity witnesses reachable from fn inside its package.
func reachLabels(fn *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || fnPkg(f) != fnPkg(fn) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && fnName(cal) == vPath+".Reach" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							labels[strings.Trim(k.Value.ExactString(), "\"")] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var r []string
	for l := range labels {
		r = append(r, l)
	}
	sort.Strings(r)
	return r
}
