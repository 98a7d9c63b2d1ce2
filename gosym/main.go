package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type knownFinding struct {
	property, harness, match, text string
}

func (eng *Engine) knownID(v *Violation) string {
	for _, k := range eng.known {
		if (k.harness == "" || k.harness == v.Harness) && strings.Contains(v.Msg, k.match) {
			return k.text
		}
	}
	return ""
}

// loadKnown reads lines "finding: property=C01 harness=H_x match=<text> :: description".
func loadKnown(file, prop string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding:"), "::")
		k := knownFinding{text: strings.TrimSpace(text)}
		head, m, ok := strings.Cut(head, "match=")
		if !ok {
			continue
		}
		k.match = strings.TrimSpace(m)
		for _, f := range strings.Fields(head) {
			a, b, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.property = b
			case "harness":
				k.harness = b
			}
		}
		if k.property == prop {
			out = append(out, k)
		}
	}
	return out
}

func main() {
	debug.SetGCPercent(400)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("harness", "", "only harnesses whose name contains this")
	verbose := flag.Bool("v", false, "verbose")
	nw := flag.Int("j", runtime.NumCPU(), "workers")
	repo := flag.String("repo", "/repo", "repository")
	vdir := flag.String("verif", "/verif", "verification directory")
	noNative := flag.Bool("nonative", false, "skip native replay")
	strict := flag.Bool("strict", false, "exit 2 on anything incomplete or vacuous")
	dirsFlag := flag.String("dir", "", "harness directory (default: property id in lower case)")
	evid := flag.String("evidence", "", "evidence file")
	dump := flag.String("replay", "", "re-execute the counterexample in this file")
	maxv := flag.Int("maxv", 3, "stop a harness after this many violations")
	optDelays := flag.Int("delays", -1, "override delay bound")
	solver := flag.String("solver", "z3", "z3, z3-new or cvc5")
	wall := flag.Int("wall", 0, "overall wall-clock limit in seconds")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if _, err := os.Stat(goRoot + "/bin/go"); err == nil {
		os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	}
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	dir := *dirsFlag
	if dir == "" {
		dir = strings.ToLower(*prop)
	}
	limit := 780
	if *tier == "thorough" {
		limit = 3 * 3600
	}
	if *wall > 0 {
		limit = *wall
	}
	eng := &Engine{tier: *tier, seed: seed, solverKind: *solver, queryTimeout: 30000, maxSamples: 6, maxViolations: *maxv, repo: *repo, hdir: filepath.Join(*vdir, "harness"), verbose: *verbose,
		hardDeadline: t0.Add(time.Duration(limit) * time.Second)}
	eng.known = loadKnown(filepath.Join(*vdir, "known_findings.txt"), *prop)
	extra, err := eng.extraSources(dir)
	var ge *genError
	if errors.As(err, &ge) {
		eng.reportGen(*prop, *vdir, ge.msg, ge.out)
	}
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	pkgs, err := eng.load([]string{dir}, extra)
	if err != nil && extra != nil && dir == "c28" && strings.Contains(err.Error(), "zz_verif/"+dir) {
		eng.reportGen(*prop, *vdir, "the generated code does not compile or lacks a declaration its users rely on", err.Error())
	}
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	var hs []*Harness
	for _, p := range pkgs {
		h, err := eng.harnesses(p)
		if err != nil {
			fmt.Println("ERROR:", err)
			os.Exit(2)
		}
		hs = append(hs, h...)
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness functions")
		os.Exit(2)
	}
	loadT := time.Since(t0)
	if *dump != "" {
		eng.replayFile(*dump, hs)
		return
	}
	workers := make([]*Worker, *nw)
	for i := range workers {
		workers[i] = newWorker(eng, i)
	}
	var native *Native
	defer func() {
		if native != nil {
			native.close()
		}
	}()
	getNative := func() *Native {
		if native == nil && !*noNative {
			n, err := eng.buildNative(dir, hs, extra)
			if err != nil {
				fmt.Println("NOTE: native replay unavailable:", err)
				if n != nil {
					n.close()
				}
				*noNative = true
				return nil
			}
			native = n
		}
		return native
	}

	exit := 0
	problems := []string{}
	total := &Stats{}
	var hev []map[string]any
	var samples []any
	validated, mismatches := 0, 0
	nviol := 0
	for _, h := range hs {
		if *only != "" && !strings.Contains(h.name, *only) {
			continue
		}
		if t := h.opts["tier"]; t != "" && t != *tier {
			continue
		}
		if *optDelays >= 0 {
			h.delays = *optDelays
		}
		for _, w := range workers {
			w.stats = &Stats{}
		}
		th := time.Now()
		e := eng.Explore(h, workers)
		st := &Stats{}
		for _, w := range workers {
			st.add(w.stats)
		}
		total.add(st)
		var missing []string
		for _, l := range h.labels {
			if e.reached[l] == 0 {
				missing = append(missing, l)
			}
		}
		fmt.Printf("%s %s: paths=%d pruned=%d steps=%d decisions=%d asserts=%d (solver %d, folded %d) queries=%d sat=%d unsat=%d cached=%d solver=%.2fs vcs=%d (%d nodes, %.2fs) goroutines<=%d delays=%d wall=%.2fs\n", *prop, h.name, st.paths, st.pruned, st.steps, st.decisions, st.asserts, st.assertsSolved, st.assertsConst, st.queries, st.sat, st.unsat, st.cacheHits, st.solverTime.Seconds(), st.vcs, st.vcNodes, st.vcTime.Seconds(), st.maxThreads, h.delays, time.Since(th).Seconds())
		if len(missing) > 0 {
			problems = append(problems, fmt.Sprintf("%s: vacuity witnesses not reached: %v", h.name, missing))
		}
		if e.incomplete != "" {
			problems = append(problems, h.name+": incomplete: "+e.incomplete)
		}
		keys := make([]string, 0)
		for m := range e.engErrs {
			keys = append(keys, m)
		}
		sort.Strings(keys)
		for i, m := range keys {
			if i < 5 {
				problems = append(problems, fmt.Sprintf("%s: %d paths not analysed: %s", h.name, e.engErrs[m], m))
			}
		}
		if e.paths == 0 || st.paths == 0 {
			problems = append(problems, h.name+": no path completed")
		}
		ks := make([]string, 0)
		for k := range e.knownHits {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
		}
		// violations: replay before reporting
		for _, v := range e.violations {
			// re-execute with tracing in a fresh worker
			rw := newWorker(eng, 99)
			r, other := eng.replay(rw, h, v)
			if rw.solver != nil {
				rw.solver.Close()
			}
			if r == nil {
				problems = append(problems, fmt.Sprintf("%s: violation %q did not reproduce in the executor: %v", h.name, v.Msg, other))
				continue
			}
			v.Trace, v.Stack = r.Trace, r.Stack
			conf := "executor"
			if h.opts["native"] != "0" {
				if n := getNative(); n != nil {
					rep := 1
					to := 5 * time.Second
					if v.Threads > 1 {
						rep, to = 50, 2*time.Second
					}
					nr, err := n.run(h.name, v.Inputs, rep, to)
					switch {
					case err != nil:
						fmt.Println("NOTE: native run:", err)
					case !nr.OK && !nr.Assume:
						conf = "native: " + nr.Msg
					case v.Threads > 1 || v.Kind == "race":
						conf = "executor (schedule not reproduced natively)"
					default:
						problems = append(problems, fmt.Sprintf("%s: counterexample %q passes natively: not reported", h.name, v.Msg))
						fmt.Printf("UNCONFIRMED %s: %s inputs=%v\n", h.name, v.Msg, v.Inputs)
						if *verbose {
							fmt.Println("   " + strings.Join(v.Stack, "\n   "))
						}
						continue
					}
				}
			}
			os.MkdirAll(filepath.Join(*vdir, "evidence", "replay"), 0o755)
			f := filepath.Join(*vdir, "evidence", "replay", fmt.Sprintf("%s-%s-%d.json", *prop, h.name, nviol))
			b, _ := json.MarshalIndent(map[string]any{"property": *prop, "confirmed": conf, "violation": v}, "", " ")
			os.WriteFile(f, b, 0o644)
			nviol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
			fmt.Printf("  harness %s: %s (%s)\n  confirmed by: %s\n", h.name, v.Msg, v.Kind, conf)
			for i, s := range v.Stack {
				if i < 12 {
					fmt.Println("    " + s)
				}
			}
			exit = 1
		}
		// native validation of explored paths
		hv, hm := 0, 0
		if h.opts["native"] != "0" && !*noNative && exit == 0 {
			for _, s := range e.samples {
				if s == nil {
					continue
				}
				n := getNative()
				if n == nil {
					break
				}
				nr, err := n.run(s.Harness, s.Inputs, 1, 10*time.Second)
				if err != nil {
					problems = append(problems, "native validation: "+err.Error())
					break
				}
				bad := ""
				if !nr.OK {
					bad = nr.Msg
				} else if s.Threads == 1 {
					if strings.Join(nr.Obs, ";") != strings.Join(s.Obs, ";") {
						bad = fmt.Sprintf("observations differ: native %v, executor %v", nr.Obs, s.Obs)
					} else if strings.Join(nr.Reached, ";") != strings.Join(s.Reached, ";") {
						bad = fmt.Sprintf("labels differ: native %v, executor %v", nr.Reached, s.Reached)
					}
				}
				if bad != "" && nr.Assume {
					bad = "assumption fails natively"
				}
				if bad != "" {
					hm++
					problems = append(problems, fmt.Sprintf("%s: path disagrees with the native run: %s inputs=%v", h.name, bad, s.Inputs))
				} else {
					hv++
				}
			}
		}
		validated += hv
		mismatches += hm
		if len(e.samples) > 0 && e.samples[0] != nil {
			samples = append(samples, map[string]any{"harness": h.name, "inputs": e.samples[0].Inputs, "observed": e.samples[0].Obs, "reached": e.samples[0].Reached})
		}
		hev = append(hev, map[string]any{"harness": h.name, "paths": st.paths, "pruned": st.pruned, "steps": st.steps, "decisions": st.decisions, "asserts": st.asserts, "asserts_decided_by_solver": st.assertsSolved, "asserts_folded": st.assertsConst,
			"queries": st.queries, "sat": st.sat, "unsat": st.unsat, "unknown": st.unknown, "verification_conditions": st.vcs, "verification_condition_nodes": st.vcNodes, "verification_condition_cases": st.vcCases, "verification_condition_s": round(st.vcTime.Seconds()), "solver_s": round(st.solverTime.Seconds()), "max_goroutines": st.maxThreads, "delay_bound": h.delays, "select_choices_cost_a_delay": h.selCost, "step_bound": h.maxSteps, "race_detection": h.race,
			"vacuity_witnesses": e.reached, "wall_s": round(time.Since(th).Seconds()), "complete": e.incomplete == "" && len(e.engErrs) == 0, "native_validated": hv})
		if exit == 1 && !*verbose {
			break
		}
	}
	// functions encoded
	fset := map[string]int{}
	for _, w := range workers {
		for f := range w.executed {
			if strings.HasPrefix(fnPkg(f), modPath) && !strings.HasPrefix(fnPkg(f), zzPath) || strings.HasPrefix(fnPkg(f), "github.com/aperturerobotics/util") || strings.HasPrefix(fnPkg(f), "github.com/aperturerobotics/protobuf-go-lite") {
				n := 0
				for _, b := range f.Blocks {
					n += len(b.Instrs)
				}
				fset[fnName(f)] = n
			}
		}
	}
	var fns []string
	for f := range fset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, p := range problems {
		fmt.Println("INCOMPLETE:", p)
	}
	rss := readRSS()
	fmt.Printf("%s: %s load=%.1fs total=%.1fs rss=%dMB validated=%d violations=%d\n", *prop, *tier, loadT.Seconds(), time.Since(t0).Seconds(), rss, validated, nviol)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": round(time.Since(t0).Seconds()), "violations": nviol,
		"coverage": map[string]any{
			"states": total.decisions + total.paths, "transitions": total.steps, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":              len(problems) == 0 && exit == 0,
			"explanation":             "states: symbolic states at decision points plus path ends; transitions: SSA instructions executed symbolically. Branches on symbolic data are decided by solver queries; every assertion over symbolic data is a query. The tree of decisions (inputs, scenario choices, schedule choices) of each harness is then turned into verification conditions: under the path condition of a subtree, 'some value reaches a failed assertion or a case that was not executed' must be unsatisfiable; the union of the conditions covers the root, so the verdict for all values within the bounds is the solver's. asserts_folded_true counts assertions whose condition is constant on its path (they enter the verification conditions as the verdict of that leaf).",
			"verification_conditions": total.vcs, "verification_condition_nodes": total.vcNodes, "verification_condition_cases": total.vcCases, "verification_condition_time_s": round(total.vcTime.Seconds()),
			"paths": total.paths, "asserts": total.asserts, "asserts_decided_by_solver": total.assertsSolved, "asserts_folded_true": total.assertsConst, "solver_queries": total.queries, "solver_sat": total.sat, "solver_unsat": total.unsat, "solver_unknown": total.unknown,
			"solver_time_s": round(total.solverTime.Seconds()), "solver": *solver, "query_cache_hits": total.cacheHits, "scheduling_points": total.visible,
			"functions_encoded": fns, "functions_encoded_count": len(fns), "harnesses": hev, "incomplete": problems, "native_mismatches": mismatches,
		},
		"assumptions": eng.assumptions(dir),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	ef := *evid
	if ef == "" {
		ef = filepath.Join(*vdir, "evidence", *prop+".json")
	}
	if *prop != "" {
		os.MkdirAll(filepath.Dir(ef), 0o755)
		os.WriteFile(ef, b, 0o644)
	}
	if native != nil {
		native.close()
		native = nil
	}
	if exit == 0 && *strict && len(problems) > 0 {
		exit = 2
	}
	os.Exit(exit)
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func readRSS() int {
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmHWM:") {
			n, _ := strconv.Atoi(strings.Fields(l)[1])
			return n / 1024
		}
	}
	return 0
}

// assumptions: the package comment lines starting with "assume:" in the harness files.
func (eng *Engine) assumptions(dir string) []string {
	out := []string{
		"the go/ssa lowering and the executor's semantics of its instructions (validated by native replay of sampled paths) are faithful",
		"goroutine schedules are explored exhaustively up to the stated delay bound; data-race freedom is checked on the same paths",
		"library code with assembly or reflection (sync, atomic, time, fmt, errors.As, bytealg, logrus output) is replaced by the executor's models",
	}
	fs, _ := filepath.Glob(filepath.Join(eng.hdir, dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "// assume:") || strings.HasPrefix(l, "// bound:") {
				out = append(out, strings.TrimSpace(strings.TrimPrefix(l, "//")))
			}
		}
	}
	return out
}

func (eng *Engine) replayFile(file string, hs []*Harness) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f struct{ Violation *Violation }
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, h := range hs {
		if h.name == f.Violation.Harness {
			w := newWorker(eng, 0)
			v, other := eng.replay(w, h, f.Violation)
			if v == nil {
				fmt.Println("not reproduced:", other)
				os.Exit(0)
			}
			fmt.Println(v.Kind+":", v.Msg)
			fmt.Println(strings.Join(v.Trace, "\n"))
			fmt.Println(strings.Join(v.Stack, "\n"))
			os.Exit(1)
		}
	}
}

// reportGen reports that the generator's output is unusable, and exits.
func (eng *Engine) reportGen(prop, vdir, msg, out string) {
	f := filepath.Join(vdir, "evidence", "replay", prop+"-generator.txt")
	_ = os.MkdirAll(filepath.Dir(f), 0o755)
	_ = os.WriteFile(f, []byte(msg+"\n"+out), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n  %s\n", prop, f, msg, out)
	os.Exit(1)
}
