package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type TierSpec struct {
	Params map[string]int `json:"params"`
	Paths  int64          `json:"paths"`
	Secs   int            `json:"secs"`
	Steps  int64          `json:"steps"`
	Skip   bool           `json:"skip"`
}

type HarnessSpec struct {
	Pkg      string   `json:"pkg"`
	Func     string   `json:"func"`
	Doc      string   `json:"doc"`
	Bounds   string   `json:"bounds"`
	Reach    []string `json:"reach"`
	Quick    TierSpec `json:"quick"`
	Thorough TierSpec `json:"thorough"`
}

type PropSpec struct {
	Assumptions []string      `json:"assumptions"`
	Harnesses   []HarnessSpec `json:"harnesses"`
}

type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

var (
	verifDir = "/verif"
	repoSrc  = "/repo/src"
)

// harnessOverlay maps the harness sources into the module tree. Directories
// under /verif/harness become packages helena/zzverif/<dir>; the directory
// inpkg/<path> holds files added to package <path> itself.
func harnessOverlay() (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "inpkg/") {
			m[filepath.Join(repoSrc, strings.TrimPrefix(rel, "inpkg/"))] = p
		} else {
			m[filepath.Join(repoSrc, "zzverif", rel)] = p
		}
		return nil
	})
	return m, err
}

type HarnessReport struct {
	Harness       string           `json:"harness"`
	Doc           string           `json:"doc,omitempty"`
	Bounds        string           `json:"bounds"`
	Params        map[string]int   `json:"params,omitempty"`
	Paths         int64            `json:"paths"`
	Pruned        int64            `json:"paths_ended_by_assumption"`
	Branches      int64            `json:"symbolic_branches_decided"`
	Asserts       int64            `json:"assertions_on_completed_paths"`
	AssertsSym    int64            `json:"assertions_discharged_by_solver"`
	Queries       int64            `json:"solver_queries"`
	Cached        int64            `json:"solver_queries_answered_from_cache"`
	SatN          int64            `json:"queries_sat"`
	UnsatN        int64            `json:"queries_unsat"`
	Unknown       int64            `json:"queries_unknown"`
	SolverS       float64          `json:"solver_s"`
	SlowestS      float64          `json:"slowest_query_s"`
	Steps         int64            `json:"ssa_instructions"`
	Complete      bool             `json:"complete_within_bounds"`
	Truncated     string           `json:"truncated,omitempty"`
	BoundExceeded int64            `json:"paths_over_step_bound"`
	Unsupported   map[string]int   `json:"unsupported,omitempty"`
	Reach         map[string]int64 `json:"reached"`
	MissingReach  []string         `json:"missing_reach,omitempty"`
	Validated     int              `json:"traces_validated"`
	Mismatch      []string         `json:"trace_mismatches,omitempty"`
	Spurious      []string         `json:"candidates_not_reproduced,omitempty"`
	WallS         float64          `json:"wall_s"`
	samples       []any
}

type Violation struct {
	Harness string         `json:"harness"`
	Pkg     string         `json:"pkg"`
	Label   string         `json:"label"`
	Msg     string         `json:"msg"`
	Inputs  []InputVal     `json:"inputs"`
	Pretty  []string       `json:"pretty"`
	Params  map[string]int `json:"params"`
	Native  string         `json:"native"`
}

func pretty(in []InputVal) []string {
	var out []string
	for i := 0; i < len(in); i++ {
		v := in[i]
		if v.Kind == "byte" && strings.HasSuffix(v.Name, "[0]") {
			base := strings.TrimSuffix(v.Name, "[0]")
			var b []byte
			j := i
			for j < len(in) && in[j].Name == fmt.Sprintf("%s[%d]", base, j-i) {
				b = append(b, byte(in[j].Val))
				j++
			}
			out = append(out, fmt.Sprintf("%s=%q", base, string(b)))
			i = j - 1
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", v.Name, int64(v.Val)))
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(4 << 30)
	debug.SetMemoryLimit(20 << 30)
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		specs := loadSpecs()
		for _, k := range sortedKeys(specs) {
			fmt.Println(k)
		}
	default:
		os.Exit(2)
	}
}

func loadSpecs() map[string]*PropSpec {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	specs := map[string]*PropSpec{}
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		os.Exit(2)
	}
	return specs
}

func loadKnown() []KnownFinding {
	var k struct {
		Known []KnownFinding `json:"known"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err == nil {
		json.Unmarshal(b, &k)
	}
	return k.Known
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick|thorough")
	only := fs.String("only", "", "only this harness")
	workers := fs.Int("workers", 0, "workers")
	solver := fs.String("solver", "", "solver path")
	verbose := fs.Bool("v", false, "verbose")
	pset := fs.String("params", "", "k=v,... overrides")
	secs := fs.Int("secs", 0, "override time budget")
	hname := fs.String("h", "", "run harness pkg.Func on its own")
	noEv := fs.Bool("noevidence", false, "do not write evidence")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
	}
	if *solver == "" {
		*solver = os.Getenv("GOSYM_SOLVER")
	}
	if *solver == "" {
		*solver = "z3-new"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	t0 := time.Now()
	var spec *PropSpec
	if i := strings.IndexByte(*hname, '.'); i > 0 {
		spec = &PropSpec{Harnesses: []HarnessSpec{{Pkg: (*hname)[:i], Func: (*hname)[i+1:]}}}
		*noEv = true
		if *prop == "" {
			*prop = "ADHOC"
		}
	} else {
		spec = loadSpecs()[*prop]
	}
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	ovl, err := harnessOverlay()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	overlay := map[string][]byte{}
	for k, v := range ovl {
		b, err := os.ReadFile(v)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		overlay[k] = b
	}
	pkgs := map[string]bool{}
	for _, h := range spec.Harnesses {
		if *only == "" || *only == h.Func {
			pkgs[pkgPath(h.Pkg)] = true
		}
	}
	pats := append(sortedKeys(pkgs), "runtime")
	p, err := loadProg(overlay, repoSrc, pats, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	known := loadKnown()
	cache := &QueryCache{}
	var reports []*HarnessReport
	var viol *Violation
	knownHit := map[string]string{}
	for i := range spec.Harnesses {
		h := &spec.Harnesses[i]
		if *only != "" && *only != h.Func {
			continue
		}
		ts := h.Quick
		if *tier == "thorough" {
			ts = h.Thorough
			if ts.Params == nil && ts.Secs == 0 && !ts.Skip {
				ts = h.Quick
			}
		}
		if ts.Skip {
			continue
		}
		if *pset != "" {
			np := map[string]int{}
			for k, v := range ts.Params {
				np[k] = v
			}
			for _, kv := range strings.Split(*pset, ",") {
				a := strings.SplitN(kv, "=", 2)
				n, _ := strconv.Atoi(a[1])
				np[a[0]] = n
			}
			ts.Params = np
		}
		if *secs > 0 {
			ts.Secs = *secs
		}
		// keep the whole check within the time a check is given
		if *tier != "thorough" {
			if left := int(600 - time.Since(t0).Seconds()); ts.Secs == 0 && left < 120 || ts.Secs > left {
				ts.Secs = max(left, 1)
			}
		}
		rep, v, err := runHarness(p, h, ts, *workers, *solver, seed, ovl, cache, known, *prop, knownHit, *verbose)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness", h.Func+":", err)
			return 2
		}
		reports = append(reports, rep)
		if *verbose || os.Getenv("GOSYM_V") != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(b))
		}
		if v != nil {
			viol = v
			break
		}
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, knownHit[k])
	}
	replayPath := ""
	if viol != nil {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		replayPath = filepath.Join(dir, *prop+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replayPath, b, 0o644)
	}
	if !*noEv {
		writeEvidence(*prop, *tier, seed, spec, p, reports, viol, replayPath, time.Since(t0).Seconds(), loadS, *solver, knownHit)
	}
	for _, r := range reports {
		st := "complete"
		if !r.Complete {
			st = "INCOMPLETE (" + r.Truncated + ")"
		}
		fmt.Printf("%s/%s: %s, %d paths, %d branches, %d queries (%.1fs solver), %d traces validated, %.1fs\n", *prop, r.Harness, st, r.Paths, r.Branches, r.Queries, r.SolverS, r.Validated, r.WallS)
		for _, k := range sortedKeys(r.Unsupported) {
			fmt.Printf("  unsupported: %s (%d)\n", k, r.Unsupported[k])
		}
		for _, s := range r.Mismatch {
			fmt.Println("  trace mismatch:", s)
		}
		for _, s := range r.Spurious {
			fmt.Println("  not reproduced:", s)
		}
		for _, s := range r.MissingReach {
			fmt.Println("  not reached:", s)
		}
	}
	if viol != nil {
		fmt.Printf("  %s: %s\n  inputs: %s\n  native: %s\n", viol.Harness, viol.Msg, strings.Join(viol.Pretty, " "), viol.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		return 1
	}
	return 0
}

func pkgPath(s string) string {
	if strings.HasPrefix(s, "helena/") {
		return s
	}
	return "helena/zzverif/" + s
}

func matchKnown(known []KnownFinding, prop, harness, label string) *KnownFinding {
	for i := range known {
		k := &known[i]
		if k.Property == prop && k.Harness == harness && k.Label == label {
			return k
		}
	}
	return nil
}

func runHarness(p *Prog, h *HarnessSpec, ts TierSpec, workers int, solver string, seed int64, ovl map[string]string,
	cache *QueryCache, known []KnownFinding, prop string, knownHit map[string]string, verbose bool) (*HarnessReport, *Violation, error) {
	t0 := time.Now()
	sp := p.pkgs[pkgPath(h.Pkg)]
	if sp == nil {
		return nil, nil, fmt.Errorf("no package %s", h.Pkg)
	}
	f := sp.Func(h.Func)
	if f == nil {
		return nil, nil, fmt.Errorf("no function %s", h.Func)
	}
	r := &Replayer{repoSrc: repoSrc, ovl: ovl, pkg: pkgPath(h.Pkg), fn: h.Func, params: ts.Params}
	defer r.close()
	// the native replay binary is built while the exploration runs
	go r.build()
	secs := ts.Secs
	if secs == 0 {
		secs = 120
	}
	steps := ts.Steps
	if steps == 0 {
		steps = 20_000_000
	}
	ex := &Explorer{p: p, entry: f, cache: cache, solverPath: solver, timeoutMs: 20000, maxSteps: steps, maxPaths: ts.Paths,
		deadline: t0.Add(time.Duration(secs) * time.Second), params: ts.Params, seed: seed, maxTraces: 24}
	var viol *Violation
	var spurious []string
	ex.onCand = func(c *Candidate) bool {
		v, why := confirm(r, c)
		if v != nil {
			v.Harness, v.Pkg, v.Params = h.Func, pkgPath(h.Pkg), ts.Params
			if k := matchKnown(known, prop, h.Func, v.Label); k != nil {
				knownHit[k.Harness+"/"+k.Label] = k.What
				return false
			}
			viol = v
			return true
		}
		spurious = append(spurious, c.Label+" ["+c.Msg+"] inputs: "+strings.Join(pretty(c.Inputs), " ")+": "+why)
		return false
	}
	ex.run(workers)
	rep := &HarnessReport{Harness: h.Func, Doc: h.Doc, Bounds: h.Bounds, Params: ts.Params, Paths: ex.paths, Pruned: ex.assumed, Branches: ex.branches,
		Asserts: ex.asserts, AssertsSym: ex.assertsSym, Queries: ex.stats.queries, Cached: ex.stats.cacheHits, SatN: ex.stats.sat, UnsatN: ex.stats.unsat,
		Unknown: ex.stats.unknown, SolverS: float64(ex.stats.nanos) / 1e9, SlowestS: float64(ex.stats.slowest) / 1e9, Steps: ex.steps,
		Truncated: ex.truncated, BoundExceeded: ex.bound, Unsupported: ex.unsup, Reach: ex.reach, Spurious: spurious}
	rep.Complete = ex.truncated == "" && ex.bound == 0 && ex.unknown == 0 && len(ex.unsup) == 0
	if !rep.Complete && rep.Truncated == "" {
		switch {
		case ex.bound > 0:
			rep.Truncated = "some paths exceeded the step bound"
		case ex.unknown > 0:
			rep.Truncated = "some solver queries were undecided"
		default:
			rep.Truncated = "unsupported operations"
		}
	}
	for _, want := range h.Reach {
		if ex.reach[want] == 0 {
			rep.MissingReach = append(rep.MissingReach, want)
		}
	}
	if viol == nil {
		// validate sampled paths against the real build
		var cases [][]InputVal
		for _, t := range ex.traces {
			cases = append(cases, t.Inputs)
		}
		if len(cases) > 0 {
			res, abn, err := r.runCases(cases, 60*time.Second)
			if err != nil {
				return nil, nil, err
			}
			for i, t := range ex.traces {
				if i >= len(res) {
					rep.Mismatch = append(rep.Mismatch, "native run ended: "+abn+" inputs: "+strings.Join(pretty(t.Inputs), " "))
					break
				}
				nr := res[i]
				if (nr.Status == "assert" || nr.Status == "panic") && matchKnown(known, prop, h.Func, nr.Label) == nil {
					viol = &Violation{Harness: h.Func, Pkg: pkgPath(h.Pkg), Label: nr.Label, Msg: nr.Status + ": " + nr.Label + " (found while validating a path natively)", Inputs: t.Inputs, Pretty: pretty(t.Inputs), Params: ts.Params, Native: nr.Status + ": " + nr.Label}
					break
				}
				if nr.Status != "ok" || strings.Join(nr.Obs, "\n") != strings.Join(t.Obs, "\n") {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("status %s %s native %v symbolic %v inputs: %s", nr.Status, nr.Label, nr.Obs, t.Obs, strings.Join(pretty(t.Inputs), " ")))
					continue
				}
				rep.Validated++
			}
		}
	}
	for i, t := range ex.traces {
		if i >= 3 {
			break
		}
		rep.samples = append(rep.samples, map[string]any{"harness": h.Func, "inputs": pretty(t.Inputs), "observed": t.Obs})
	}
	if len(rep.Mismatch) > 0 {
		rep.Complete = false
		if rep.Truncated == "" {
			rep.Truncated = "some sampled paths did not match the native run"
		}
	}
	rep.WallS = time.Since(t0).Seconds()
	return rep, viol, nil
}

// confirm replays a candidate on the real code.
func confirm(r *Replayer, c *Candidate) (*Violation, string) {
	tries := 1
	timeout := 10 * time.Second
	why := ""
	for i := 0; i < tries; i++ {
		res, abn, err := r.runCases([][]InputVal{c.Inputs}, timeout)
		if err != nil {
			return nil, "replay failed: " + err.Error()
		}
		v := &Violation{Label: c.Label, Msg: c.Msg, Inputs: c.Inputs, Pretty: pretty(c.Inputs)}
		if abn != "" {
			v.Native = abn
			return v, ""
		}
		if len(res) == 1 {
			switch res[0].Status {
			case "assert", "panic":
				v.Native = res[0].Status + ": " + res[0].Label
				if res[0].Status == "assert" {
					v.Label = res[0].Label
				}
				return v, ""
			}
			why = "native run: " + res[0].Status + " " + res[0].Label
		}
		if c.Kind == "bound" {
			return nil, why
		}
		if tries == 1 {
			tries = 3
		}
	}
	return nil, why
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	json.Unmarshal(b, &v)
	ovl, _ := harnessOverlay()
	r := &Replayer{repoSrc: repoSrc, ovl: ovl, pkg: v.Pkg, fn: v.Harness, params: v.Params}
	defer r.close()
	res, abn, err := r.runCases([][]InputVal{v.Inputs}, 30*time.Second)
	fmt.Println("inputs:", strings.Join(v.Pretty, " "))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%+v %s\n", res, abn)
	if abn != "" || len(res) == 1 && (res[0].Status == "assert" || res[0].Status == "panic") {
		return 1
	}
	return 0
}

func writeEvidence(prop, tier string, seed int64, spec *PropSpec, p *Prog, reps []*HarnessReport, viol *Violation, replayPath string, wall, load float64, solver string, known map[string]string) {
	var paths, branches, validated, queries, cached, discharged, asserts, unknown int64
	var solverS float64
	complete := true
	var samples []any
	for _, r := range reps {
		paths += r.Paths + r.Pruned
		branches += r.Branches
		validated += int64(r.Validated)
		queries += r.Queries
		cached += r.Cached
		discharged += r.AssertsSym
		asserts += r.Asserts
		unknown += r.Unknown
		solverS += r.SolverS
		complete = complete && r.Complete
		samples = append(samples, r.samples...)
	}
	if samples == nil {
		samples = []any{}
	}
	fns := p.executed()
	cov := map[string]any{
		"states": paths, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":                         "symbolic paths explored, each standing for every input that satisfies its path condition",
		"transitions_meaning":                    "symbolic branch points whose two sides were decided by the solver",
		"solver":                                 solver,
		"solver_queries":                         queries,
		"solver_queries_cached":                  cached,
		"solver_queries_unknown":                 unknown,
		"solver_s":                               solverS,
		"assertions_discharged_by_solver":        discharged,
		"assertions_evaluated_on_feasible_paths": asserts,
		"complete_within_bounds":                 complete,
		"harnesses":                              reps,
		"functions_encoded":                      fns,
		"load_s":                                 load,
	}
	assumptions := append([]string{
		"bounds of each harness are listed under coverage.harnesses[].bounds/params; inputs outside them are not covered",
		"symbolic semantics of the Go SSA form (golang.org/x/tools/go/ssa) as implemented in /verif/engine; sampled paths are validated against the native build on every run",
	}, spec.Assumptions...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "assumptions": assumptions}
	if viol != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]any{"harness": viol.Harness, "what": viol.Msg, "inputs": viol.Pretty, "replay": replayPath, "native": viol.Native}
	} else {
		ev["violations"] = 0
	}
	if len(known) > 0 {
		var ks []string
		for _, k := range known {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings"] = ks
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

var _ = ssa.NaiveForm
