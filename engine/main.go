package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// KnownFinding is one line of known-findings.txt.
type KnownFinding struct {
	prop, harness, label, what string
}

func newInterp(e *Engine) *Interp {
	in := &Interp{c: NewCtx(), eng: e, prog: e.prog, fns: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Value{},
		inited: map[*ssa.Package]int{}, covered: map[*ssa.Function]map[int]bool{}}
	s, err := NewSolver(in.c, solverCmd, solverTimeout)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	in.solver = s
	return in
}

var solverCmd = []string{"z3-new", "-in", "-smt2"}
var solverTimeout = 20000

func readKnown(path, prop string) []KnownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := KnownFinding{}
		rest := strings.TrimSpace(l[len("known:"):])
		for {
			w, r2, _ := strings.Cut(rest, " ")
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "harness="):
				k.harness = w[8:]
			case strings.HasPrefix(w, "label="):
				k.label = strings.ReplaceAll(w[6:], "_", " ")
			default:
				k.what = rest
				r2 = ""
			}
			rest = strings.TrimSpace(r2)
			if rest == "" {
				break
			}
		}
		if k.prop == prop {
			r = append(r, k)
		}
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "verification root")
	repo := flag.String("repo", "/repo", "repository")
	only := flag.String("only", "", "only harnesses with this substring")
	nw := flag.Int("workers", 8, "workers")
	tmo := flag.Int("timeout", 0, "seconds")
	dbg := flag.Bool("debug", false, "panic on engine errors")
	stop := flag.Int("stop", 1, "stop after this many confirmed violations")
	verbose := flag.Bool("v", false, "verbose")
	solver := flag.String("solver", "", "solver command")
	cross := flag.Bool("cross", false, "decide every query with the second solver too and compare")
	dump := flag.Bool("dumpviol", false, "print every unconfirmed counterexample")
	flag.Parse()
	crossCheck = *cross
	if *solver != "" {
		solverCmd = strings.Fields(*solver)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(18 << 30)
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if t := os.Getenv("VERIF_TIER"); t != "" && !isFlagSet("tier") {
		*tier = t
	}
	if *tmo == 0 {
		*tmo = 170
		if *tier == "thorough" {
			*tmo = 700
		}
	}
	hdir := filepath.Join(*root, "harness")
	env := append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir, Env: env}
	pkgs, err := packages.Load(cfg, "vlverif/harness/props")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	tLoad := time.Since(t0)

	e := &Engine{prog: prog, maxSteps: 6000000, permMax: 4, tier: *tier, seed: seed, notes: map[string]int{}, bounds: map[string]string{},
		violKeys: map[string]int{}, sampleCnt: map[string]int{}, stopAt: *stop, reached: map[string]int64{}, nworkers: *nw, knownHit: map[string]int{}, prop: *prop, debug: *dbg, dump: *dump}
	e.deadline = t0.Add(time.Duration(*tmo) * time.Second)
	if *tier == "thorough" {
		e.permMax = 5
	}
	e.rtErrType = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.NewStruct(nil, nil), nil)
	e.known = readKnown(filepath.Join(*root, "known-findings.txt"), *prop)

	var hs []*Harness
	var names []string
	hp := spkgs[0]
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, *prop+"_") && strings.Contains(n, *only) {
			hs = append(hs, &Harness{name: n, fn: f})
			_ = f
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	for _, h := range hs {
		names = append(names, h.name)
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(3)
	}

	// native replay binaries, built from the current tree
	tmp, err := os.MkdirTemp("", "vlreplay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cleanup := func() { os.RemoveAll(tmp) }
	type built struct {
		plain, instr string
		err          error
	}
	bch := make(chan built, 1)
	go func() {
		var b built
		b.plain, b.instr, b.err = buildNative(tmp, hdir, *repo, names, env, e)
		bch <- b
	}()
	b := <-bch
	if b.err != nil {
		fmt.Fprintln(os.Stderr, "native build:", b.err)
		cleanup()
		os.Exit(3)
	}
	e.native = &Native{bin: b.plain, tmo: 20 * time.Second}
	e.nativeI = &Native{bin: b.instr, tmo: 20 * time.Second}

	for i := 0; i < *nw; i++ {
		e.workers = append(e.workers, &Worker{id: i, in: newInterp(e)})
	}
	e.Run(hs)
	tRun := time.Since(t0)

	// concrete inputs of paths that could not be finished symbolically: run them natively
	fbRuns := 0
	for _, f := range e.fallbacks {
		if len(e.confirmed) >= e.stopAt {
			break
		}
		fbRuns++
		res, err := e.runNative(f.Replay)
		if err == nil && res.Status == "violation" {
			f.Replay.Label = res.Label
			f.Label = res.Label
			f.Replay.Found = "concrete input of a path the engine could not finish"
			e.report(f)
		}
	}
	// differential samples
	agree, differ := 0, 0
	if len(e.confirmed) == 0 {
		for _, s := range e.samples {
			if time.Since(t0) > time.Duration(*tmo+20)*time.Second {
				break
			}
			ok, why := e.compare(s)
			if ok {
				agree++
			} else {
				differ++
				if differ <= 5 || *verbose {
					e.notes["model and implementation differ on a sample of "+s.Harness+": "+why]++
				}
				// a native run that breaks the property is a violation whatever the model says
				if res, err := e.runNative(s.Replay); err == nil && res.Status == "violation" {
					s.Replay.Label = res.Label
					s.Replay.Found = "native run of a sampled path"
					e.report(Violation{s.Harness, res.Label, s.Replay})
				}
			}
		}
	}
	e.native.Close()
	e.nativeI.Close()
	cleanup()

	// reports
	evd := filepath.Join(*root, "evidence")
	os.MkdirAll(evd, 0o755)
	old, _ := filepath.Glob(filepath.Join(evd, "replay-"+*prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	var vlines []string
	for i, v := range e.confirmed {
		p := filepath.Join(evd, fmt.Sprintf("replay-%s-%d.json", *prop, i+1))
		v.Replay.Property = *prop
		jb, _ := json.MarshalIndent(v.Replay, "", " ")
		os.WriteFile(p, jb, 0o644)
		vlines = append(vlines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, p))
		fmt.Printf("%s: %s\n", v.Harness, v.Label)
		for _, n := range v.Replay.Order {
			x := v.Replay.Inputs[n]
			switch x.K {
			case "int":
				fmt.Printf("   %s = %s\n", n, x.V)
			case "bytes":
				fmt.Printf("   %s = hex %s\n", n, x.Hex)
			case "big":
				fmt.Printf("   %s = %d bytes of %d, except %v\n", n, x.N, x.Def, x.Pts)
			}
		}
		if len(v.Replay.Sched) > 0 {
			fmt.Printf("   schedule = %v\n", v.Replay.Sched)
		}
	}
	for _, k := range e.known {
		if e.knownHit[k.harness+"|"+k.label] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.what)
		}
	}
	writeEvidence(e, evd, *prop, *tier, seed, names, hs, agree, differ, fbRuns, tLoad, tRun, time.Since(t0), *repo, len(vlines))
	var ns []string
	for n, c := range e.notes {
		ns = append(ns, fmt.Sprintf("note: %s (%d)", n, c))
	}
	sort.Strings(ns)
	for i, n := range ns {
		if i < 25 || *verbose {
			fmt.Println(n)
		}
	}
	if len(e.unconf) > 0 {
		fmt.Printf("note: %d counterexamples of the model did not reproduce on the real code and were not reported\n", len(e.unconf))
		if *dump {
			for _, u := range e.unconf {
				jb, _ := json.Marshal(u.Replay)
				fmt.Println("  unconfirmed", u.Harness, u.Label, string(jb))
			}
		}
	}
	q, st, un, uk, sv := e.solverTotals()
	if crossCheck {
		fmt.Printf("cross-check: second solver agrees on %d queries, differs on %d, no answer on %d\n", crossSame.Load(), crossDiff.Load(), crossUnk.Load())
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d incomplete, %d assertions (%d by solver), %d queries (%d sat %d unsat %d unknown) solver %.1fs, samples agree %d differ %d, load %.1fs total %.1fs\n",
		*prop, *tier, len(hs), e.st.paths.Load(), e.st.incompletePaths.Load(), e.st.asserts.Load(), e.st.assertsUnsat.Load(), q, st, un, uk, sv.Seconds(), agree, differ, tLoad.Seconds(), time.Since(t0).Seconds())
	for _, h := range hs {
		if *verbose {
			fmt.Printf("   %s: %d paths\n", h.name, h.paths.Load())
		}
	}
	for _, u := range e.unreached(hs) {
		fmt.Println("note: witness not reached:", u)
	}
	for _, w := range e.workers {
		w.in.solver.Close()
	}
	for _, l := range vlines {
		fmt.Println(l)
	}
	if len(vlines) > 0 {
		os.Exit(1)
	}
}

func isFlagSet(n string) bool {
	r := false
	flag.Visit(func(f *flag.Flag) {
		if f.Name == n {
			r = true
		}
	})
	return r
}

func (e *Engine) solverTotals() (q, st, un, uk int64, t time.Duration) {
	for _, w := range e.workers {
		s := w.in.solver
		q += s.Queries
		st += s.SatN
		un += s.UnsatN
		uk += s.UnkN
		t += s.Time
	}
	return
}

// unreached lists the reachability witnesses named in the harnesses that no path reached.
func (e *Engine) unreached(hs []*Harness) []string {
	var r []string
	for _, h := range hs {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || f.Pkg == nil && f.Parent() == nil {
				return
			}
			seen[f] = true
			for _, a := range f.AnonFuncs {
				walk(a)
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok {
						continue
					}
					cal := c.Call.StaticCallee()
					if cal == nil {
						continue
					}
					if cal.RelString(nil) == symPkg+".Reach" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							l := strings.Trim(k.Value.ExactString(), `"`)
							if !e.reachedAnywhere(l, hs) {
								r = append(r, h.name+"/"+l)
							}
						}
					} else if cal.Pkg == h.fn.Pkg {
						walk(cal)
					}
				}
			}
		}
		walk(h.fn)
	}
	return r
}

// reachedAnywhere: some harness of the property reached the witness.
func (e *Engine) reachedAnywhere(l string, hs []*Harness) bool {
	for _, h := range hs {
		if e.reached[h.name+"/"+l] > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) runNative(r *Replay) (Result, error) {
	n := e.native
	if r.Race {
		return e.runRace(r)
	}
	if r.Clock || r.Threads {
		n = e.nativeI
	}
	return n.Run(r)
}

// confirm replays a counterexample against the real code.
func (e *Engine) confirm(r *Replay) (Result, bool) {
	x := *r
	if x.MapOrder {
		x.Repeat = 400
	}
	if x.Threads {
		x.Repeat = 3000
	}
	res, err := e.runNative(&x)
	if err != nil {
		return res, false
	}
	r.Repeat = x.Repeat
	return res, res.Status == "violation"
}

// runRace runs a replay in fresh processes with the race detector until it reports a race.
func (e *Engine) runRace(r *Replay) (Result, error) {
	e.raceOnce.Do(func() {
		e.raceBin, e.raceErr = e.buildRace()
	})
	if e.raceErr != nil {
		if debugNative {
			fmt.Fprintln(os.Stderr, "race build:", e.raceErr)
		}
		return Result{}, e.raceErr
	}
	for i := 0; i < 12; i++ {
		n := &Native{bin: e.raceBin, tmo: 20 * time.Second}
		res, err := n.run(r)
		n.Close()
		if err != nil || res.Status == "violation" {
			return res, err
		}
	}
	return Result{Status: "ok"}, nil
}

// report files a confirmed violation, unless it is a listed known finding.
func (e *Engine) report(v Violation) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, k := range e.known {
		if k.harness == v.Harness && (k.label == v.Label) {
			e.knownHit[k.harness+"|"+k.label]++
			return false
		}
	}
	e.confirmed = append(e.confirmed, v)
	return true
}

func (e *Engine) compare(s Sample) (bool, string) {
	tries := 1
	if s.MapOrd {
		tries = 60
	}
	why := ""
	for i := 0; i < tries; i++ {
		res, err := e.runNative(s.Replay)
		if err != nil {
			return false, err.Error()
		}
		if res.Status != "ok" {
			why = "native status " + res.Status + " " + res.Label
			if s.Threads && res.Status == "ok" {
				continue
			}
			continue
		}
		if s.Threads {
			return true, ""
		}
		if strings.Join(res.Obs, ";") == strings.Join(s.Obs, ";") {
			return true, ""
		}
		for k := range s.Obs {
			if k >= len(res.Obs) || res.Obs[k] != s.Obs[k] {
				o := "nothing"
				if k < len(res.Obs) {
					o = res.Obs[k]
				}
				jb, _ := json.Marshal(s.Replay.Inputs)
				why = fmt.Sprintf("model %.200s native %.200s inputs %.600s", s.Obs[k], o, jb)
				break
			}
		}
	}
	return false, why
}

func writeEvidence(e *Engine, dir, prop, tier string, seed int64, names []string, hs []*Harness, agree, differ, fb int, tLoad, tRun, wall time.Duration, repo string, nviol int) {
	funcs := map[string]int{}
	instr := 0
	for _, w := range e.workers {
		for f, bl := range w.in.covered {
			pos := e.prog.Fset.Position(f.Pos())
			if !strings.HasPrefix(pos.Filename, repo+"/") {
				continue
			}
			n := f.RelString(nil)
			if len(bl) > funcs[n] {
				funcs[n] = len(bl)
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
		instr += funcs[f]
	}
	sort.Strings(fl)
	q, st, un, uk, sv := e.solverTotals()
	var notes []string
	for n, c := range e.notes {
		notes = append(notes, fmt.Sprintf("%s (%d)", n, c))
	}
	sort.Strings(notes)
	perH := map[string]int64{}
	for _, h := range hs {
		perH[h.name] = h.paths.Load()
	}
	var samples []interface{}
	for i, s := range e.samples {
		if i >= 4 {
			break
		}
		samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": s.Replay.Inputs, "observed": s.Obs})
	}
	if samples == nil {
		samples = []interface{}{"no completed path sampled"}
	}
	var sec int64
	for _, w := range e.workers {
		sec += w.in.solver.Second
	}
	unr := e.unreached(hs)
	cov := map[string]interface{}{
		"states":                         e.st.paths.Load(),
		"transitions":                    e.st.steps.Load(),
		"traces_validated_against_impl":  agree,
		"samples":                        samples,
		"explanation":                    "states = symbolic paths (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically",
		"exhaustive":                     e.st.incompletePaths.Load() == 0 && len(notes) == 0,
		"harnesses":                      perH,
		"functions_encoded":              fl,
		"basic_blocks_encoded":           instr,
		"bounds":                         e.bounds,
		"solver":                         strings.Join(solverCmd, " "),
		"solver_queries":                 q,
		"solver_sat":                     st,
		"solver_unsat":                   un,
		"solver_unknown":                 uk,
		"solver_seconds":                 sv.Seconds(),
		"solver_second":                  strings.Join(secondCmd, " "),
		"solver_second_queries":          sec,
		"branches_by_byte_domains":       e.st.domQ.Load(),
		"assertions_checked":             e.st.asserts.Load(),
		"assertions_by_solver_unsat":     e.st.assertsUnsat.Load(),
		"assertions_by_simplification":   e.st.assertsTriv.Load(),
		"assertions_unknown":             e.st.assertsUnk.Load(),
		"paths_incomplete":               e.st.incompletePaths.Load(),
		"paths_outside_assumptions":      e.st.assumeEnds.Load(),
		"path_samples_disagreeing":       differ,
		"fallback_native_runs":           fb,
		"counterexamples_not_reproduced": len(e.unconf),
		"reachability_witnesses":         e.reached,
		"witnesses_not_reached":          unr,
		"load_seconds":                   tLoad.Seconds(),
		"notes":                          notes,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the SSA form produced by golang.org/x/tools/go/ssa means what the Go compiler compiles",
			"the solver's unsat answers are right",
			"library models: utf8 validity, regexp matching, bytes/strings search, sync, sync/atomic (sequentially consistent), time.Now as an arbitrary clock, fmt/log without effect",
			"inputs beyond the stated bounds are not covered",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

// buildNative compiles the replay binary twice against the current tree: as is, and with time and
// sync/atomic redirected to the harness's clock and scheduler.
func buildNative(tmp, hdir, repo string, names []string, env []string, e *Engine) (string, string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"vlverif/harness/props\"\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\tregistry[%q] = props.%s\n", n, n)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(tmp, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return "", "", err
	}
	regDst := filepath.Join(hdir, "cmd/replay/registry_gen.go")
	build := func(name string, repl map[string]string, race bool) (string, error) {
		env := env
		flags := []string{"build"}
		if race {
			flags = append(flags, "-race")
			env = append(append([]string{}, env...), "CGO_ENABLED=1")
		}
		ov := filepath.Join(tmp, name+".json")
		jb, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		os.WriteFile(ov, jb, 0o644)
		out := filepath.Join(tmp, name)
		c := exec.Command("go", append(flags, "-overlay", ov, "-o", out, "./cmd/replay")...)
		c.Dir = hdir
		c.Env = env
		if b, err := c.CombinedOutput(); err != nil {
			return "", fmt.Errorf("%v: %s", err, b)
		}
		return out, nil
	}
	type res struct {
		p   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		repl, err := instrument(tmp, repo)
		if err != nil {
			ch <- res{"", err}
			return
		}
		repl[regDst] = reg
		p, err := build("instr", repl, false)
		ch <- res{p, err}
	}()
	e.buildRace = func() (string, error) { return build("race", map[string]string{regDst: reg}, true) }
	plain, err := build("plain", map[string]string{regDst: reg}, false)
	r := <-ch
	if err != nil {
		return "", "", err
	}
	if r.err != nil {
		return "", "", r.err
	}
	return plain, r.p, nil
}
