package main

import (
	"crypto/sha1"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessCfg struct {
	Fn       string   `json:"fn"`
	Files    []string `json:"files"`
	Target   string   `json:"target"` // native binary package, default ./src/vharness/main
	Shim     bool     `json:"shim"`
	Retries  int      `json:"retries"`
	Reach    []string `json:"reach"`
	Thorough bool     `json:"thorough_only"`
	QSec     int      `json:"qsec"` // share of the quick budget
	TSec     int      `json:"tsec"`
	Validate int      `json:"validate"` // passing paths validated natively
	NoObs    bool     `json:"noobs"`    // observations depend on order chosen natively
}

type CheckCfg struct {
	ID          string       `json:"id"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Bounds      any          `json:"bounds"`
	Outside     string       `json:"outside"`
	Assumptions []string     `json:"assumptions"`
}

func loadChecks() ([]CheckCfg, error) {
	var out []CheckCfg
	b, err := os.ReadFile(filepath.Join(verifDir, "harness/checks.json"))
	if err != nil {
		return nil, err
	}
	return out, json.Unmarshal(b, &out)
}

func main() {
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(runtime.NumCPU())
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID | run FILE FN | replay FILE")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	dbg := fs.Bool("debug", false, "")
	secs := fs.Int("secs", 0, "")
	prof := fs.String("prof", "", "")
	native := fs.Int("native", -1, "")
	shim := fs.Bool("shim", false, "")
	target := fs.String("target", "./src/vharness/main", "")
	solver := fs.String("solver", defaultSolver(), "")
	dump := fs.Bool("dump", false, "")
	retries := fs.Int("retries", 1, "")
	var pos []string
	args := os.Args[2:]
	for len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		pos = append(pos, args[0])
		args = args[1:]
	}
	fs.Parse(args)
	if l := os.Getenv("GOSYM_LOG"); l != "" {
		solverLog, _ = os.Create(l)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch cmd {
	case "check":
		os.Exit(runCheck(pos[0], *tier, *workers))
	case "run":
		runDev(pos[0], pos[1], *tier, *workers, *dbg, *secs, *native, *shim, *target, *solver, *dump, *retries)
	case "replay":
		os.Exit(runReplay(pos[0]))
	case "shim":
		e, err := load(fileSet(strings.Split(pos[0], ",")))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for p, s := range e.shimFiles() {
			fmt.Println("=====", p)
			fmt.Println(s)
		}
	default:
		os.Exit(2)
	}
}

func fileSet(l []string) map[string]bool {
	m := map[string]bool{}
	for _, f := range l {
		m[f] = true
	}
	return m
}

func harnessPkg(files []string) string {
	for _, f := range files {
		if strings.HasPrefix(f, "inpkg/") {
			return modPath + strings.ReplaceAll(strings.Split(f, "/")[1], "__", "/")
		}
	}
	return modPath + "src/vharness"
}

func runDev(files, fn, tier string, nw int, dbg bool, secs, native int, shim bool, target, solver string, dump bool, retries int) {
	t0 := time.Now()
	fl := strings.Split(files, ",")
	e, err := load(fileSet(fl))
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded %.1fs\n", time.Since(t0).Seconds())
	e.tier, e.debug, e.solver = tier, dbg, solver
	if secs == 0 {
		secs = 600
	}
	e.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	var ws []*Worker
	for i := 0; i < nw; i++ {
		ws = append(ws, NewWorker(e, i))
	}
	ex := NewExplorer(e, e.funcByName(harnessPkg(fl), fn))
	ex.Run(ws)
	fmt.Printf("paths %d infeasible %d steps %d branches %d asserts conc %d smt %d unk %d queries %d (sat %d unsat %d unk %d) solver %.1fs wall %.1fs incomplete %v\n", ex.Paths, ex.Infeasible, ex.Steps, ex.Branches, ex.AssertsConc, ex.AssertsSMT, ex.AssertsUnk, ex.Queries, ex.QSat, ex.QUnsat, ex.QUnk, ex.SolverTime.Seconds(), ex.Wall.Seconds(), ex.Incomplete)
	fmt.Println("reached", ex.Reached)
	for _, k := range sortedKeys(ex.AssertMsgs) {
		fmt.Printf("  assert %6d  %s\n", ex.AssertMsgs[k], k)
	}
	for k, v := range ex.Unsupported {
		fmt.Printf("UNSUPPORTED %d: %s\n", v, k)
	}
	for k, v := range ex.Limits {
		fmt.Printf("LIMIT %d: %s\n", v, k)
	}
	if len(ex.MutOps) > 0 {
		fmt.Println("ops", ex.MutOps)
	}
	if dump {
		fmt.Println("funcs", sortedKeys(ex.Funcs))
		fmt.Println("stubs", sortedKeys(ex.Stubs))
		e.notes.Range(func(k, v any) bool { fmt.Println("note:", k); return true })
	}
	if lastSolverError != "" {
		fmt.Println("solver error:", lastSolverError)
	}
	t := 0
	if tier == "thorough" {
		t = 1
	}
	n, err := newNative(e)
	if err != nil {
		fmt.Println(err)
		return
	}
	defer n.Close()
	seen := map[string]int{}
	for _, c := range ex.Cands {
		seen[c.Kind+c.Msg]++
		if seen[c.Kind+c.Msg] > 1 {
			continue
		}
		fmt.Printf("CAND %s: %s %s\n   %v sched %v\n", c.Kind, c.Msg, c.Detail, c.Inputs, c.Sched)
		if native != 0 {
			r := &Replay{Harness: fn, Target: target, Files: fl, Shim: shim, Retries: retries, Msg: c.Msg, Kind: c.Kind, Tier: t, Inputs: c.Inputs, Sched: c.Sched, Points: c.Points}
			ok, o := n.confirm(r)
			fmt.Printf("   native: confirmed=%v %s %s\n", ok, o.Status, o.Msg)
			if !ok {
				fmt.Println("   raw:", o.Raw)
			}
		}
	}
	if native != 0 {
		k := 0
		lim := native
		if lim < 0 {
			lim = 10
		}
		bad := 0
		for _, s := range ex.Samples {
			if k >= lim {
				break
			}
			k++
			r := &Replay{Harness: fn, Target: target, Files: fl, Shim: shim, Retries: 1, Tier: t, Inputs: s.Inputs, Sched: s.Sched, Points: s.Points}
			o := n.run(r)
			if o.Status != "ok" || strings.Join(o.Obs, "\n") != strings.Join(s.Obs, "\n") {
				bad++
				if bad <= 3 {
					fmt.Printf("MISMATCH %s %s\n inputs %v\n engine %v\n native %v\n", o.Status, o.Msg, s.Inputs, s.Obs, o.Obs)
					if o.Status == "error" {
						fmt.Println(o.Raw)
					}
				}
			}
		}
		fmt.Printf("validated %d passing paths, %d mismatches\n", k, bad)
	}
	for _, w := range ws {
		w.solver.Close()
	}
}

type finding struct{ prop, harness, msg, text string }

// loadFindings reads /verif/known_findings.txt; only "known:" lines suppress.
func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=C17 harness=HX msg="..." text
		f := finding{}
		r := strings.TrimPrefix(l, "known: ")
		for _, k := range []string{"property=", "harness="} {
			if !strings.HasPrefix(r, k) {
				break
			}
			w := strings.SplitN(r[len(k):], " ", 2)
			if k == "property=" {
				f.prop = w[0]
			} else {
				f.harness = w[0]
			}
			r = w[1]
		}
		if strings.HasPrefix(r, "msg=") {
			q, err := strconv.QuotedPrefix(r[4:])
			if err == nil {
				f.msg, _ = strconv.Unquote(q)
				f.text = strings.TrimSpace(r[4+len(q):])
				out = append(out, f)
			}
		}
	}
	return out
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := load(fileSet(r.Files))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := newNative(e)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer n.Close()
	ok, o := n.confirm(r)
	fmt.Printf("replay of %s: reproduced=%v: %s %s\n", r.Harness, ok, o.Status, o.Msg)
	if os.Getenv("GOSYM_RAW") != "" {
		fmt.Println(o.Raw)
	}
	if ok {
		return 1
	}
	fmt.Println(o.Raw)
	return 0
}

func runCheck(id, tier string, nw int) int {
	t0 := time.Now()
	checks, err := loadChecks()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cfg *CheckCfg
	for i := range checks {
		if checks[i].ID == id {
			cfg = &checks[i]
		}
	}
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	want := map[string]bool{}
	for _, h := range cfg.Harnesses {
		for _, f := range h.Files {
			want[f] = true
		}
	}
	e, err := load(want)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	e.tier = tier
	nat, err := newNative(e)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer nat.Close()
	var ws []*Worker
	for i := 0; i < nw; i++ {
		ws = append(ws, NewWorker(e, i))
	}
	defer func() {
		for _, w := range ws {
			w.solver.Close()
		}
	}()
	if id == "C00" {
		return 0
	}
	known := loadFindings()
	tnum := 0
	if tier == "thorough" {
		tnum = 1
	}
	type hres struct {
		Harness     string           `json:"harness"`
		Paths       int64            `json:"paths"`
		Infeasible  int64            `json:"infeasible_paths"`
		Complete    bool             `json:"complete_within_bounds"`
		Steps       int64            `json:"ssa_instructions"`
		Branches    int64            `json:"symbolic_branches"`
		AssertsConc int64            `json:"assertions_constant_folded"`
		AssertsSMT  int64            `json:"assertions_decided_by_solver"`
		AssertsUnk  int64            `json:"assertions_unknown"`
		Queries     int              `json:"solver_queries"`
		Sat         int              `json:"sat"`
		Unsat       int              `json:"unsat"`
		Unknown     int              `json:"unknown"`
		SolverS     float64          `json:"solver_s"`
		WallS       float64          `json:"wall_s"`
		Asserts     map[string]int64 `json:"assertions"`
		Reached     map[string]int   `json:"reached"`
		Missing     []string         `json:"not_reached,omitempty"`
		Unsupported map[string]int   `json:"paths_outside_the_encoding,omitempty"`
		Limits      map[string]int   `json:"paths_cut_by_limits,omitempty"`
		Ops         map[string]int   `json:"operations_at_crash_or_fault_points,omitempty"`
		Validated   int              `json:"paths_validated_natively"`
		Mismatch    int              `json:"validation_mismatches"`
		MisSample   string           `json:"validation_mismatch_sample,omitempty"`
		CrossCheck  string           `json:"cvc5_cross_check,omitempty"`
	}
	var res []hres
	funcs := map[string]bool{}
	stubs := map[string]bool{}
	var samples []any
	var paths, steps int64
	validated, violations, queries := 0, 0, 0
	var knownHit, unconfirmed []string
	var solverS float64
	code := 0
	reachedAny := false
	vioLines := map[string]bool{}

	qTotal := 0
	nh := 0
	for _, h := range cfg.Harnesses {
		if h.Thorough && tnum == 0 {
			continue
		}
		nh++
		qTotal += h.QSec
	}
	end := t0.Add(800 * time.Second)
	for hi, h := range cfg.Harnesses {
		if h.Thorough && tnum == 0 {
			continue
		}
		if h.Target == "" {
			h.Target = "./src/vharness/main"
		}
		if tnum == 0 {
			q := h.QSec
			if q == 0 {
				q = 60
			}
			e.deadline = time.Now().Add(time.Duration(q) * time.Second)
		} else {
			left := 0
			for _, g := range cfg.Harnesses[hi:] {
				t := g.TSec
				if t == 0 {
					t = 100
				}
				left += t
			}
			t := h.TSec
			if t == 0 {
				t = 100
			}
			e.deadline = time.Now().Add(time.Until(end) * time.Duration(t) / time.Duration(left))
		}
		e.stop.Store(false)
		pk := e.pkgs[harnessPkg(h.Files)]
		if pk == nil || pk.Func(h.Fn) == nil {
			fmt.Fprintln(os.Stderr, "no harness", h.Fn)
			return 2
		}
		// build the native binary while the symbolic run goes on
		built := make(chan error, 1)
		go func() { _, err := nat.build(h.Target, h.Shim, false); built <- err }()
		ex := NewExplorer(e, pk.Func(h.Fn))
		ex.Run(ws)
		if err := <-built; err != nil {
			fmt.Fprintln(os.Stderr, err)
			if h.Shim {
				e.note("shim build failed: %v", err)
			}
		}
		r := hres{Harness: h.Fn, Paths: ex.Paths, Infeasible: ex.Infeasible, Steps: ex.Steps, Branches: ex.Branches, AssertsConc: ex.AssertsConc, AssertsSMT: ex.AssertsSMT, AssertsUnk: ex.AssertsUnk, Queries: ex.Queries, Sat: ex.QSat, Unsat: ex.QUnsat, Unknown: ex.QUnk, SolverS: ex.SolverTime.Seconds(), WallS: ex.Wall.Seconds(), Asserts: ex.AssertMsgs, Reached: ex.Reached, Unsupported: ex.Unsupported, Limits: ex.Limits, Ops: ex.MutOps}
		r.Complete = !ex.Incomplete && len(ex.Unsupported) == 0 && len(ex.Limits) == 0 && ex.AssertsUnk == 0 && ex.UnkBranch == 0
		for f := range ex.Funcs {
			funcs[f] = true
		}
		for f := range ex.Stubs {
			stubs[f] = true
		}
		for _, t := range h.Reach {
			if ex.Reached[t] == 0 {
				r.Missing = append(r.Missing, t)
			}
		}
		if len(r.Missing) == 0 && (ex.Paths > 0) {
			reachedAny = true
		}
		// candidates
		confirmedMsg := map[string]bool{}
		tried := map[string]int{}
		for _, c := range ex.Cands {
			key := c.Kind + c.Msg
			if confirmedMsg[key] || tried[key] >= 3 {
				continue
			}
			tried[key]++
			rp := &Replay{Property: id, Harness: h.Fn, Target: h.Target, Files: h.Files, Shim: h.Shim, Retries: h.Retries, Msg: c.Msg, Kind: c.Kind, Detail: c.Detail, Tier: tnum, Inputs: c.Inputs, Sched: c.Sched, Points: c.Points}
			ok, o := nat.confirm(rp)
			if !ok {
				if tried[key] == 1 {
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: model counterexample did not reproduce natively (%s %s)", h.Fn, c.Msg, o.Status, o.Msg))
				}
				fmt.Fprintf(os.Stderr, "%s %s: unconfirmed candidate %q: %s %s\n", id, h.Fn, c.Msg, o.Status, firstLine(o.Msg))
				continue
			}
			confirmedMsg[key] = true
			isKnown := false
			for _, k := range known {
				if k.prop == id && k.harness == h.Fn && k.msg == c.Msg && (o.Msg == "" || o.Msg == k.msg || c.Kind != "assert") {
					isKnown = true
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.text)
					if !vioLines[line] {
						vioLines[line] = true
						fmt.Println(line)
						knownHit = append(knownHit, k.text)
					}
				}
			}
			if isKnown {
				continue
			}
			os.MkdirAll(filepath.Join(verifDir, "replays"), 0755)
			j, _ := json.MarshalIndent(rp, "", " ")
			pth := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%s-%x.json", id, h.Fn, sha1.Sum(j))[:len(id)+len(h.Fn)+10]+".json")
			os.WriteFile(pth, j, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, pth)
			fmt.Printf("  %s: %s (native: %s %s)\n", h.Fn, c.Msg, o.Status, o.Msg)
			violations++
			code = 1
		}
		// validation of passing paths
		lim := h.Validate
		if lim == 0 {
			lim = 8
		}
		if tnum == 1 {
			lim *= 4
		}
		if nat.errs == nil || code == 0 || true {
			st := 1
			if len(ex.Samples) > lim {
				st = len(ex.Samples) / lim
			}
			tv := time.Now()
			for i := 0; i < len(ex.Samples) && r.Validated < lim; i += st {
				if time.Since(tv) > time.Duration(10+50*tnum)*time.Second {
					break
				}
				s := ex.Samples[i]
				o := nat.run(&Replay{Harness: h.Fn, Target: h.Target, Files: h.Files, Shim: h.Shim, Tier: tnum, Inputs: s.Inputs, Sched: s.Sched, Points: s.Points})
				if o.Status == "ok" && (h.NoObs || strings.Join(o.Obs, "\n") == strings.Join(s.Obs, "\n")) {
					r.Validated++
				} else {
					r.Mismatch++
					if r.MisSample == "" {
						r.MisSample = fmt.Sprintf("%s %s inputs %v engine %v native %v", o.Status, o.Msg, s.Inputs, s.Obs, o.Obs)
					}
				}
				if i < 3*st {
					samples = append(samples, map[string]any{"harness": h.Fn, "inputs": s.Inputs, "observed": s.Obs, "instructions": s.Steps, "native": o.Status})
				}
			}
		}
		validated += r.Validated
		paths += ex.Paths + ex.Infeasible
		steps += ex.Steps
		queries += ex.Queries
		solverS += ex.SolverTime.Seconds()
		res = append(res, r)
		fmt.Printf("%s %s: paths %d (complete=%v) queries %d solver %.1fs wall %.1fs validated %d mismatches %d unsupported %d limits %d not reached %v\n", id, h.Fn, ex.Paths, r.Complete, ex.Queries, r.SolverS, r.WallS, r.Validated, r.Mismatch, len(ex.Unsupported), len(ex.Limits), r.Missing)
		if code == 1 && tnum == 0 {
			break
		}
	}
	var notes []string
	e.notes.Range(func(k, v any) bool { notes = append(notes, k.(string)); return len(notes) < 40 })
	sort.Strings(notes)
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	assume := append([]string{}, cfg.Assumptions...)
	assume = append(assume, commonAssumptions...)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning":      "symbolic execution paths (each covers all values satisfying its path condition)",
			"transitions_meaning": "SSA instructions executed symbolically",
			"bounds":              cfg.Bounds, "outside_the_bounds": cfg.Outside,
			"functions_encoded": sortedKeys(funcs), "library_functions_modelled": sortedKeys(stubs),
			"solver": e.solver + " (QF_BV)", "solver_queries": queries, "solver_time_s": solverS,
			"harnesses": res, "known_findings": knownHit, "unconfirmed_candidates": unconfirmed, "notes": notes,
			"native_runs": nat.runs,
		},
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 && !reachedAny {
		fmt.Fprintf(os.Stderr, "%s: no harness reached its marked points; nothing decided\n", id)
		return 2
	}
	fmt.Printf("%s %s: exit %d in %.1fs\n", id, tier, code, time.Since(t0).Seconds())
	return code
}

var commonAssumptions = []string{
	"Go SSA (golang.org/x/tools/go/ssa) represents the compiled code; the interpreter and its models of os, leveldb, exec, hashing and encoding behave like the real ones (checked by running sampled paths natively, see traces_validated_against_impl)",
	"SHA-1 and SHA-256 do not collide",
	"logging has no effect on behaviour",
}
