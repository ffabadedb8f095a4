package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"gosym/interp"
	"gosym/load"
)

type tierCfg struct {
	Secs   int            `json:"secs"`
	Params map[string]int `json:"params"`
}

type harnessCfg struct {
	Pkg      string   `json:"pkg"`
	Fn       string   `json:"fn"`
	Quick    tierCfg  `json:"quick"`
	Thorough *tierCfg `json:"thorough"`
	Race     bool     `json:"race"`
	SymHash  bool     `json:"symhash"`
	SymTime  bool     `json:"symtime"`
	MapOrder bool     `json:"maporder"`
	Clock    bool     `json:"clock"`
	Free     bool     `json:"free"`     // native runs cannot follow the schedule (channels)
	NoSample bool     `json:"nosample"` // outputs depend on something the replay does not control
	Reach    []string `json:"reach"`
	Bounds   string   `json:"bounds"`
	MaxSteps int      `json:"maxsteps"`
}

type checkCfg struct {
	Level       string       `json:"level"`
	Assumptions []string     `json:"assumptions"`
	Harnesses   []harnessCfg `json:"harnesses"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Text     string `json:"text"`
	Commit   string `json:"commit,omitempty"`
}

type harnessReport struct {
	Harness     string         `json:"harness"`
	Params      map[string]int `json:"params,omitempty"`
	Bounds      string         `json:"bounds"`
	Paths       int            `json:"paths"`
	Completed   int            `json:"paths_completed"`
	Infeasible  int            `json:"paths_cut_by_assumptions"`
	SleepCut    int            `json:"paths_cut_by_partial_order_reduction"`
	Exhausted   bool           `json:"exhausted_within_bounds"`
	Limited     int            `json:"paths_cut_by_limits"`
	Unsupported map[string]int `json:"unsupported,omitempty"`
	Steps       int64          `json:"instructions_executed"`
	Asserts     int64          `json:"assertions_evaluated"`
	AssertQ     int64          `json:"assertions_sent_to_solver"`
	AssertTriv  int64          `json:"assertions_closed_by_term_rewriting"`
	AssertUnk   int64          `json:"assertions_unknown"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"max_query_s"`
	Threads     int            `json:"threads"`
	SchedPoints int64          `json:"scheduling_points"`
	SymInputs   int            `json:"max_inputs_per_path"`
	Reached     map[string]int `json:"reached"`
	Unreached   []string       `json:"unreached,omitempty"`
	Validated   int            `json:"sample_paths_replayed_natively"`
	Mismatch    []string       `json:"replay_mismatches,omitempty"`
	Unconfirmed []string       `json:"unconfirmed_counterexamples,omitempty"`
	WallS       float64        `json:"wall_s"`
}

type replayFile struct {
	Property string    `json:"property"`
	Pkg      string    `json:"pkg"`
	Kind     string    `json:"kind"`
	Msg      string    `json:"msg"`
	Where    string    `json:"where"`
	Case     natCase   `json:"case"`
	Native   natResult `json:"native"`
	Race     bool      `json:"race"`
	How      string    `json:"how"`
}

func readJSON(p string, v any) error {
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func mkConfig(h harnessCfg, tc tierCfg, seed int) interp.Config {
	ms := h.MaxSteps
	if ms == 0 {
		ms = 20000000
	}
	return interp.Config{Harness: h.Fn, MaxSteps: ms, Deadline: time.Now().Add(time.Duration(tc.Secs) * time.Second), Workers: runtime.NumCPU(), Solver: "z3-new",
		Timeout: 20000, RaceCheck: h.Race, MapOrder: h.MapOrder, SymHash: h.SymHash, SymTime: h.SymTime, ClockDep: h.Clock, Params: tc.Params, Seed: seed}
}

func checkCmd(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "", "quick|thorough")
	only := fs.String("only", "", "restrict to one harness function (development)")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var cc checkCfg
	if err := readJSON(filepath.Join(verif, "checks", *id+".json"), &cc); err != nil {
		fatal("%v", err)
	}
	var known []knownFinding
	if err := readJSON(filepath.Join(verif, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fatal("known_findings.json: %v", err)
	}
	pkgs := []string{}
	seen := map[string]bool{}
	for _, h := range cc.Harnesses {
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	lr, err := loadHarness(pkgs)
	if err != nil {
		fatal("%v", err)
	}
	scratch, err := os.MkdirTemp("", "gosym-"+*id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	// native replayers are built in the background
	type built struct {
		bin string
		err error
	}
	bins := map[string]chan built{}
	var res = map[string]built{}
	for _, p := range pkgs {
		d := filepath.Join(scratch, p)
		os.MkdirAll(d, 0o755)
		ch := make(chan built, 1)
		bins[p] = ch
		go func(p string) {
			b, err := buildNative(d, p, false)
			ch <- built{b, err}
		}(p)
	}
	native := func(p string) built {
		if r, ok := res[p]; ok {
			return r
		}
		r := <-bins[p]
		res[p] = r
		if r.err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", r.err)
		}
		return r
	}
	var reps []harnessReport
	viol, nviol := []replayFile{}, 0
	var samples []any
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, *id+".replay*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	knownHit := map[int]bool{}
	var warns []string
	for _, h := range cc.Harnesses {
		if *only != "" && h.Fn != *only {
			continue
		}
		tc := h.Quick
		if *tier == "thorough" && h.Thorough != nil {
			tc = *h.Thorough
		}
		sp := lr.Harness[load.RepoMod+"/"+harnessDir+"/"+h.Pkg]
		fn := sp.Func(h.Fn)
		if fn == nil {
			fatal("no harness function %s in %s", h.Fn, h.Pkg)
		}
		x := interp.NewExplorer(lr.Prog, fn, mkConfig(h, tc, seed))
		x.MaxSamples = 4
		if *tier == "thorough" {
			x.MaxSamples = 24
		}
		x.Run()
		st := x.St
		r := harnessReport{Harness: h.Pkg + "." + h.Fn, Params: tc.Params, Bounds: h.Bounds, Paths: st.Paths, Completed: st.Completed, Infeasible: st.Assumed,
			SleepCut: st.SleepCut, Exhausted: st.Exhausted, Limited: st.Limited, Unsupported: st.Unsupported, Steps: st.Steps, Asserts: st.Asserts,
			AssertQ: st.AssertQ, AssertTriv: st.AssertTriv, AssertUnk: st.AssertUnk, Queries: st.Queries, Sat: st.Sat, Unsat: st.Unsat,
			Unknown: st.Unknown, SolverS: st.SolverTime.Seconds(), MaxQueryS: st.MaxQuery.Seconds(), Threads: st.MaxThreads, SchedPoints: st.SchedPoints,
			SymInputs: st.Inputs, Reached: st.Reached}
		for _, l := range h.Reach {
			if st.Reached[l] == 0 {
				r.Unreached = append(r.Unreached, l)
			}
		}
		mk := func(in []interp.InputVal, sched []int) natCase {
			return natCase{Harness: h.Fn, Params: tc.Params, Inputs: in, Sched: sched, Free: h.Free, Clock: h.Clock}
		}
		dir := filepath.Join(scratch, h.Pkg)
		// translator validation
		if len(x.Samples) > 0 && !h.NoSample {
			if nb := native(h.Pkg); nb.err == nil {
				var cs []natCase
				for _, s := range x.Samples {
					cs = append(cs, mk(s.Inputs, s.Sched))
				}
				for i, nr := range runNative(dir, nb.bin, true, cs, 60*time.Second) {
					s := x.Samples[i]
					switch {
					case nr.Status == "norun":
					case (nr.Status == "assert" || nr.Status == "panic") && !nr.Diverged:
						viol = append(viol, replayFile{Property: *id, Pkg: h.Pkg, Kind: nr.Status, Msg: strings.Join(nr.Msgs, "; "), Case: cs[i], Native: nr, How: "a path the solver found no violation on fails when compiled natively"})
					case nr.Status != "ok" || nr.Diverged || (!h.Free && strings.Join(nr.Obs, "|") != strings.Join(s.Obs, "|")):
						r.Mismatch = append(r.Mismatch, fmt.Sprintf("inputs %v sched %v: symbolic %v, native %s %v %v %s", s.Inputs, s.Sched, s.Obs, nr.Status, nr.Obs, nr.Msgs, firstLine(nr.Note)))
					default:
						r.Validated++
					}
				}
			}
		}
		for i, s := range x.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Harness, "inputs": s.Inputs, "schedule": s.Sched, "observed": s.Obs})
			}
		}
		// counterexamples
		for _, v := range x.Viol {
			ki := -1
			for i, k := range known {
				if k.Property == *id && k.Status == "known" && k.Harness == h.Pkg+"."+h.Fn && k.Kind == v.Kind && k.Msg == v.Msg {
					ki = i
				}
			}
			rf := replayFile{Property: *id, Pkg: h.Pkg, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Case: mk(v.Inputs, v.Sched)}
			ok, why := confirm(&rf, dir, native(h.Pkg).bin, h)
			if !ok {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s: %s at %s inputs %v sched %v (%s)", v.Kind, v.Msg, v.Where, v.Inputs, v.Sched, why))
				continue
			}
			if ki >= 0 {
				knownHit[ki] = true
				continue
			}
			viol = append(viol, rf)
		}
		r.WallS = st.Wall.Seconds()
		reps = append(reps, r)
		if !st.Exhausted {
			warns = append(warns, r.Harness+": time budget reached before the bounded space was exhausted")
		}
		if len(st.Unsupported) > 0 {
			warns = append(warns, fmt.Sprintf("%s: %d kinds of construct outside the encoding: %v", r.Harness, len(st.Unsupported), keys(st.Unsupported)))
		}
		if len(r.Unreached) > 0 {
			warns = append(warns, fmt.Sprintf("%s: expected situations not reached: %v", r.Harness, r.Unreached))
		}
		if len(r.Mismatch) > 0 {
			warns = append(warns, fmt.Sprintf("%s: %d native replays differ from the symbolic execution: %s", r.Harness, len(r.Mismatch), r.Mismatch[0]))
		}
		for _, u := range r.Unconfirmed {
			warns = append(warns, "unconfirmed counterexample (not reported): "+r.Harness+": "+u)
		}
		if len(viol) > 0 && *tier == "quick" && *only == "" {
			break
		}
	}
	for i, v := range viol {
		p := filepath.Join(evDir, fmt.Sprintf("%s.replay%d.json", *id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, p)
		fmt.Printf("  %s.%s: %s: %s\n", v.Pkg, v.Case.Harness, v.Kind, v.Msg)
		nviol++
	}
	for i, k := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k.Text)
		}
	}
	for _, w := range warns {
		fmt.Println("note:", w)
	}
	writeEvidence(*id, *tier, seed, cc, lr, reps, samples, warns, nviol, t0)
	q, s := 0, 0.0
	p := 0
	for _, r := range reps {
		q += r.Queries
		s += r.SolverS
		p += r.Completed
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d violations, %.1fs\n", *id, *tier, len(reps), p, q, s, nviol, time.Since(t0).Seconds())
	if nviol > 0 {
		os.RemoveAll(scratch)
		os.Exit(1)
	}
}

func keys(m map[string]int) []string {
	var out []string
	for k := range m {
		if len(k) > 300 {
			k = k[:300]
		}
		out = append(out, k)
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = out[:5]
	}
	return out
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// confirm replays a counterexample against the natively compiled code.
func confirm(rf *replayFile, dir, bin string, h harnessCfg) (bool, string) {
	if bin == "" {
		return false, "no native build"
	}
	match := func(r natResult) bool {
		switch rf.Kind {
		case "assert":
			return r.Status == "assert" || r.Status == "panic" || r.Status == "crash"
		case "panic":
			return r.Status == "panic" || r.Status == "crash" || r.Status == "assert"
		case "deadlock", "livelock":
			return r.Status == "stuck" || r.Status == "crash"
		case "race":
			return r.Status == "race"
		}
		return false
	}
	last := ""
	try := func(c natCase, b string, limit time.Duration) bool {
		r := runNative(dir, b, true, []natCase{c}, limit)[0]
		last = r.Status + " " + strings.Join(r.Msgs, "; ") + " " + firstLine(r.Note)
		if match(r) {
			rf.Case = c
			rf.Native = r
			rf.Native.Note = strings.TrimSpace(r.Note + "\n" + r.Stderr)
			return true
		}
		return false
	}
	c := rf.Case
	c.Timeout = 5000
	if rf.Kind == "race" {
		rb, err := buildNative(dir, rf.Pkg, true)
		if err != nil {
			return false, err.Error()
		}
		rf.Race = true
		c.Free, c.Repeat, c.Budget = true, 20000, 30000
		rf.How = "run freely under the race detector until it reports"
		return try(c, rb, 40*time.Second), last
	}
	if !c.Free {
		rf.How = "recorded inputs and schedule"
		if h.MapOrder {
			c.Repeat, c.Budget = 200, 5000
		}
		if try(c, bin, 20*time.Second) {
			return true, ""
		}
		first := last
		c.Free, c.Repeat, c.Budget = true, 20000, 15000
		rf.How = "recorded inputs, free schedule, repeated"
		if try(c, bin, 25*time.Second) {
			return true, ""
		}
		return false, "native: " + first + " / free: " + last
	}
	c.Repeat, c.Budget = 20000, 20000
	rf.How = "recorded inputs, free schedule, repeated"
	return try(c, bin, 30*time.Second), last
}

func writeEvidence(id, tier string, seed int, cc checkCfg, lr *load.Result, reps []harnessReport, samples []any, warns []string, nviol int, t0 time.Time) {
	var fns []string
	lr.Prog.Executed.Range(func(k, _ any) bool {
		n := k.(string)
		if !strings.Contains(n, "/zzverif/") {
			fns = append(fns, strings.ReplaceAll(n, load.RepoMod+"/", ""))
		}
		return true
	})
	sort.Strings(fns)
	ex := true
	paths, q, sat, unsat, unk, val := 0, 0, 0, 0, 0, 0
	var steps, asserts, aq, at int64
	ss := 0.0
	for _, r := range reps {
		ex = ex && r.Exhausted && len(r.Unsupported) == 0
		paths += r.Completed
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		steps += r.Steps
		asserts += r.Asserts
		aq += r.AssertQ
		at += r.AssertTriv
		ss += r.SolverS
		val += r.Validated
	}
	lvl := cc.Level
	if lvl == "" {
		lvl = "model_checking"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": lvl, "violations": nviol,
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": cc.Assumptions,
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": val,
			"rule":                                "states = symbolic paths completed (one per feasible branch outcome and per Mazurkiewicz class of schedules); transitions = SSA instructions of the repository and its dependencies executed symbolically",
			"exhaustive":                          ex,
			"samples":                             samples,
			"harnesses":                           reps,
			"functions_encoded":                   fns,
			"functions_encoded_n":                 len(fns),
			"solver":                              "z3 5.3.2 (z3-new), incremental SMT-LIB2, QF_BV + FP; z3 4.8.12 and cvc5 1.1.2 on unknown",
			"queries_discharged":                  q,
			"queries_sat":                         sat,
			"queries_unsat":                       unsat,
			"queries_unknown":                     unk,
			"solver_s":                            ss,
			"assertions_evaluated":                asserts,
			"assertions_sent_to_solver":           aq,
			"assertions_closed_by_term_rewriting": at,
			"notes":                               warns,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func replayCmd(args []string) {
	if len(args) != 1 {
		fatal("usage: gosym replay FILE")
	}
	var rf replayFile
	if err := readJSON(args[0], &rf); err != nil {
		fatal("%v", err)
	}
	d, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(d)
	bin, err := buildNative(d, rf.Pkg, rf.Race)
	if err != nil {
		fatal("%v", err)
	}
	r := runNative(d, bin, true, []natCase{rf.Case}, 60*time.Second)[0]
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
	fmt.Println(r.Stderr)
}
