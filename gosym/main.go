package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"gosym/interp"
	"gosym/load"
)

var (
	repo  = "/repo"
	verif = "/verif"
)

const harnessDir = "lightstep/sdk/metric/zzverif"

// stubMod is a copy of the module file that replaces the modules which stubs
// exist for; harness packages with a file named STUBS use it.
func stubMod(dirs []string) (string, error) {
	use := false
	for _, d := range dirs {
		if _, err := os.Stat(filepath.Join(verif, "harness", d, "STUBS")); err == nil {
			use = true
		}
	}
	if !use {
		return "", nil
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	gm, _ := filepath.Glob(filepath.Join(verif, "stubs", "*", "go.mod"))
	text := string(b) + "\n"
	for _, g := range gm {
		c, err := os.ReadFile(g)
		if err != nil {
			return "", err
		}
		line, _, _ := strings.Cut(string(c), "\n")
		text += "replace " + strings.TrimSpace(strings.TrimPrefix(line, "module ")) + " => " + filepath.Dir(g) + "\n"
	}
	dir, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0o644); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return "", err
	}
	return filepath.Join(dir, "go.mod"), nil
}

func stubEnv(dirs []string) ([]string, func(), error) {
	env := goEnv()
	m, err := stubMod(dirs)
	if err != nil || m == "" {
		return env, func() {}, err
	}
	for i, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") {
			env[i] = "GOFLAGS=-mod=mod -modfile=" + m
		}
	}
	return env, func() { os.RemoveAll(filepath.Dir(m)) }, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOSUMDB", "GO111MODULE", "GOENV", "PATH", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	bin := filepath.Join(verif, "gobin")
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "PATH="+bin+":"+os.Getenv("PATH"))
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

func overlayBase(dirs []string) map[string]string {
	ov := map[string]string{}
	ov[filepath.Join(repo, "zzverif/rt/rt.go")] = filepath.Join(verif, "rt/rt.go")
	for _, in := range standIns {
		ov[filepath.Join(repo, "zzverif", in[1], in[1]+".go")] = filepath.Join(verif, "shim", in[1], in[1]+".go")
	}
	for _, d := range dirs {
		ms, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, m := range ms {
			ov[filepath.Join(repo, harnessDir, d, filepath.Base(m))] = m
		}
	}
	ms, _ := filepath.Glob(filepath.Join(verif, "harness", "hlib", "*.go"))
	for _, m := range ms {
		ov[filepath.Join(repo, harnessDir, "hlib", filepath.Base(m))] = m
	}
	return ov
}

func loadHarness(dirs []string) (*load.Result, error) {
	var pk []string
	for _, d := range dirs {
		pk = append(pk, "./"+harnessDir+"/"+d)
	}
	env, done, err := stubEnv(dirs)
	if err != nil {
		return nil, err
	}
	defer done()
	files, err := withStandIns()
	if err != nil {
		return nil, err
	}
	return load.Load(load.Opts{Repo: repo, Files: files, Overlay: overlayBase(dirs), Env: env, Pkgs: pk})
}

func main() {
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("GOSYM_VERIF"); v != "" {
		verif = v
	}
	os.Setenv("PATH", filepath.Join(verif, "gobin")+":"+os.Getenv("PATH"))
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runCmd(os.Args[2:])
	case "check":
		checkCmd(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func runCmd(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "smoke", "harness package")
	fn := fs.String("fn", "", "function")
	secs := fs.Int("t", 60, "seconds")
	w := fs.Int("w", 8, "workers")
	v := fs.Bool("v", false, "verbose")
	race := fs.Bool("race", false, "race check")
	mo := fs.Bool("maporder", false, "")
	sh := fs.Bool("symhash", false, "")
	stime := fs.Bool("symtime", false, "")
	prof := fs.String("prof", "", "cpu profile")
	params := fs.String("p", "", "k=v,...")
	nodpor := fs.Bool("nodpor", false, "")
	outc := fs.Bool("outcomes", false, "")
	clk := fs.Bool("clock", false, "")
	maxp := fs.Int("paths", 0, "")
	fs.Parse(args)
	r, err := loadHarness([]string{*pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded %d packages in %.1fs\n", r.NPkgs, r.Wall.Seconds())
	sp := r.Harness[load.RepoMod+"/"+harnessDir+"/"+*pkg]
	f := sp.Func(*fn)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no function", *fn)
		os.Exit(2)
	}
	cfg := interp.Config{Harness: *fn, MaxSteps: 20000000, Deadline: time.Now().Add(time.Duration(*secs) * time.Second), Workers: *w, Solver: "z3-new",
		Timeout: 10000, Verbose: *v, RaceCheck: *race, MapOrder: *mo, SymHash: *sh, SymTime: *stime, NoDPOR: *nodpor, ClockDep: *clk, Params: map[string]int{}, MaxPaths: *maxp}
	for _, kv := range strings.Split(*params, ",") {
		if k, x, ok := strings.Cut(kv, "="); ok {
			n := 0
			fmt.Sscan(x, &n)
			cfg.Params[k] = n
		}
	}
	if *prof != "" {
		fh, _ := os.Create(*prof)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	x := interp.NewExplorer(r.Prog, f, cfg)
	x.MaxSamples = 3
	if *outc {
		x.Outcomes = map[string]int{}
	}
	x.Run()
	st := x.St
	fmt.Printf("paths=%d completed=%d assumed=%d sleepcut=%d limited=%d restarts=%d exhausted=%v wall=%.2fs\n", st.Paths, st.Completed, st.Assumed, st.SleepCut, st.Limited, st.Restarts, st.Exhausted, st.Wall.Seconds())
	fmt.Printf("steps=%d asserts=%d (queried %d trivial %d unknown %d) queries=%d sat=%d unsat=%d unk=%d errs=%d solver=%.2fs max=%.2fs threads=%d schedpts=%d\n", st.Steps, st.Asserts, st.AssertQ, st.AssertTriv, st.AssertUnk,
		st.Queries, st.Sat, st.Unsat, st.Unknown, st.SolverErrs, st.SolverTime.Seconds(), st.MaxQuery.Seconds(), st.MaxThreads, st.SchedPoints)
	fmt.Println("reached:", st.Reached)
	var us []string
	for k, n := range st.Unsupported {
		us = append(us, fmt.Sprintf("%6d %s", n, k))
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Println("  UNSUPPORTED", u)
	}
	for _, vi := range x.Viol {
		fmt.Printf("VIOL %s: %s at %s\n   inputs %v\n   sched %v\n", vi.Kind, vi.Msg, vi.Where, vi.Inputs, vi.Sched)
	}
	var ok []string
	for k := range x.Outcomes {
		ok = append(ok, k)
	}
	sort.Strings(ok)
	for _, k := range ok {
		fmt.Println("  outcome", k)
	}
	for _, s := range x.Samples {
		fmt.Printf("sample %v obs=%v sched=%v\n", s.Inputs, s.Obs, s.Sched)
	}
}
