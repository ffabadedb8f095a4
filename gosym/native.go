package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"gosym/interp"
	"gosym/load"
)

// The native side: the same harness and the same repository sources, compiled
// by the Go compiler, with the imports of sync, sync/atomic, time, runtime and
// go-farm redirected to shims that add scheduling points and replay recorded
// clock readings and fingerprints.

var shimFor = map[string][2]string{ // import path -> default name, shim
	"sync":                       {"sync", "zsync"},
	"sync/atomic":                {"atomic", "zatomic"},
	"time":                       {"time", "ztime"},
	"runtime":                    {"runtime", "zruntime"},
	"github.com/dgryski/go-farm": {"farm", "zfarm"},
}

// The instrumentation reads the operating system and the runtime through
// stand-ins, here as well as in the symbolic execution.
var standIns = map[string][2]string{
	"runtime/metrics": {"metrics", "zmetrics"},
	"syscall":         {"syscall", "zsyscall"},
}

const instrumentationDir = "/lightstep/instrumentation/"

// withStandIns is the content of the instrumentation's files for the loader.
func withStandIns() (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(filepath.Join(repo, instrumentationDir), func(p string, fi os.FileInfo, err error) error {
		if os.IsNotExist(err) {
			return nil
		}
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.ImportsOnly)
		if err != nil {
			return err
		}
		changed := false
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			in, ok := standIns[strings.Trim(im.Path.Value, "\"`")]
			if !ok {
				continue
			}
			t := fmt.Sprintf("%q", load.RepoMod+"/zzverif/"+in[1])
			if im.Name == nil {
				t = in[0] + " " + t
			}
			at, end := int(im.Path.Pos()-f.FileStart), int(im.Path.End()-f.FileStart)
			src = append(append(append([]byte(nil), src[:at]...), t...), src[end:]...)
			changed = true
		}
		if changed {
			out[p] = src
		}
		return nil
	})
	return out, err
}

type edit struct {
	off, end int
	text     string
}

func rewriteSource(name string, src []byte, shims bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		sh, ok := shimFor[path]
		if !shims {
			ok = false
		}
		if in, has := standIns[path]; has && strings.Contains(name, instrumentationDir) {
			sh, ok = in, true
		}
		if !ok {
			continue
		}
		t := fmt.Sprintf("%q", load.RepoMod+"/zzverif/"+sh[1])
		if im.Name == nil {
			t = sh[0] + " " + t
		}
		eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
	}
	gos := 0
	wrap := func(e ast.Expr, open string) {
		gos++
		eds = append(eds, edit{off(e.Pos()), off(e.Pos()), open}, edit{off(e.End()), off(e.End()), ")"})
	}
	// the channel operand of a communication
	chanOf := func(n ast.Node) ast.Expr {
		switch x := n.(type) {
		case *ast.SendStmt:
			return x.Chan
		case *ast.ExprStmt:
			if u, ok := ast.Unparen(x.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return u.X
			}
		case *ast.AssignStmt:
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && len(x.Rhs) == 1 && u.Op == token.ARROW {
				return u.X
			}
		}
		return nil
	}
	gated := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			gos++
			eds = append(eds, edit{off(x.Pos()), off(x.Call.Pos()), "zzrt.Go(func() { "}, edit{off(x.End()), off(x.End()), " })"})
		case *ast.SelectStmt:
			if len(x.Body.List) == 1 {
				return true
			}
			i := 0
			for _, c := range x.Body.List {
				if e := chanOf(c.(*ast.CommClause).Comm); e != nil {
					wrap(e, fmt.Sprintf("zzrt.Gate(%d, ", i))
					gated[e] = true
					i++
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !gated[x.X] {
				wrap(x.X, "zzrt.Chan(")
			}
		case *ast.SendStmt:
			if !gated[x.Chan] {
				wrap(x.Chan, "zzrt.Chan(")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				wrap(x.Args[0], "zzrt.Chan(")
			}
		}
		return true
	})
	if gos > 0 {
		e := off(f.Name.End())
		eds = append(eds, edit{e, e, "; import zzrt \"" + load.RepoMod + "/zzverif/rt\""})
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out bytes.Buffer
	at := 0
	for _, e := range eds {
		out.Write(src[at:e.off])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes(), true, nil
}

// buildNative compiles one harness package into dir.
func buildNative(dir, pkg string, race bool) (string, error) {
	ov := map[string]string{}
	n := 0
	put := func(dst, srcFile string, shims bool) error {
		b, err := os.ReadFile(srcFile)
		if err != nil {
			return err
		}
		r, ch, err := rewriteSource(srcFile, b, shims)
		if err != nil {
			return err
		}
		if !ch {
			if dst != srcFile {
				ov[dst] = srcFile
			}
			return nil
		}
		n++
		p := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(srcFile)))
		ov[dst] = p
		return os.WriteFile(p, r, 0o644)
	}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "examples" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		return put(p, p, true)
	})
	if err != nil {
		return "", err
	}
	for dst, src := range overlayBase([]string{pkg}) {
		if strings.HasPrefix(dst, filepath.Join(repo, "zzverif")+"/") {
			ov[dst] = src
			continue
		}
		if err := put(dst, src, true); err != nil {
			return "", err
		}
	}
	// goroutines and channels of dependencies
	env, done, err := stubEnv([]string{pkg})
	if err != nil {
		return "", err
	}
	defer done()
	for p := range interp.Controlled {
		cmd := exec.Command(filepath.Join(verif, "gobin", "go"), "list", "-f", "{{.Dir}}{{range .GoFiles}} {{.}}{{end}}", p)
		cmd.Dir, cmd.Env = repo, env
		out, err := cmd.Output()
		if err != nil {
			return "", fmt.Errorf("go list %s: %v", p, err)
		}
		fs := strings.Fields(string(out))
		for _, f := range fs[1:] {
			n := filepath.Join(fs[0], f)
			if err := put(n, n, false); err != nil {
				return "", err
			}
		}
	}
	ms, _ := filepath.Glob(filepath.Join(verif, "shim", "*", "*.go"))
	for _, m := range ms {
		ov[filepath.Join(repo, "zzverif", filepath.Base(filepath.Dir(m)), filepath.Base(m))] = m
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		bin += "-race"
		args[len(args)-1] = bin
		args = append(args, "-race")
	}
	args = append(args, "./"+harnessDir+"/"+pkg)
	cmd := exec.Command(filepath.Join(verif, "gobin", "go"), args...)
	cmd.Dir = repo
	cmd.Env = append(env[:len(env):len(env)], "GODEBUG=goindex=0") // or imports added to a dependency are not seen
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

type natCase struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params,omitempty"`
	Inputs  []interp.InputVal `json:"inputs"`
	Sched   []int             `json:"sched"`
	Free    bool              `json:"free,omitempty"`
	Repeat  int               `json:"repeat,omitempty"`
	Timeout int               `json:"timeout_ms,omitempty"`
	Clock   bool              `json:"clock,omitempty"`
	Budget  int               `json:"budget_ms,omitempty"`
}

type natResult struct {
	Case     int      `json:"case"`
	Status   string   `json:"status"`
	Msgs     []string `json:"msgs"`
	Obs      []string `json:"obs"`
	Diverged bool     `json:"diverged"`
	Note     string   `json:"note"`
	Stderr   string   `json:"-"`
}

// runNative runs the cases one process after another (a stuck or crashed case
// ends its process; the remaining cases go to the next one; with fresh every case
// has its own process).
func runNative(dir, bin string, fresh bool, cases []natCase, limit time.Duration) []natResult {
	res := make([]natResult, len(cases))
	for i := range res {
		res[i] = natResult{Case: i, Status: "norun"}
	}
	deadline := time.Now().Add(limit)
	from := 0
	for from < len(cases) && time.Now().Before(deadline) {
		to := len(cases)
		if fresh {
			to = from + 1
		}
		js, _ := json.Marshal(cases[from:to])
		cf := filepath.Join(dir, "cases.json")
		os.WriteFile(cf, js, 0o644)
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Dir = dir
		for _, e := range goEnv() {
			if !strings.HasPrefix(e, "OTEL_") && !strings.HasPrefix(e, "LS_") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "GOSYM_REPLAY="+cf, "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=8", "GOTRACEBACK=all")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		cancel()
		n := 0
		dec := json.NewDecoder(&out)
		for {
			var r natResult
			if dec.Decode(&r) != nil {
				break
			}
			r.Case += from
			if r.Case < len(res) {
				res[r.Case] = r
			}
			n++
		}
		es := errb.String()
		if len(es) > 8000 {
			es = es[:8000]
		}
		if from+n >= len(cases) {
			break
		}
		if from+n >= to {
			from += n
			continue
		}
		if n > 0 && res[from+n-1].Status == "stuck" {
			from += n
			continue
		}
		r := natResult{Case: from + n, Status: "crash", Stderr: es}
		if err == nil {
			r.Status = "norun"
		} else if ctx.Err() != nil {
			r.Status = "stuck"
		}
		if strings.Contains(es, "DATA RACE") {
			r.Status = "race"
		} else if i := strings.Index(es, "fatal error: "); i >= 0 {
			r.Msgs = []string{strings.SplitN(es[i:], "\n", 2)[0]}
		} else if i := strings.Index(es, "panic: "); i >= 0 {
			r.Msgs = []string{strings.SplitN(es[i:], "\n", 2)[0]}
		}
		res[from+n] = r
		from += n + 1
	}
	return res
}

