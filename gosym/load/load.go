// Package load builds the SSA program for a set of harness packages from the
// current working tree of the repository.
package load

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"gosym/interp"
)

const RepoMod = "github.com/lightstep/otel-launcher-go"

type Opts struct {
	Repo    string
	Overlay map[string]string // file in repo -> real file
	Files   map[string][]byte // file in repo -> content
	Subst   map[string]string // suffix of a dependency file -> replacement file ("" = drop)
	Env     []string
	Pkgs    []string
	Tags    string
}

type Result struct {
	Prog    *interp.Program
	Wall    time.Duration
	NPkgs   int
	Harness map[string]*ssa.Package
}

func Load(o Opts) (*Result, error) {
	t0 := time.Now()
	ov := map[string][]byte{}
	for k, v := range o.Files {
		ov[k] = v
	}
	for k, v := range o.Overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     o.Repo,
		Env:     o.Env,
		Fset:    fset,
		Overlay: ov,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			for suf, rep := range o.Subst {
				if strings.HasSuffix(filename, suf) {
					b, err := os.ReadFile(rep)
					if err != nil {
						return nil, err
					}
					src = b
				}
			}
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		},
	}
	pkgs, err := packages.Load(cfg, o.Pkgs...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, RepoMod) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := interp.NewProgram(prog)
	p.RepoMod = RepoMod
	p.RepoDir, _ = filepath.Abs(o.Repo)
	for _, sp := range prog.AllPackages() {
		p.ByPath[sp.Pkg.Path()] = sp
	}
	r := &Result{Prog: p, NPkgs: len(prog.AllPackages()), Harness: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		sp := p.ByPath[pk.PkgPath]
		if sp == nil {
			return nil, fmt.Errorf("load: no SSA for %s", pk.PkgPath)
		}
		r.Harness[pk.PkgPath] = sp
	}
	r.Wall = time.Since(t0)
	return r, nil
}
