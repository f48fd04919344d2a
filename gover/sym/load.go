package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is a loaded set of packages in SSA form.
type Program struct {
	Fset *token.FileSet
	SSA  *ssa.Program
	Pkgs map[string]*packages.Package // by import path, roots and dependencies
}

// Load type-checks the packages matching the patterns in dir.
func Load(dir string, env []string, patterns ...string) (*Program, error) {
	full := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOOS=linux", "GOARCH=amd64")
	full = append(full, env...)
	if _, err := exec.LookPath("go"); err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: full}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{Pkgs: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(ps, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
		p.Pkgs[q.PkgPath] = q
		p.Fset = q.Fset
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %v: %s", patterns, strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages match %v", patterns)
	}
	p.SSA, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p.SSA.Build()
	return p, nil
}

// Func finds "pkgpath.Name" or "pkgpath.(Type).Method" or "pkgpath.(*Type).Method".
func (p *Program) Func(pkg, name string) *ssa.Function {
	q := p.Pkgs[pkg]
	if q == nil {
		return nil
	}
	sp := p.SSA.Package(q.Types)
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := strings.Trim(name[:i], "()*"), name[i+1:]
		ptr := strings.Contains(name[:i], "*")
		obj, ok := q.Types.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = obj.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		return p.SSA.LookupMethod(t, q.Types, mn)
	}
	return sp.Func(name)
}

// ConstInt reads a package-level integer constant.
func (p *Program) ConstInt(pkg, name string) (int64, bool) {
	q := p.Pkgs[pkg]
	if q == nil {
		return 0, false
	}
	c, ok := q.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, exact := constInt(c.Val())
	return v, exact
}
