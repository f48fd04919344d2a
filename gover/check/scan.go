package check

import (
	"fmt"
	"go/ast"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

func (s *Subject) scanFn() (*ssa.Function, *contract.Func, error) {
	fn := s.P.Func(scanPkg, "ScanGraphemeClusters")
	con := s.Con.Lookup("textseg", "ScanGraphemeClusters")
	if fn == nil || con == nil {
		return nil, nil, fmt.Errorf("no ScanGraphemeClusters or no contract for it")
	}
	if len(fn.Params) != 2 || fn.Signature.Results().Len() != 3 {
		return nil, nil, fmt.Errorf("ScanGraphemeClusters has another signature")
	}
	return fn, con, nil
}

// scanEnv evaluates the contract of the scan for some results.
func (s *Subject) scanEnv(fn *ssa.Function, con *contract.Func, args, res []sym.Value, suffix string, vars map[string]contract.TV) map[string]contract.TV {
	if vars == nil {
		vars = map[string]contract.TV{}
	}
	for i, n := range con.Params {
		vars[n+suffix] = contract.TV{V: args[i], Typ: fn.Params[i].Type()}
	}
	for i, n := range con.Results {
		if res != nil {
			vars[n+suffix] = contract.TV{V: res[i], Typ: fn.Signature.Results().At(i).Type()}
		}
	}
	return vars
}

// hasClause says whether the lookup contract has something for a property.
func hasClause(c *contract.Func, tag string) bool {
	for _, cl := range c.Clauses {
		if cl.Has(tag) {
			return true
		}
	}
	for _, p := range c.Pairs {
		if strings.Contains(" "+p.Tag+" ", " "+tag+" ") {
			return true
		}
	}
	return false
}

// scanSys is the scan as a transition system, LookupFirstChar replaced by its
// contract where that has clauses for the property.
func (s *Subject) scanSys(r *Report, tag string) (*Sys, *contract.Func, error) {
	y, con, _, err := s.scanSysL(r, tag, false)
	return y, con, err
}

func (s *Subject) scanSysL(r *Report, tag string, inline bool) (*Sys, *contract.Func, *lookupSum, error) {
	fn, con, err := s.scanFn()
	if err != nil {
		return nil, nil, nil, err
	}
	var sites []*Site
	var hook func(c *sym.Call) ([]sym.Outcome, bool)
	var errs []error
	l, lerr := s.lookup()
	used := 0
	if lerr == nil && !inline && os.Getenv("GOVER_INLINE") == "" && hasClause(l.con, tag) {
		h := s.lookupHook(l, tag, &sites, &errs)
		hook = func(c *sym.Call) ([]sym.Outcome, bool) {
			o, ok := h(c)
			if ok {
				used++
			}
			return o, ok
		}
	}
	t0 := time.Now()
	y := s.execFn(fn, con.Params, hook)
	r.logf("executed %s in %.1fs: %d loops, %d returns, %d obligations", fn.Name(), time.Since(t0).Seconds(), len(y.Loops), len(y.Outs), len(y.Obl))
	y.Sites = sites
	if len(errs) > 0 {
		return nil, nil, nil, errs[0]
	}
	r.Functions[fn.String()] = "contract"
	for n, k := range y.Calls {
		if n != fn.String() && k > 0 {
			if l != nil && n == l.fn.String() {
				continue
			}
			r.Functions[n] = "inlined"
		}
	}
	if used > 0 {
		s.proveLookup(r, l, tag)
	} else if l != nil {
		r.Functions[l.fn.String()] = "inlined"
	}
	if used == 0 {
		l = nil
	}
	return y, con, l, nil
}

// posts proves the plain postconditions of the scan tagged for a property.
func (s *Subject) posts(r *Report, tag string) (*Sys, error) {
	y, con, err := s.scanSys(r, tag)
	if err != nil {
		return nil, err
	}
	if y, err = y.eliminate(r); err != nil {
		return nil, err
	}
	// templates: a postcondition read with a loop counter for the advance
	ghost := map[string]contract.TV{}
	for _, g := range con.Ghost {
		ghost[g] = contract.TV{V: term.Var("ghost."+g, term.BV(64)), Typ: tInt}
	}
	eval := func(x ast.Expr, res []sym.Value) (*term.Term, error) {
		vars := s.scanEnv(y.Fn, con, y.Args, res, "", nil)
		for k, v := range ghost {
			vars[k] = v
		}
		return s.env(y.Fn.Pkg.Pkg, vars).Bool(x)
	}
	t0 := time.Now()
	y.numeric()
	if err := y.houdini(nil); err != nil {
		return nil, err
	}
	y.prune()
	hints := false
	for _, cl := range con.Clauses {
		hints = hints || cl.Kind == "hint" && cl.Has(tag)
	}
	for _, l := range y.Loops {
		for _, v := range l.Vars {
			if v.Var.S != term.BV(64) {
				continue
			}
			for _, cl := range con.Clauses {
				if !cl.Has(tag) || hints && cl.Kind != "hint" || mentions(cl.Expr, con.Results[1], con.Results[2]) || !mentions(cl.Expr, con.Results[0]) {
					continue
				}
				t, err := eval(cl.Expr, []sym.Value{v.Var, nil, nil})
				if err != nil {
					return nil, fmt.Errorf("contract line %d: %v", cl.Line, err)
				}
				y.addCand(l, fmt.Sprintf("clause %d at %s", cl.Line, v.Name), t)
			}
		}
	}
	if err := y.houdini(nil); err != nil {
		return nil, err
	}
	r.logf("invariants in %.1fs", time.Since(t0).Seconds())
	y.recheck(r, nil)
	y.safety(r, "unsupported")
	n := 0
	for _, cl := range con.Clauses {
		if !cl.Has(tag) || cl.Kind != "ensures" {
			continue
		}
		for i, o := range y.Outs {
			t, err := eval(cl.Expr, o.Res)
			if err != nil {
				return nil, fmt.Errorf("contract line %d: %v", cl.Line, err)
			}
			n++
			it := r.prove(y.Fn.String(), "post", fmt.Sprintf("%s (return %d)", cl.Text, i+1), fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
			y.seed(it)
		}
	}
	r.logf("%d posts", n)
	return y, nil
}

// seed keeps the input a counterexample suggests.
func (y *Sys) seed(it *Item) {
	if it.model == nil {
		return
	}
	for _, a := range y.Args {
		if sl, ok := a.(*sym.SliceV); ok {
			if b, ok := modelBytes(it.model, sl); ok {
				it.seeds = append(it.seeds, b)
			}
		}
	}
}

func mentions(x ast.Expr, names ...string) bool {
	hit := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, m := range names {
				if id.Name == m {
					hit = true
				}
			}
		}
		return true
	})
	return hit
}

// reachable guards against vacuity: each way out and each loop can be reached
// as far as the solver can tell.
func (y *Sys) reachable(r *Report) {
	sat := func(src *sym.Loop, g *term.Term) bool {
		return prove.Prove(prove.VC{Hyps: y.hyps(src), Guard: g, Goal: term.False}, prove.Options{Limit: 5 * time.Second, MaxBits: 0}).Status != prove.Valid
	}
	for _, l := range y.Loops {
		if !sat(l.Src, l.G) {
			r.fail(y.Fn.String(), "cover", "loop "+l.Key+" is reachable", "not under the assumptions")
			return
		}
	}
	n := 0
	for _, o := range y.Outs {
		if sat(o.Src, o.G) {
			n++
		}
	}
	if n == 0 {
		r.fail(y.Fn.String(), "cover", "some return is reachable", "no return is reachable under the assumptions")
		return
	}
	r.ok(y.Fn.String(), "cover", fmt.Sprintf("%d loops, %d of %d returns reachable", len(y.Loops), n, len(y.Outs)), "z3")
}
