package check

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

// Site is a call that was replaced by the callee's contract.
type Site struct {
	Fn   *ssa.Function
	Args []sym.Value
	Res  []sym.Value
	G    *term.Term
	Src  *sym.Loop
}

// Duo is two copies of a system, run side by side.
type Duo struct {
	A, B  *Sys
	Facts []*term.Term
	fixes []func(m map[*term.Term]*term.Term, t *term.Term)
}

// fix reads the bytes both buffers have in common from the first one.
func (d *Duo) fix(t *term.Term) *term.Term {
	m := map[*term.Term]*term.Term{}
	for _, f := range d.fixes {
		term.Walk([]*term.Term{t}, func(t *term.Term) { f(m, t) })
	}
	if len(m) == 0 {
		return t
	}
	return term.Subst(t, m)
}

// duo makes two copies over separate variables, the second reading from the
// first one's buffer where share says so.
func (y *Sys) duo(share func(a, b *sym.SliceV, i *term.Term) *term.Term) *Duo {
	none := func(*term.Term) (*term.Term, bool) { return nil, false }
	d := &Duo{A: y.rename("1", none), B: y.rename("2", none)}
	if share == nil {
		return d
	}
	for i := range y.Args {
		a, ok1 := d.A.Args[i].(*sym.SliceV)
		b, ok2 := d.B.Args[i].(*sym.SliceV)
		if !ok1 || !ok2 {
			continue
		}
		aa, ok1 := content(a)
		ba, ok2 := content(b)
		if !ok1 || !ok2 || ba.Op != term.OpVar {
			continue
		}
		own := term.Var(ba.Name+".own", ba.S)
		f := func(m map[*term.Term]*term.Term, t *term.Term) {
			if t.Op == term.OpSelect && t.Args[0] == ba {
				m[t] = term.Ite(share(a, b, t.Args[1]), term.Select(aa, t.Args[1]), term.Select(own, t.Args[1]))
			}
		}
		m := map[*term.Term]*term.Term{}
		d.B.walk(func(t *term.Term) { f(m, t) })
		d.B = d.B.subst(term.NewSubst(m))
		d.fixes = append(d.fixes, f)
	}
	return d
}

// walk visits every term of a system.
func (y *Sys) walk(f func(*term.Term)) {
	term.Walk(y.all(), f)
}

func (d *Duo) facts() []*term.Term {
	return append(append(append([]*term.Term{}, d.A.Facts...), d.B.Facts...), d.Facts...)
}

type pos struct {
	a, b *sym.Loop
}

// prove shows that every pair of results satisfies the goals, given what is
// known of the two inputs.
func (d *Duo) prove(r *Report, what string, names []string, where []string, goals func(a, b []sym.Value) ([]*term.Term, error)) error {
	A, B := d.A, d.B
	g := &Graph{Facts: d.facts()}
	nodes := map[pos]*Node{}
	fixed := func(a, b *sym.Loop) []*term.Term { return append(A.invHyps(a), B.invHyps(b)...) }
	get := func(a, b *sym.Loop) *Node {
		p := pos{a, b}
		n := nodes[p]
		if n == nil {
			n = &Node{Name: a.Key + " | " + b.Key, Pos: posStr(A.S.P.Fset, a.Pos, A.S.Cfg.Repo), G: term.And(a.G, b.G), Fixed: fixed(a, b), Cands: relational(A, B, a, b, true)}
			nodes[p] = n
			g.Nodes = append(g.Nodes, n)
		}
		return n
	}
	edgesFrom := func(y *Sys, src *sym.Loop) (r []*sym.Edge, to []*sym.Loop) {
		for _, l := range y.Loops {
			for _, e := range l.In {
				if e.Src == src {
					r, to = append(r, e), append(to, l)
				}
			}
		}
		return
	}
	outsFrom := func(y *Sys, src *sym.Loop) (r []sym.Outcome) {
		for _, o := range y.Outs {
			if o.Src == src {
				r = append(r, o)
			}
		}
		return
	}
	// the reachable pairs of program points
	work := []pos{{nil, nil}}
	seen := map[pos]bool{{nil, nil}: true}
	var order []pos
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		order = append(order, p)
		ea, la := edgesFrom(A, p.a)
		eb, lb := edgesFrom(B, p.b)
		for i := range ea {
			for j := range eb {
				gd := term.And(ea[i].G, eb[j].G)
				if gd.IsFalse() {
					continue
				}
				n := get(la[i], lb[j])
				var from *Node
				if p.a != nil {
					from = nodes[p]
				}
				m := map[*term.Term]*term.Term{}
				for k, e := range []*sym.Edge{ea[i], eb[j]} {
					l := []*sym.Loop{la[i], lb[j]}[k]
					for _, v := range l.Vars {
						if w, ok := e.Vals[v.Name]; ok {
							m[v.Var] = w
						} else {
							m[v.Var] = term.Fresh("lost", v.Var.S)
						}
					}
				}
				g.Arcs = append(g.Arcs, &Arc{From: from, To: n, G: gd, Map: m, Back: from != nil})
				if q := (pos{la[i], lb[j]}); !seen[q] {
					seen[q] = true
					work = append(work, q)
				}
			}
		}
		if (p.a == nil) != (p.b == nil) {
			return fmt.Errorf("pair: impossible position")
		}
	}
	// the point both came from, where there is only one
	for p, n := range nodes {
		if p.a.Src != nil && p.b.Src != nil {
			n.Parent = nodes[pos{p.a.Src, p.b.Src}]
		}
		for _, a := range g.Arcs {
			if a.To == n && a.From != n.Parent && a.From != n {
				if a.From == nil || !inside(nodes, a.From, p) {
					n.Parent = nil
				}
			}
		}
	}
	t0 := time.Now()
	if err := g.Houdini(); err != nil {
		return err
	}
	// where not all of the state is equal, look for weaker relations
	more := false
	for p, n := range nodes {
		eq := map[*term.Term]bool{}
		for _, c := range n.Cands {
			eq[c.T] = true
		}
		for _, v := range p.a.Vars {
			for _, w := range p.b.Vars {
				if p.a.Key == p.b.Key && v.Name == w.Name && !eq[term.Eq(v.Var, w.Var)] {
					more = true
				}
			}
		}
		more = more || p.a.Key != p.b.Key
	}
	if more {
		for p, n := range nodes {
			n.Cands = append(n.Cands, relational(A, B, p.a, p.b, false)...)
		}
		if err := g.Houdini(); err != nil {
			return err
		}
	}
	nc := 0
	for _, n := range g.Nodes {
		nc += len(n.Cands)
	}
	r.logf("pair %s: %d points, %d arcs, %d relations in %.1fs", what, len(g.Nodes), len(g.Arcs), nc, time.Since(t0).Seconds())
	fn := A.Fn.String()
	g.Recheck(r, fn)
	hyps := func(p pos) []*term.Term {
		h := append([]*term.Term{}, g.Facts...)
		if n := nodes[p]; n != nil {
			h = append(h, n.hyps()...)
		}
		return h
	}
	fresh := func(y *Sys) ([]sym.Value, error) {
		var vs []sym.Value
		res := y.Fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if sl, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
				vs = append(vs, &sym.SliceV{Obj: &sym.Obj{Name: "other"}, Off: term.Fresh("other.off", term.BV(64)), Len: term.Fresh("other.len", term.BV(64)), Cap: term.Fresh("other.cap", term.BV(64)), Nil: term.Fresh("other.nil", term.Bool), Elem: sl.Elem()})
				continue
			}
			v, err := sym.FreshVal("other", res.At(i).Type())
			if err != nil {
				v = &sym.OpaqueV{Name: "other"}
			}
			vs = append(vs, v)
		}
		return vs, nil
	}
	failed := false
	check := func(p pos, gd *term.Term, ra, rb []sym.Value, label string) error {
		if gd.IsFalse() {
			return nil
		}
		gs, err := goals(ra, rb)
		if err != nil && label != "" {
			// nothing is known of the other run's result: it must not happen
			gs, err = nil, nil
			for range names {
				gs = append(gs, term.False)
			}
		}
		if err != nil {
			return err
		}
		for i, goal := range gs {
			goal = d.fix(goal)
			if goal.IsTrue() {
				r.ok(fn, "post (pair)", names[i]+label, "simplifier")
				continue
			}
			it := r.prove(fn, "post (pair)", names[i]+label, where[i], prove.VC{Hyps: hyps(p), Guard: gd, Goal: goal}, prove.Default)
			failed = failed || it.Status != "proved"
			A.seed(it)
			B.seed(it)
		}
		return nil
	}
	// one run is done while the other, Y, goes on
	alone := func(p pos, Y *Sys, x sym.Outcome, on *term.Term, label string, both func([]sym.Value) ([]sym.Value, []sym.Value)) error {
		if term.And(x.G, on).IsFalse() {
			return nil
		}
		fr, err := fresh(Y)
		if err != nil {
			return err
		}
		ra, rb := both(fr)
		q := r.fork()
		q.Log = false
		was := r
		r, failed = q, false
		err = check(p, term.And(x.G, on), ra, rb, label)
		r = was
		if err != nil || !failed {
			r.join(q)
			return err
		}
		// what it goes on to return: it is followed to its end
		q = r.fork()
		r, failed = q, false
		err = d.follow(r, p, Y, x, hyps(p), func(gd *term.Term, h []*term.Term, res []sym.Value) error {
			ra, rb := both(res)
			old := hyps
			defer func() { hyps = old }()
			hyps = func(pos) []*term.Term { return h }
			return check(p, gd, ra, rb, label)
		})
		r = was
		r.join(q)
		return err
	}
	for _, p := range order {
		oa, ob := outsFrom(A, p.a), outsFrom(B, p.b)
		ea, _ := edgesFrom(A, p.a)
		eb, _ := edgesFrom(B, p.b)
		for _, x := range oa {
			for _, z := range ob {
				if err := check(p, term.And(x.G, z.G), x.Res, z.Res, ""); err != nil {
					return err
				}
			}
			var gs []*term.Term
			for _, e := range eb {
				gs = append(gs, e.G)
			}
			// the first is done while the second goes on, to end anyhow
			if err := alone(p, B, x, term.Or(gs...), " [the second goes on]", func(v []sym.Value) ([]sym.Value, []sym.Value) { return x.Res, v }); err != nil {
				return err
			}
		}
		for _, z := range ob {
			var gs []*term.Term
			for _, e := range ea {
				gs = append(gs, e.G)
			}
			if err := alone(p, A, z, term.Or(gs...), " [the first goes on]", func(v []sym.Value) ([]sym.Value, []sym.Value) { return v, z.Res }); err != nil {
				return err
			}
		}
	}
	return nil
}

// inside: the point is one entered from p, so that p's variables still hold.
func inside(nodes map[pos]*Node, n *Node, p pos) bool {
	for q, m := range nodes {
		if m == n {
			return q.a.Src == p.a && q.b.Src == p.b
		}
	}
	return false
}

// follow has Y go on by itself from a point, the other run having ended in x.
func (d *Duo) follow(r *Report, p pos, Y *Sys, x sym.Outcome, here []*term.Term, ends func(gd *term.Term, h []*term.Term, res []sym.Value) error) error {
	at, X, other := p.a, d.B, p.b
	if Y == d.B {
		at, X, other = p.b, d.A, p.a
	}
	g := &Graph{Facts: append(append(d.facts(), X.invHyps(other)...), x.G)}
	for l := other; l != nil; l = l.Src {
		g.Facts = append(g.Facts, l.G)
	}
	nodes := map[*sym.Loop]*Node{}
	var add func(src *sym.Loop, from *Node)
	add = func(src *sym.Loop, from *Node) {
		for _, l := range Y.Loops {
			for _, e := range l.In {
				if e.Src != src || e.G.IsFalse() {
					continue
				}
				n := nodes[l]
				isNew := n == nil
				if isNew {
					n = &Node{Name: l.Key, Pos: posStr(Y.S.P.Fset, l.Pos, Y.S.Cfg.Repo), G: term.True, Fixed: Y.invHyps(l), Cands: ended(Y, l, X, other, x)}
					nodes[l] = n
					g.Nodes = append(g.Nodes, n)
				}
				m := map[*term.Term]*term.Term{}
				for _, v := range l.Vars {
					if w, ok := e.Vals[v.Name]; ok {
						m[v.Var] = w
					} else {
						m[v.Var] = term.Fresh("lost", v.Var.S)
					}
				}
				gd := e.G
				if from == nil {
					gd = term.And(append([]*term.Term{gd}, here...)...)
				}
				g.Arcs = append(g.Arcs, &Arc{From: from, To: n, G: gd, Map: m, Back: from != nil})
				if isNew {
					add(l, n)
				}
			}
		}
	}
	add(at, nil)
	if err := g.Houdini(); err != nil {
		return err
	}
	g.Recheck(r, Y.Fn.String())
	for _, o := range Y.Outs {
		if n := nodes[o.Src]; n != nil {
			if err := ends(o.G, append(append([]*term.Term{}, g.Facts...), n.hyps()...), o.Res); err != nil {
				return err
			}
		}
	}
	return nil
}

// ended offers candidate relations between a loop and a run that has ended.
func ended(Y *Sys, l *sym.Loop, X *Sys, other *sym.Loop, x sym.Outcome) []*Cand {
	var out []*Cand
	seen := map[*term.Term]bool{}
	add := func(name string, t *term.Term) {
		if !t.IsTrue() && !t.IsFalse() && !seen[t] {
			seen[t] = true
			out = append(out, &Cand{Name: name, T: t})
		}
	}
	var qs []Cand
	for i, v := range x.Res {
		sym.Leaves(fmt.Sprintf("the other's result %d", i), v, func(n string, t *term.Term) {
			if !t.S.Arr {
				qs = append(qs, Cand{Name: n, T: t})
			}
		})
	}
	qs = append(qs, X.argTerms()...)
	for o := other; o != nil; o = o.Src {
		for _, v := range o.Vars {
			if !v.Var.S.Arr {
				qs = append(qs, Cand{Name: v.Name, T: v.Var})
			}
		}
	}
	for _, v := range l.Vars {
		if v.Var.S.Arr {
			continue
		}
		for _, e := range l.In {
			if w := e.Vals[v.Name]; w != nil && w.IsConst() {
				add(v.Name+" = a constant", term.Eq(v.Var, w))
			}
		}
		for _, q := range qs {
			if q.T.S != v.Var.S {
				continue
			}
			add(v.Name+" = "+q.Name, term.Eq(v.Var, q.T))
			if v.Var.S == term.BV(64) {
				add(v.Name+" <= "+q.Name, term.Sle(v.Var, q.T))
				add(v.Name+" >= "+q.Name, term.Sle(q.T, v.Var))
			}
		}
	}
	return out
}

// relational offers candidate relations between two loops.
func relational(A, B *Sys, a, b *sym.Loop, equal bool) []*Cand {
	var out []*Cand
	seen := map[*term.Term]bool{}
	add := func(name string, t *term.Term) {
		if !t.IsTrue() && !seen[t] {
			seen[t] = true
			out = append(out, &Cand{Name: name, T: t})
		}
	}
	same := a.Key == b.Key
	for _, v := range a.Vars {
		for _, w := range b.Vars {
			if v.Var.S != w.Var.S || v.Var.S.Arr {
				continue
			}
			n := v.Name + "#1 = " + w.Name + "#2"
			if equal {
				if v.Name == w.Name || !same {
					add(n, term.Eq(v.Var, w.Var))
				}
				continue
			}
			if !same || v.Name == w.Name || v.Var.S == term.BV(64) {
				add(n, term.Eq(v.Var, w.Var))
			}
			if v.Var.S == term.BV(64) && v.Name == w.Name {
				add(v.Name+"#1 <= #2", term.Sle(v.Var, w.Var))
				add(v.Name+"#1 >= #2", term.Sle(w.Var, v.Var))
				if ea, eb := a.In[0].Vals[v.Name], b.In[0].Vals[w.Name]; ea != nil && eb != nil {
					add(v.Name+" moves alike", term.Eq(term.Sub(v.Var, w.Var), term.Sub(ea, eb)))
				}
			}
		}
	}
	if equal {
		return out
	}
	for _, v := range a.Vars {
		if v.Var.S != term.BV(64) {
			continue
		}
		for _, q := range B.argTerms() {
			add(v.Name+"#1 <= "+q.Name+"#2", term.Sle(v.Var, q.T))
			add(v.Name+"#1 < "+q.Name+"#2", term.Slt(v.Var, q.T))
		}
	}
	for _, v := range b.Vars {
		if v.Var.S != term.BV(64) {
			continue
		}
		for _, q := range A.argTerms() {
			add(v.Name+"#2 <= "+q.Name+"#1", term.Sle(v.Var, q.T))
			add(v.Name+"#2 < "+q.Name+"#1", term.Slt(v.Var, q.T))
		}
	}
	return out
}

// lookupPairs relates two calls of LookupFirstChar by its pair contracts.
func (s *Subject) lookupPairs(l *lookupSum, tag string, A, B *Site, fa, fb *Sys) ([]*term.Term, error) {
	var out []*term.Term
	for _, p := range l.con.Pairs {
		if !strings.Contains(" "+p.Tag+" ", " "+tag+" ") {
			continue
		}
		for _, swap := range []bool{false, true} {
			x, z := A, B
			if swap {
				x, z = B, A
			}
			req, ens, err := s.lookupPairTerms(l, p, x.Args[0].(*sym.SliceV), z.Args[0].(*sym.SliceV), x.Res, z.Res)
			if err != nil {
				return nil, err
			}
			out = append(out, term.Implies(term.And(A.G, B.G, req), ens))
		}
	}
	return out, nil
}

func (s *Subject) lookupPairTerms(l *lookupSum, p *contract.Pair, a, b *sym.SliceV, ra, rb []sym.Value) (req, ens *term.Term, err error) {
	vars := map[string]contract.TV{}
	res := l.fn.Signature.Results()
	for i, sl := range []*sym.SliceV{a, b} {
		rs := [][]sym.Value{ra, rb}[i]
		sf := fmt.Sprint(i + 1)
		vars[l.con.Params[0]+sf] = contract.TV{V: sl, Typ: l.fn.Params[0].Type()}
		vars[l.con.Results[0]+sf] = contract.TV{V: rs[0], Typ: res.At(0).Type()}
		vars[l.con.Results[1]+sf] = contract.TV{V: rs[1], Typ: res.At(1).Type()}
	}
	e := s.env(l.fn.Pkg.Pkg, vars)
	ev := func(cs []*contract.Clause) (*term.Term, error) {
		r := term.True
		for _, c := range cs {
			t, err := e.Bool(c.Expr)
			if err != nil {
				return nil, fmt.Errorf("contract line %d: %v", c.Line, err)
			}
			r = term.And(r, t)
		}
		return r, nil
	}
	if req, err = ev(p.Requires); err != nil {
		return
	}
	ens, err = ev(p.Ensures)
	return
}

// proveLookupPairs discharges the pair contracts of LookupFirstChar.
func (s *Subject) proveLookupPairs(r *Report, l *lookupSum, tag string) error {
	for _, p := range l.con.Pairs {
		if !strings.Contains(" "+p.Tag+" ", " "+tag+" ") {
			continue
		}
		d := l.y.duo(nil)
		a, b := d.A.Args[0].(*sym.SliceV), d.B.Args[0].(*sym.SliceV)
		z := func() []sym.Value { return []sym.Value{term.Const(8, 0), c64(0)} }
		req, _, err := s.lookupPairTerms(l, p, a, b, z(), z())
		if err != nil {
			return err
		}
		d.Facts = append(d.Facts, req)
		var names, where []string
		for _, c := range p.Ensures {
			names = append(names, p.Name+": "+c.Text)
			where = append(where, fmt.Sprintf("contracts/textseg.go:%d", c.Line))
		}
		goals := func(ra, rb []sym.Value) ([]*term.Term, error) {
			var out []*term.Term
			for _, c := range p.Ensures {
				q := *p
				q.Requires, q.Ensures = nil, []*contract.Clause{c}
				_, t, err := s.lookupPairTerms(l, &q, a, b, ra, rb)
				if err != nil {
					return nil, err
				}
				out = append(out, t)
			}
			return out, nil
		}
		if len(l.y.Loops) == 0 {
			// one combined result per copy: a single obligation per clause
			d.A.Outs = []sym.Outcome{combine(d.A.Outs)}
			d.B.Outs = []sym.Outcome{combine(d.B.Outs)}
		}
		if err := d.prove(r, p.Name, names, where, goals); err != nil {
			return err
		}
	}
	return nil
}

// combine merges the ways a function returns scalars.
func combine(os []sym.Outcome) sym.Outcome {
	c := os[len(os)-1]
	c.Res = append([]sym.Value{}, c.Res...)
	for i := len(os) - 2; i >= 0; i-- {
		for k := range c.Res {
			c.Res[k] = term.Ite(os[i].G, os[i].Res[k].(*term.Term), c.Res[k].(*term.Term))
		}
		c.G = term.Or(os[i].G, c.G)
	}
	return c
}

// pairs proves the contracts over two runs of the scan.
func (s *Subject) pairs(r *Report, tag string, inline bool) (*Sys, error) {
	y, con, l, err := s.scanSysL(r, tag, inline)
	if err != nil {
		return nil, err
	}
	if y, err = y.eliminate(r); err != nil {
		return nil, err
	}
	y.numeric()
	if err := y.houdini(nil); err != nil {
		return nil, err
	}
	y.prune()
	y.recheck(r, nil)
	y.safety(r, "unsupported")
	if !inline && l != nil {
		if err := s.proveLookupPairs(r, l, tag); err != nil {
			return nil, err
		}
	}
	n := 0
	for _, p := range con.Pairs {
		if p.Tag != tag {
			continue
		}
		n++
		eval := func(a, b *Sys, x ast.Expr, ra, rb []sym.Value, t *contract.TV) (*term.Term, error) {
			vars := s.scanEnv(y.Fn, con, a.Args, ra, "1", nil)
			vars = s.scanEnv(y.Fn, con, b.Args, rb, "2", vars)
			e := s.env(y.Fn.Pkg.Pkg, vars)
			if t != nil {
				v, err := e.Eval(x)
				if err != nil {
					return nil, err
				}
				return intArg(v), nil
			}
			return e.Bool(x)
		}
		none := func(*term.Term) (*term.Term, bool) { return nil, false }
		plainA, plainB := y.rename("1", none), y.rename("2", none)
		bound, err := eval(plainA, plainB, p.ShareX, nil, nil, &contract.TV{})
		if err != nil {
			return nil, fmt.Errorf("contract of pair %s: %v", p.Name, err)
		}
		d := y.duo(func(a, b *sym.SliceV, i *term.Term) *term.Term {
			return term.And(term.Sle(c64(0), i), term.Slt(i, bound))
		})
		for _, c := range p.Requires {
			t, err := eval(d.A, d.B, c.Expr, nil, nil, nil)
			if err != nil {
				return nil, fmt.Errorf("contract line %d: %v", c.Line, err)
			}
			d.Facts = append(d.Facts, d.fix(t))
		}
		// vacuity: the assumptions can hold
		if prove.Prove(prove.VC{Hyps: nil, Guard: term.And(d.facts()...), Goal: term.False}, prove.Options{Limit: 10 * time.Second, MaxBits: 0}).Status == prove.Valid {
			r.fail(y.Fn.String(), "cover", "pair "+p.Name+" is satisfiable", "contradictory assumptions")
		} else {
			r.ok(y.Fn.String(), "cover", "pair "+p.Name+" is satisfiable", "z3")
		}
		if !inline && l != nil {
			for _, sa := range d.A.Sites {
				for _, sb := range d.B.Sites {
					fs, err := s.lookupPairs(l, tag, sa, sb, d.A, d.B)
					if err != nil {
						return nil, err
					}
					for _, f := range fs {
						d.Facts = append(d.Facts, d.fix(f))
					}
				}
			}
		}
		var names, where []string
		for _, c := range p.Ensures {
			names = append(names, p.Name+": "+c.Text)
			where = append(where, fmt.Sprintf("contracts/textseg.go:%d", c.Line))
		}
		err = d.prove(r, p.Name, names, where, func(ra, rb []sym.Value) ([]*term.Term, error) {
			var out []*term.Term
			for _, c := range p.Ensures {
				t, err := eval(d.A, d.B, c.Expr, ra, rb, nil)
				if err != nil {
					return nil, fmt.Errorf("contract line %d: %v", c.Line, err)
				}
				out = append(out, t)
			}
			return out, nil
		})
		if err != nil {
			return nil, err
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("no pair contract for %s", tag)
	}
	return y, nil
}
