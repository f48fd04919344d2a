package check

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/prove"
	"gover/sym"
	"gover/term"
)

// Sys is a function as a transition system: its entry, its cut loops, the
// edges between them and the ways it returns.
type Sys struct {
	S      *Subject
	Fn     *ssa.Function
	Name   string
	Args   []sym.Value
	Loops  []*sym.Loop
	Outs   []sym.Outcome
	Facts  []*term.Term
	Axioms []*term.Term // instances of axioms, whatever the path
	Obl    []*sym.Oblig
	Inv    map[*sym.Loop][]*Cand
	Calls  map[string]int
	Sites  []*Site
	More   []Cand // other quantities to compare counters with
}

// Cand is a candidate loop invariant.
type Cand struct {
	Name string
	T    *term.Term
	V    *term.Term // the variable an upper bound K is for
	K    int64
}

// execFn runs a function symbolically on arbitrary arguments.
func (s *Subject) execFn(fn *ssa.Function, names []string, hook func(c *sym.Call) ([]sym.Outcome, bool)) *Sys {
	x := s.W.Exec()
	x.Hook = hook
	x.Feasible = prove.Feasible
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Inv: map[*sym.Loop][]*Cand{}}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		y.Args = append(y.Args, x.Input(st, n, p.Type()))
	}
	y.Outs = x.Run(fn, y.Args, nil, st)
	y.Loops, y.Facts, y.Obl, y.Calls = x.Loops, x.Facts, x.Obligs, x.Called
	return y
}

// all are the terms of a system.
func (y *Sys) all() []*term.Term {
	var all []*term.Term
	collect := func(t *term.Term) {
		if t != nil {
			all = append(all, t)
		}
	}
	collectV := func(v sym.Value) { sym.Leaves("", v, func(_ string, t *term.Term) { collect(t) }) }
	for _, f := range y.Facts {
		collect(f)
	}
	for _, a := range y.Args {
		collectV(a)
	}
	for _, o := range y.Outs {
		collect(o.G)
		for _, r := range o.Res {
			collectV(r)
		}
	}
	for _, l := range y.Loops {
		collect(l.G)
		for _, v := range l.Vars {
			collect(v.Var)
		}
		for _, e := range l.In {
			collect(e.G)
			for _, t := range e.Vals {
				collect(t)
			}
		}
		for _, c := range y.Inv[l] {
			collect(c.T)
		}
	}
	for _, o := range y.Obl {
		collect(o.Guard)
		collect(o.Goal)
	}
	for _, c := range y.Sites {
		collect(c.G)
		for _, v := range append(append([]sym.Value{}, c.Args...), c.Res...) {
			collectV(v)
		}
	}
	return all
}

// rename makes a second copy of a system over other variables.
func (y *Sys) rename(suffix string, keep func(v *term.Term) (*term.Term, bool)) *Sys {
	m := map[*term.Term]*term.Term{}
	seen := map[*term.Term]bool{}
	all := y.all()
	term.Walk(all, func(t *term.Term) {
		if t.Op != term.OpVar || seen[t] {
			return
		}
		seen[t] = true
		if r, ok := keep(t); ok {
			m[t] = r
			return
		}
		m[t] = term.Var(t.Name+suffix, t.S)
	})
	return y.subst(term.NewSubst(m))
}

func (y *Sys) subst(sb *term.Substitution) *Sys {
	z := &Sys{S: y.S, Fn: y.Fn, Name: y.Name, Inv: map[*sym.Loop][]*Cand{}, Calls: y.Calls}
	objs := map[*sym.Obj]*sym.Obj{}
	var sv func(v sym.Value) sym.Value
	sv = func(v sym.Value) sym.Value {
		if v == nil {
			return nil
		}
		r := sym.MapLeaves(v, sb.Do)
		if sl, ok := r.(*sym.SliceV); ok && sl.Obj != nil {
			if reg, ok := sl.Obj.Init.(*sym.RegionV); ok {
				n := objs[sl.Obj]
				if n == nil {
					c := *sl.Obj
					c.Init = &sym.RegionV{Arr: sb.Do(reg.Arr)}
					n = &c
					objs[sl.Obj] = n
				}
				c := *sl
				c.Obj = n
				return &c
			}
		}
		return r
	}
	for _, f := range y.Facts {
		z.Facts = append(z.Facts, sb.Do(f))
	}
	for _, a := range y.Args {
		z.Args = append(z.Args, sv(a))
	}
	loops := map[*sym.Loop]*sym.Loop{}
	for _, l := range y.Loops {
		loops[l] = &sym.Loop{}
	}
	for _, l := range y.Loops {
		n := loops[l]
		*n = *l
		n.Src = loops[l.Src]
		n.G = sb.Do(l.G)
		n.Vars = nil
		for _, v := range l.Vars {
			if w := sb.Do(v.Var); w.Op == term.OpVar {
				n.Vars = append(n.Vars, sym.LoopVar{Name: v.Name, Var: w})
			}
		}
		n.In = nil
		for _, e := range l.In {
			vals := map[string]*term.Term{}
			for k, t := range e.Vals {
				vals[k] = sb.Do(t)
			}
			n.In = append(n.In, &sym.Edge{Src: loops[e.Src], G: sb.Do(e.G), Vals: vals, Back: e.Back})
		}
		z.Loops = append(z.Loops, n)
		for _, c := range y.Inv[l] {
			z.Inv[n] = append(z.Inv[n], &Cand{Name: c.Name, T: sb.Do(c.T), K: c.K, V: sbV(sb, c.V)})
		}
	}
	for _, o := range y.Outs {
		n := sym.Outcome{G: sb.Do(o.G), Src: loops[o.Src]}
		for _, r := range o.Res {
			n.Res = append(n.Res, sv(r))
		}
		z.Outs = append(z.Outs, n)
	}
	for _, c := range y.Sites {
		n := &Site{Fn: c.Fn, G: sb.Do(c.G), Src: loops[c.Src]}
		for _, v := range c.Args {
			n.Args = append(n.Args, sv(v))
		}
		for _, v := range c.Res {
			n.Res = append(n.Res, sv(v))
		}
		z.Sites = append(z.Sites, n)
	}
	for _, o := range y.Obl {
		n := *o
		n.Guard, n.Goal, n.Src = sb.Do(o.Guard), sb.Do(o.Goal), loops[o.Src]
		z.Obl = append(z.Obl, &n)
	}
	return z
}

// at instantiates a term over a loop's variables with an edge's values.
func at(l *sym.Loop, e *sym.Edge, t *term.Term) *term.Term {
	m := map[*term.Term]*term.Term{}
	for _, v := range l.Vars {
		if w, ok := e.Vals[v.Name]; ok {
			m[v.Var] = w
		} else {
			m[v.Var] = term.Fresh("lost", v.Var.S)
		}
	}
	return term.Subst(t, m)
}

// hyps are the facts and the invariants of the loops a state went through:
// those on the chain of src. The variables of other loops mean nothing there.
func (y *Sys) hyps(src *sym.Loop) []*term.Term {
	h := append(append([]*term.Term{}, y.Axioms...), y.Facts...)
	return append(h, y.invHyps(src)...)
}

func (y *Sys) invHyps(src *sym.Loop) []*term.Term {
	var h []*term.Term
	for l := src; l != nil; l = l.Src {
		for _, c := range y.Inv[l] {
			h = append(h, term.Implies(l.G, c.T))
		}
	}
	return h
}

// argTerms are the 64-bit quantities known at entry.
func (y *Sys) argTerms() (r []Cand) {
	for i, a := range y.Args {
		sym.Leaves(y.Fn.Params[i].Name(), a, func(n string, t *term.Term) {
			if t.S == term.BV(64) && !t.IsConst() {
				r = append(r, Cand{Name: n, T: t})
			}
		})
	}
	return append(r, y.More...)
}

// addCand offers a candidate invariant.
func (y *Sys) addCand(l *sym.Loop, name string, t *term.Term) *Cand {
	if t.IsTrue() {
		return &Cand{}
	}
	for _, c := range y.Inv[l] {
		if c.T == t {
			return c
		}
	}
	c := &Cand{Name: name, T: t}
	y.Inv[l] = append(y.Inv[l], c)
	return c
}

func (c *Cand) bound(v *term.Term, k int64) { c.V, c.K = v, k }

func sbV(sb *term.Substitution, v *term.Term) *term.Term {
	if v == nil {
		return nil
	}
	return sb.Do(v)
}

// numeric offers the standard candidates: sign and bounds of counters, linear
// relations between them, small ranges, constant booleans.
func (y *Sys) numeric() {
	args := y.argTerms()
	for _, l := range y.Loops {
		entry := l.In[0]
		isPos := func(v sym.LoopVar) bool { return v.Var.S == term.BV(64) }
		for i, v := range l.Vars {
			e := entry.Vals[v.Name]
			x := v.Var
			if ks := oneOf(l, v); len(ks) > 1 && !x.S.IsBool() {
				var or []*term.Term
				for _, k := range ks {
					or = append(or, term.Eq(x, k))
				}
				y.addCand(l, v.Name+" is one of the values it is given", term.Or(or...))
			}
			switch {
			case isPos(v):
				z := c64(0)
				y.addCand(l, "0<="+v.Name, term.Sle(z, x))
				y.addCand(l, "1<="+v.Name, term.Sle(c64(1), x))
				for _, a := range args {
					y.addCand(l, v.Name+"<="+a.Name, term.Sle(x, a.T))
					y.addCand(l, v.Name+"<"+a.Name, term.Slt(x, a.T))
				}
				for _, k := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 31, 32} {
					y.addCand(l, fmt.Sprintf("%s<=%d", v.Name, k), term.Sle(x, c64(k))).bound(x, k)
				}
				if e != nil {
					y.addCand(l, v.Name+">=entry", term.Sle(e, x))
					y.addCand(l, v.Name+"<=entry", term.Sle(x, e))
				}
				for _, w := range l.Vars[:i] {
					if !isPos(w) {
						continue
					}
					we := entry.Vals[w.Name]
					y.addCand(l, v.Name+"<="+w.Name, term.Sle(x, w.Var))
					y.addCand(l, w.Name+"<="+v.Name, term.Sle(w.Var, x))
					if e != nil && we != nil {
						y.addCand(l, v.Name+"-"+w.Name+" const", term.Eq(term.Sub(x, w.Var), term.Sub(e, we)))
						y.addCand(l, v.Name+"+"+w.Name+" const", term.Eq(term.Add(x, w.Var), term.Add(e, we)))
					}
				}
			case x.S.IsBool():
				y.addCand(l, v.Name, x)
				y.addCand(l, "!"+v.Name, term.Not(x))
			case x.S == term.BV(8):
				if e != nil {
					for _, k := range []uint64{0xff, 0x0f, 0xf0, 0} {
						y.addCand(l, fmt.Sprintf("%s!=%#x", v.Name, k), term.Not(term.Eq(x, term.Const(8, k))))
					}
				}
				for _, k := range []uint64{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 31} {
					y.addCand(l, fmt.Sprintf("%s<=%d", v.Name, k), term.Ule(x, term.Const(8, k))).bound(x, int64(k))
				}
			}
		}
	}
}

// oneOf are the values a variable is given by the edges into its loop, where
// they are few constants (or its own).
func oneOf(l *sym.Loop, v sym.LoopVar) (ks []*term.Term) {
	seen := map[*term.Term]bool{}
	var rec func(t *term.Term) bool
	rec = func(t *term.Term) bool {
		if t == v.Var || seen[t] {
			return true
		}
		seen[t] = true
		switch {
		case t.IsConst():
			ks = append(ks, t)
			return len(ks) <= 32
		case t.Op == term.OpIte:
			return rec(t.Args[1]) && rec(t.Args[2])
		}
		return false
	}
	for _, e := range l.In {
		t := e.Vals[v.Name]
		if t == nil || !rec(t) {
			return nil
		}
	}
	return ks
}

// eliminate finds loop variables that are at a constant distance from each
// other (or have a constant sum), proves it, and removes them.
func (y *Sys) eliminate(r *Report) (*Sys, error) {
	type eq struct {
		v  *term.Term
		is *term.Term
	}
	of := map[*Cand]eq{}
	for _, l := range y.Loops {
		entry := l.In[0]
		for i, v := range l.Vars {
			e := entry.Vals[v.Name]
			if e == nil {
				continue
			}
			for _, w := range l.Vars[:i] {
				we := entry.Vals[w.Name]
				if we == nil || w.Var.S != v.Var.S || v.Var.S != term.BV(64) {
					continue
				}
				d := eq{v.Var, term.Add(w.Var, term.Sub(e, we))}
				a := eq{v.Var, term.Sub(term.Add(e, we), w.Var)}
				for _, q := range []eq{d, a} {
					c := &Cand{Name: v.Name + " = " + w.Name + " + const", T: term.Eq(q.v, q.is)}
					if q == a {
						c.Name = v.Name + " = const - " + w.Name
					}
					of[c] = q
					y.Inv[l] = append(y.Inv[l], c)
				}
			}
		}
	}
	if len(of) == 0 {
		return y, nil
	}
	if err := y.houdini(nil); err != nil {
		return nil, err
	}
	y.recheck(r, nil)
	m := map[*term.Term]*term.Term{}
	for _, l := range y.Loops {
		for _, c := range y.Inv[l] {
			q, ok := of[c]
			if !ok {
				continue
			}
			if _, done := m[q.v]; !done {
				m[q.v] = q.is
			}
		}
		y.Inv[l] = nil
	}
	// close the substitution: right-hand sides mention earlier variables only
	for ch := true; ch; {
		ch = false
		sb := term.NewSubst(m)
		for v, t := range m {
			if n := sb.Do(t); n != t {
				m[v] = n
				ch = true
			}
		}
	}
	if len(m) == 0 {
		return y, nil
	}
	return y.subst(term.NewSubst(m)), nil
}

// graph gives the system to the invariant finder.
func (y *Sys) graph() (*Graph, map[*sym.Loop]*Node) {
	g := &Graph{Facts: append(append([]*term.Term{}, y.Axioms...), y.Facts...)}
	nodes := map[*sym.Loop]*Node{}
	for _, l := range y.Loops {
		n := &Node{Name: l.Key, G: l.G, Pos: posStr(y.S.P.Fset, l.Pos, y.S.Cfg.Repo), Cands: y.Inv[l]}
		nodes[l] = n
		g.Nodes = append(g.Nodes, n)
	}
	for _, l := range y.Loops {
		if l.Src != nil {
			nodes[l].Parent = nodes[l.Src]
		}
		for _, e := range l.In {
			var src *Node
			if e.Src != nil {
				src = nodes[e.Src]
			}
			m := map[*term.Term]*term.Term{}
			for _, v := range l.Vars {
				if w, ok := e.Vals[v.Name]; ok {
					m[v.Var] = w
				} else {
					m[v.Var] = term.Fresh("lost", v.Var.S)
				}
			}
			g.Arcs = append(g.Arcs, &Arc{From: src, To: nodes[l], G: e.G, Map: m, Back: e.Back})
		}
	}
	return g, nodes
}

func (y *Sys) houdini(extra []*term.Term) error {
	g, nodes := y.graph()
	g.Facts = append(append([]*term.Term{}, g.Facts...), extra...)
	err := g.Houdini()
	for l, n := range nodes {
		y.Inv[l] = n.Cands
	}
	return err
}

// prune drops candidates implied by others of their family.
func (y *Sys) prune() {
	for _, l := range y.Loops {
		best := map[*term.Term]*Cand{}
		var keep []*Cand
		for _, c := range y.Inv[l] {
			if c.V != nil {
				if b := best[c.V]; b == nil || c.K < b.K {
					best[c.V] = c
				}
			}
		}
		for _, c := range y.Inv[l] {
			if c.V == nil || best[c.V] == c {
				keep = append(keep, c)
			}
		}
		y.Inv[l] = keep
	}
}

// recheck proves each invariant that was kept, as recorded obligations.
func (y *Sys) recheck(r *Report, extra []*term.Term) {
	g, _ := y.graph()
	g.Facts = append(append([]*term.Term{}, g.Facts...), extra...)
	g.Recheck(r, y.Fn.String())
}

// safety proves the run-time safety and frame obligations met on the way.
func (y *Sys) safety(r *Report, kinds ...string) {
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	r.batch(func() { y.settle(r, want) })
}

func (y *Sys) settle(r *Report, want map[string]bool) {
	for _, ob := range y.Obl {
		if !want[ob.Kind] {
			continue
		}
		h := append(append(append([]*term.Term{}, y.Axioms...), y.Facts[:ob.Facts]...), y.invHyps(ob.Src)...)
		o := prove.Default
		if ob.Goal.IsFalse() && ob.Kind != "safety" {
			o.Tables = false
		}
		r.prove(ob.Fn, ob.Kind, ob.Name, posStr(y.S.P.Fset, ob.Pos, y.S.Cfg.Repo), prove.VC{Hyps: h, Guard: ob.Guard, Goal: ob.Goal}, o)
	}
}

// terminates finds a measure for every cycle of loops.
func (y *Sys) terminates(r *Report) {
	type edge struct {
		from, to *sym.Loop
		e        *sym.Edge
	}
	var es []edge
	for _, l := range y.Loops {
		for _, e := range l.In {
			if e.Src != nil {
				es = append(es, edge{e.Src, l, e})
			}
		}
	}
	args := y.argTerms()
	// measures: v or a-v, bounded below by the invariants
	type meas struct {
		name string
		t    *term.Term
	}
	cands := func(l *sym.Loop) []meas {
		var ms []meas
		for _, v := range l.Vars {
			if v.Var.S != term.BV(64) {
				continue
			}
			ms = append(ms, meas{v.Name, v.Var})
			for _, a := range args {
				ms = append(ms, meas{a.Name + "-" + v.Name, term.Sub(a.T, v.Var)})
			}
			for _, w := range l.Vars {
				if w.Var != v.Var && w.Var.S == term.BV(64) {
					ms = append(ms, meas{w.Name + "-" + v.Name, term.Sub(w.Var, v.Var)})
				}
			}
		}
		return ms
	}
	limit := 5 * time.Second
	valid := func(src *sym.Loop, g, goal *term.Term) bool {
		return prove.Prove(prove.VC{Hyps: y.hyps(src), Guard: g, Goal: goal}, prove.Options{Limit: limit, MaxBits: 0}).Status == prove.Valid
	}
	var solve func(es []edge)
	solve = func(es []edge) {
		for _, comp := range sccs(y.Loops, func(f func(a, b *sym.Loop)) {
			for _, e := range es {
				f(e.from, e.to)
			}
		}) {
			in := map[*sym.Loop]bool{}
			for _, l := range comp {
				in[l] = true
			}
			var ce []edge
			for _, e := range es {
				if in[e.from] && in[e.to] {
					ce = append(ce, e)
				}
			}
			if len(ce) == 0 {
				continue
			}
			t0 := time.Now()
			names := ""
			for _, l := range comp {
				names += l.Key + " "
			}
			var rest []edge
			found := ""
			if len(comp) == 1 {
				l := comp[0]
				ms := cands(l)
				n := len(ms)
				for _, v := range l.Vars { // and a flag that is set or reset at last
					if v.Var.S == term.Bool {
						for _, m := range ms[:n] {
							one := term.Ite(v.Var, c64(1), c64(0))
							ms = append(ms, meas{m.name + "+" + v.Name, term.Add(m.t, one)}, meas{m.name + "+!" + v.Name, term.Add(m.t, term.Sub(c64(1), one))})
						}
					}
				}
				ms = append(ms, ms[:n]...)
				for i, m := range ms {
					limit = 5 * time.Second
					if i < len(ms)-n {
						limit = time.Second
					}
					bounded := true
					var left []edge
					for _, e := range ce {
						n := at(l, e.e, m.t)
						if !valid(e.from, e.e.G, term.And(term.Sle(c64(0), m.t), term.Sle(n, m.t))) {
							bounded = false
							break
						}
						if !valid(e.from, e.e.G, term.Slt(n, m.t)) {
							left = append(left, e)
						}
					}
					if bounded && len(left) < len(ce) {
						found, rest = m.name, left
						break
					}
				}
			} else {
				limit = 5 * time.Second
				// one measure per loop, searched pairwise along the edges
				ms := map[*sym.Loop][]meas{}
				for _, l := range comp {
					ms[l] = cands(l)
				}
				pick := map[*sym.Loop]meas{}
				tries := 0
				var rec func(i int) bool
				rec = func(i int) bool {
					if i == len(comp) {
						var left []edge
						for _, e := range ce {
							if !valid(e.from, e.e.G, term.Slt(at(e.to, e.e, pick[e.to].t), pick[e.from].t)) {
								left = append(left, e)
							}
						}
						if len(left) < len(ce) {
							rest = left
							return true
						}
						return false
					}
					for _, m := range ms[comp[i]] {
						if tries++; tries > 400 {
							return false
						}
						pick[comp[i]] = m
						ok := true
						for _, e := range ce {
							p, ok1 := pick[e.from]
							q, ok2 := pick[e.to]
							if !ok1 || !ok2 || e.from != comp[i] && e.to != comp[i] {
								continue
							}
							if !valid(e.from, e.e.G, term.And(term.Sle(c64(0), p.t), term.Sle(at(e.to, e.e, q.t), p.t))) {
								ok = false
								break
							}
						}
						if ok && rec(i+1) {
							return true
						}
						delete(pick, comp[i])
					}
					return false
				}
				if rec(0) {
					for _, l := range comp {
						found += pick[l].name + " "
					}
				}
			}
			it := &Item{Func: y.Fn.String(), Kind: "termination", Name: strings.TrimSpace(names), Status: "proved", Backend: "z3", Seconds: time.Since(t0).Seconds(), Detail: "measure " + found}
			if found == "" {
				it.Status, it.Detail = "failed", "no measure that decreases"
			}
			r.add(it)
			if found != "" {
				solve(rest)
			}
		}
	}
	solve(es)
}

// sccs are the strongly connected components that have an edge.
func sccs(ls []*sym.Loop, edges func(func(a, b *sym.Loop))) [][]*sym.Loop {
	reach := map[*sym.Loop]map[*sym.Loop]bool{}
	for _, l := range ls {
		reach[l] = map[*sym.Loop]bool{}
	}
	edges(func(a, b *sym.Loop) { reach[a][b] = true })
	for _, k := range ls {
		for _, i := range ls {
			if reach[i][k] {
				for _, j := range ls {
					if reach[k][j] {
						reach[i][j] = true
					}
				}
			}
		}
	}
	done := map[*sym.Loop]bool{}
	var out [][]*sym.Loop
	for _, l := range ls {
		if done[l] || !reach[l][l] {
			continue
		}
		var c []*sym.Loop
		for _, m := range ls {
			if m == l || reach[l][m] && reach[m][l] {
				c = append(c, m)
				done[m] = true
			}
		}
		out = append(out, c)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
