package check

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/prove"
	"gover/spec"
	"gover/sym"
	"gover/term"
)

// valuesOf are the packed properties that stand for a class: those whose break
// and conjunct classes say so, as far as the lookup yields them at all.
func (s *Subject) valuesOf() (map[uint8][]uint8, error) {
	al, err := s.classOf()
	if err != nil {
		return nil, err
	}
	var used [256]bool
	all := true
	if l, err := s.lookup(); err == nil && s.tabulate(l) == nil {
		all = false
		for c, v := range l.byCP {
			if isScalar(c) && v < 0x100 {
				used[v] = true
			}
		}
	}
	r := map[uint8][]uint8{}
	for _, c := range s.allClasses() {
		for v := 0; v < 256; v++ {
			if al[v] == c && (all || used[v]) {
				r[c] = append(r[c], uint8(v))
			}
		}
		if len(r[c]) == 0 {
			return nil, fmt.Errorf("no packed value stands for class %#x", c)
		}
	}
	return r, nil
}

// machine proves that the detector, driven without restarts, follows the rules.
func (s *Subject) machine(r *Report) error {
	bf, tf := s.P.Func(macPkg, "Begin"), s.P.Func(macPkg, "State.Transition")
	if bf == nil || tf == nil {
		return fmt.Errorf("no Begin or State.Transition")
	}
	if len(bf.Params) != 1 || len(tf.Params) != 3 || tf.Signature.Results().Len() != 2 {
		return fmt.Errorf("the detector has another signature")
	}
	vals, err := s.valuesOf()
	if err != nil {
		return err
	}
	b := s.execFn(bf, []string{"first"}, nil)
	t := s.execFn(tf, []string{"state", "prev", "next"}, nil)
	for _, y := range []*Sys{b, t} {
		r.Functions[y.Fn.String()] = "contract"
		for n, k := range y.Calls {
			if n != bf.String() && n != tf.String() && k > 0 {
				r.Functions[n] = "inlined"
			}
		}
		if len(y.Loops) > 0 {
			return fmt.Errorf("%s has an unbounded loop", y.Name)
		}
		y.safety(r, "unsupported", "frame")
	}
	hist, err := sym.FreshVal("hist", s.SpecP.Func("gover/spec", "Step").Params[0].Type())
	if err != nil {
		return err
	}
	cls := term.Var("class", term.BV(8))
	st, ok := t.Args[0], true
	stL := leaves(st)
	if len(stL) == 0 {
		return fmt.Errorf("the state holds nothing")
	}
	for _, l := range stL {
		ok = ok && l.Op == term.OpVar && !l.S.Arr
	}
	prev, ok1 := t.Args[1].(*term.Term)
	next, ok2 := t.Args[2].(*term.Term)
	first, ok3 := b.Args[0].(*term.Term)
	if !ok || !ok1 || !ok2 || !ok3 {
		return fmt.Errorf("the detector's arguments are not scalars")
	}
	hL := leaves(hist)
	zero := (&walker{s: s}).zeroHist()
	step := func(h sym.Value) []*term.Term {
		v, err := s.spec("Step", h, cls)
		if err != nil {
			panic(err)
		}
		return leaves(v)
	}
	brk := s.specT("Brk", hist, cls)
	// the reachable combinations of state, previous properties and history,
	// by evaluating the summaries
	type tup struct {
		v       []uint64
		witness []byte
	}
	var set []*tup
	seen := map[string]bool{}
	add := func(v []uint64, w []byte) {
		k := fmt.Sprint(v)
		if !seen[k] {
			seen[k] = true
			set = append(set, &tup{append([]uint64{}, v...), w})
		}
	}
	ch := func(c uint8) []byte {
		for x := 0; x < 0x110000; x++ {
			if isScalar(x) && s.classes[x] == c {
				return encode(x)
			}
		}
		return nil
	}
	chars := map[uint8][]byte{}
	var order []uint8
	for c := range vals {
		chars[c] = ch(c)
		order = append(order, c)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	type comp struct {
		p *term.Prog
		n int
	}
	compile := func(o sym.Outcome, res sym.Value, h sym.Value) comp {
		outs := append(append([]*term.Term{o.G}, leaves(res)...), step(h)...)
		return comp{term.Compile(outs...), len(outs)}
	}
	var bc, tc []comp
	for _, o := range b.Outs {
		if len(leaves(o.Res[0])) != len(stL) {
			return fmt.Errorf("states of different shapes")
		}
		bc = append(bc, compile(o, o.Res[0], zero))
	}
	for _, o := range t.Outs {
		if len(leaves(o.Res[1])) != len(stL) {
			return fmt.Errorf("states of different shapes")
		}
		tc = append(tc, compile(o, o.Res[1], hist))
	}
	collect := func(c comp, env *term.Env, pv uint64, w []byte) {
		c.p.Run(env)
		if c.p.Out(0) == 0 {
			return
		}
		var v []uint64
		for i := range stL {
			v = append(v, c.p.Out(1+i))
		}
		v = append(v, pv)
		for i := range hL {
			v = append(v, c.p.Out(1+len(stL)+i))
		}
		add(v, w)
	}
	t0 := time.Now()
	for _, k := range order {
		for _, v := range vals[k] {
			env := &term.Env{Vars: map[*term.Term]uint64{first: uint64(v), cls: uint64(k)}}
			for _, c := range bc {
				collect(c, env, uint64(v), chars[k])
			}
		}
	}
	for i := 0; i < len(set); i++ {
		if len(set) > 20000 {
			return fmt.Errorf("more than 20000 combinations")
		}
		x := set[i]
		env := &term.Env{Vars: map[*term.Term]uint64{}}
		for j, l := range stL {
			env.Vars[l] = x.v[j]
		}
		env.Vars[prev] = x.v[len(stL)]
		for j, l := range hL {
			env.Vars[l] = x.v[len(stL)+1+j]
		}
		for _, k := range order {
			for _, v := range vals[k] {
				env.Vars[next], env.Vars[cls] = uint64(v), uint64(k)
				for _, c := range tc {
					collect(c, env, uint64(v), append(append([]byte{}, x.witness...), chars[k]...))
				}
			}
		}
	}
	r.logf("%d combinations in %.1fs", len(set), time.Since(t0).Seconds())
	r.Extra["state_history_combinations"] = len(set)
	in := func(ts []*term.Term) *term.Term {
		var or []*term.Term
		for _, x := range set {
			var eq []*term.Term
			for i := range ts {
				eq = append(eq, term.Eq(ts[i], constOf(ts[i].S, x.v[i])))
			}
			or = append(or, term.And(eq...))
		}
		return term.Or(or...)
	}
	rep := func(p *term.Term) *term.Term {
		var or []*term.Term
		for _, k := range order {
			for _, v := range vals[k] {
				or = append(or, term.And(term.Eq(p, term.Const(8, uint64(v))), term.Eq(cls, term.Const(8, uint64(k)))))
			}
		}
		return term.Or(or...)
	}
	cat := func(a []*term.Term, p *term.Term, h []*term.Term) []*term.Term {
		return append(append(append([]*term.Term{}, a...), p), h...)
	}
	inv := in(cat(stL, prev, hL))
	seeds := func(it *Item) {
		if it.model == nil {
			return
		}
		for _, x := range set {
			hit := true
			for i, l := range cat(stL, prev, hL) {
				if v, ok := it.model[l]; ok && v != x.v[i] {
					hit = false
				}
			}
			if hit {
				w := append([]byte{}, x.witness...)
				if c, ok := it.model[cls]; ok {
					w = append(w, chars[uint8(c)]...)
				}
				it.seeds = append(it.seeds, w)
			}
		}
	}
	opt := prove.Options{Limit: 60 * time.Second, Tables: true}
	for _, o := range b.Outs {
		r.prove(bf.String(), "post", fmt.Sprintf("the state and history after the first character are one of %d combinations", len(set)), posStr(s.P.Fset, bf.Pos(), s.Cfg.Repo),
			prove.VC{Hyps: []*term.Term{rep(first)}, Guard: o.G, Goal: in(cat(leaves(o.Res[0]), first, step(zero)))}, opt)
	}
	for _, o := range t.Outs {
		sp, ok := o.Res[0].(*term.Term)
		if !ok {
			return fmt.Errorf("the decision is not a boolean")
		}
		it := r.prove(tf.String(), "post", "the boundary reported is the one UAX #29 has", posStr(s.P.Fset, tf.Pos(), s.Cfg.Repo),
			prove.VC{Hyps: []*term.Term{inv, rep(next)}, Guard: o.G, Goal: term.Eq(sp, brk)}, opt)
		seeds(it)
		r.prove(tf.String(), "post", fmt.Sprintf("the state and history after it are one of the %d combinations", len(set)), "",
			prove.VC{Hyps: []*term.Term{inv, rep(next)}, Guard: o.G, Goal: in(cat(leaves(o.Res[1]), next, step(hist)))}, opt)
	}
	for _, y := range []*Sys{b, t} {
		h := []*term.Term{inv, rep(next)}
		if y == b {
			h = []*term.Term{rep(first)}
		}
		for _, ob := range y.Obl {
			if ob.Kind == "safety" || ob.Kind == "pre" {
				it := r.prove(ob.Fn, ob.Kind, ob.Name, posStr(s.P.Fset, ob.Pos, s.Cfg.Repo), prove.VC{Hyps: append(append([]*term.Term{}, h...), y.Facts[:ob.Facts]...), Guard: ob.Guard, Goal: ob.Goal}, opt)
				seeds(it)
			}
		}
	}
	if len(set) < len(order) {
		r.fail(tf.String(), "cover", "every class is met", fmt.Sprint(len(set)))
	} else {
		r.ok(tf.String(), "cover", fmt.Sprintf("every class is met, in %d combinations", len(set)), "evaluation")
	}
	return nil
}

var _ = spec.Other
var _ *ssa.Function
