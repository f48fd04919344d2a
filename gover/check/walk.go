package check

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gover/prove"
	"gover/smt"
	"gover/spec"
	"gover/sym"
	"gover/term"
)

// walker proves that the scan of valid text follows the history automaton of
// the specification: each cut point has a position in the text, a ghost
// history of the characters before it, and a finite set of combinations of the
// program's own finite state with that history.
type walker struct {
	s          *Subject
	r          *Report
	y          *Sys
	l          *lookupSum
	data       *sym.SliceV
	eof        *term.Term
	want, view string
	pos        map[*sym.Loop]*term.Term
	hist       map[*sym.Loop]*sym.StructV
	fin        map[*sym.Loop][]*term.Term // the program's finite state, then the history
	set        map[*sym.Loop][]*tuple
	seen       map[*sym.Loop]map[string]bool
	look       map[*term.Term]bool // variables a lookahead fact determines
	detail     bool                // say which classes the characters have by number
}

// tuple is one combination, with a text that leads to it.
type tuple struct {
	v       []uint64
	witness []byte
}

const maxChars = 2 // characters one edge or return may pass

// step is one character of the text from a position on.
type step struct {
	pos  *term.Term
	h    sym.Value
	len  *term.Term
	cls  *term.Term // as far as the property looks at it
	raw  *term.Term
	end  *term.Term // the text ends here
	fact *term.Term
}

func (w *walker) zeroHist() sym.Value {
	fn := w.s.SpecP.Func("gover/spec", "Step")
	z, err := sym.Zero(fn.Params[0].Type())
	if err != nil {
		panic(err)
	}
	return z
}

func some(h sym.Value) *term.Term { return h.(*sym.StructV).Fields[0].(*term.Term) }

// chain are the characters from a position on, the text being valid.
func (w *walker) chain(p *term.Term, h sym.Value, n int) []*step {
	var out []*step
	ok := term.True
	for i := 0; i < n; i++ {
		b := bytesAt(w.data, p)
		ln := w.s.specT("CharLen", b[0], b[1], b[2], b[3], c64(4))
		raw := w.s.classTerm(b)
		cls := w.s.specT(w.view, raw)
		end := term.And(w.eof, term.Eq(p, w.data.Len))
		f := term.Or(end, term.And(term.Slt(c64(0), ln), term.Implies(w.eof, term.Sle(term.Add(p, ln), w.data.Len)), w.s.classDomain(raw)))
		if w.detail {
			f = term.And(f, w.s.rangeFacts(raw))
		}
		out = append(out, &step{pos: p, h: h, len: ln, cls: cls, raw: raw, end: end, fact: term.Implies(ok, f)})
		ok = term.And(ok, term.Not(end))
		p = term.Add(p, ln)
		hv, err := w.s.spec("Step", h, cls)
		if err != nil {
			panic(err)
		}
		h = hv
	}
	return out
}

func facts(ch []*step) []*term.Term {
	var r []*term.Term
	for _, c := range ch {
		r = append(r, c.fact)
	}
	return r
}

func (w *walker) wants(h sym.Value, cls *term.Term, v int) *term.Term {
	return term.Eq(w.s.specT(w.want, h, cls), c64(int64(v)))
}

// passes: going to position q passes whole characters and no boundary that
// must be there.
func (w *walker) passes(ch []*step, q *term.Term) (aligned, crossing *term.Term) {
	var al, cr []*term.Term
	for i, c := range ch {
		if i <= maxChars {
			al = append(al, term.Eq(q, c.pos))
		}
		cr = append(cr, term.Implies(term.And(term.Slt(c.pos, q), some(c.h), term.Not(c.end)), term.Not(w.wants(c.h, c.cls, spec.MustBreak))))
	}
	return term.Or(al...), term.And(cr...)
}

// histAt is the history at a position of the chain.
func histAt(ch []*step, q *term.Term) []*term.Term {
	var r []*term.Term
	for i := len(ch) - 1; i >= 0; i-- {
		fs := leaves(ch[i].h)
		if r == nil {
			r = fs
			continue
		}
		for k := range fs {
			r[k] = term.Ite(term.Eq(q, ch[i].pos), fs[k], r[k])
		}
	}
	return r
}

func leaves(v sym.Value) []*term.Term {
	var r []*term.Term
	sym.Leaves("", v, func(_ string, t *term.Term) { r = append(r, t) })
	return r
}

// bounded: the invariants confine a 64-bit variable to a small range.
func bounded(y *Sys, l *sym.Loop, v *term.Term) bool {
	lo, hi := false, false
	for _, c := range y.Inv[l] {
		if c.T == term.Sle(c64(0), v) {
			lo = true
		}
		if c.V == v {
			hi = true
		}
	}
	return lo && hi
}

// walk proves the walk contract for a property.
func (s *Subject) walk(r *Report, tag string) error {
	q := r.fork()
	err := s.walkWith(q, tag, false)
	if err == nil && len(q.failed()) > 0 {
		// where the source tells characters by their number
		z := r.fork()
		if s.walkWith(z, tag, true) == nil && len(z.failed()) == 0 {
			q = z
		}
	}
	r.join(q)
	return err
}

func (s *Subject) walkWith(r *Report, tag string, detail bool) error {
	y, con, l, err := s.scanSysL(r, tag, false)
	if err != nil {
		return err
	}
	if l == nil {
		return fmt.Errorf("LookupFirstChar is not called")
	}
	if err := s.tabulate(l); err != nil {
		return err
	}
	s.canonical(r, l)
	if y, err = y.eliminate(r); err != nil {
		return err
	}
	w := &walker{s: s, r: r, y: y, l: l, data: y.Args[0].(*sym.SliceV), eof: y.Args[1].(*term.Term), detail: detail}
	for _, k := range con.Walks {
		if k.Tag == tag {
			w.want, w.view = k.Want, k.View
		}
	}
	if w.want == "" {
		return fmt.Errorf("no walk contract for %s", tag)
	}
	w.restart()
	y.numeric()
	if err := y.houdini(nil); err != nil {
		return err
	}
	y.prune()
	y.recheck(r, nil)
	y.safety(r, "unsupported")
	if err := w.positions(); err != nil {
		return err
	}
	return w.run()
}

// positions chooses, for each loop, the variable that walks over the text.
func (w *walker) positions() error {
	y := w.y
	cands := map[*sym.Loop][]*term.Term{}
	for _, l := range y.Loops {
		for _, v := range l.Vars {
			if v.Var.S == term.BV(64) && !bounded(y, l, v.Var) {
				cands[l] = append(cands[l], v.Var)
				if e := l.In[0].Vals[v.Name]; e != nil {
					cands[l] = append(cands[l], term.Sub(w.data.Len, v.Var))
				}
			}
		}
		if len(cands[l]) == 0 {
			return fmt.Errorf("loop %s has no position in the text", l.Key)
		}
	}
	// the first combination whose edges pass whole characters only
	w.pos = map[*sym.Loop]*term.Term{}
	var tried int
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(y.Loops) {
			tried++
			return w.alignedAll(nil)
		}
		for _, c := range cands[y.Loops[i]] {
			w.pos[y.Loops[i]] = c
			if w.alignedAll(y.Loops[:i+1]) && rec(i+1) {
				return true
			}
			if tried > 20 {
				return false
			}
		}
		delete(w.pos, y.Loops[i])
		return false
	}
	t0 := time.Now()
	if !rec(0) {
		// take the first of each: the obligation will fail
		for _, l := range y.Loops {
			w.pos[l] = cands[l][0]
		}
	}
	w.r.logf("positions in %.1fs", time.Since(t0).Seconds())
	return nil
}

func (w *walker) at(l *sym.Loop) *term.Term {
	if l == nil {
		return c64(0)
	}
	return w.pos[l]
}

// alignedAll checks the edges between loops that have a position already.
func (w *walker) alignedAll(ls []*sym.Loop) bool {
	for _, l := range w.y.Loops {
		for _, e := range l.In {
			if w.at(l) == nil || w.at(e.Src) == nil {
				continue
			}
			if ls != nil && l != ls[len(ls)-1] && e.Src != ls[len(ls)-1] {
				continue
			}
			if ls == nil {
				continue
			}
			ch := w.chain(w.at(e.Src), w.zeroHist(), maxChars+1)
			al, _ := w.passes(ch, at(l, e, w.pos[l]))
			if prove.Prove(prove.VC{Hyps: append(w.hyps(e.Src), facts(ch)...), Guard: e.G, Goal: al}, prove.Options{Limit: 5 * time.Second}).Status != prove.Valid {
				return false
			}
		}
	}
	return true
}

func (w *walker) hyps(src *sym.Loop) []*term.Term {
	h := w.y.hyps(src)
	for l := src; l != nil; l = l.Src {
		// the text is valid from each position on
		if w.pos[l] != nil {
			h = append(h, w.chain(w.pos[l], w.zeroHist(), 1)[0].fact)
		}
	}
	return h
}

// run computes the reachable combinations and discharges the obligations.
func (w *walker) run() error {
	y := w.y
	fn := y.Fn.String()
	w.hist, w.fin, w.set, w.seen = map[*sym.Loop]*sym.StructV{}, map[*sym.Loop][]*term.Term{}, map[*sym.Loop][]*tuple{}, map[*sym.Loop]map[string]bool{}
	ht := w.s.SpecP.Func("gover/spec", "Step").Params[0].Type()
	for _, l := range y.Loops {
		hv, err := sym.FreshVal("hist."+l.Key, ht)
		if err != nil {
			return err
		}
		w.hist[l] = hv.(*sym.StructV)
		for _, v := range l.Vars {
			switch {
			case w.look[v.Var]:
			case v.Var.S.IsBool(), v.Var.S == term.BV(8), v.Var.S == term.BV(64) && bounded(y, l, v.Var):
				w.fin[l] = append(w.fin[l], v.Var)
			}
		}
		w.fin[l] = append(w.fin[l], term.Eq(w.pos[l], c64(0)))
		w.fin[l] = append(w.fin[l], leaves(hv)...)
		w.seen[l] = map[string]bool{}
	}
	h := func(l *sym.Loop) sym.Value {
		if l == nil {
			return w.zeroHist()
		}
		return w.hist[l]
	}
	type arc struct {
		src, tgt *sym.Loop
		e        *sym.Edge
		ch       []*step
		q        *term.Term
		vals     []*term.Term
	}
	var arcs []*arc
	for _, l := range y.Loops {
		for _, e := range l.In {
			if e.G.IsFalse() {
				continue
			}
			a := &arc{src: e.Src, tgt: l, e: e}
			a.ch = w.chain(w.at(e.Src), h(e.Src), maxChars+1)
			a.q = at(l, e, w.pos[l])
			nh := len(leaves(w.hist[l]))
			for _, v := range w.fin[l][:len(w.fin[l])-nh] {
				a.vals = append(a.vals, at(l, e, v))
			}
			a.vals = append(a.vals, histAt(a.ch, a.q)...)
			arcs = append(arcs, a)
		}
	}
	// closure
	t0 := time.Now()
	type job struct {
		l *sym.Loop
		t *tuple
	}
	work := []job{{nil, &tuple{}}}
	nq := 0
	for len(work) > 0 {
		j := work[0]
		work = work[1:]
		for _, a := range arcs {
			if a.src != j.l {
				continue
			}
			// the source's combination is known: put it in
			m := map[*term.Term]*term.Term{}
			if j.l != nil {
				for i, v := range w.fin[j.l] {
					if v.Op == term.OpVar {
						m[v] = constOf(v.S, j.t.v[i])
					}
				}
			}
			sb := term.NewSubst(m)
			ses, err := smt.NewSession("z3", smt.Opaque)
			if err != nil {
				return err
			}
			al, cr := w.passes(a.ch, a.q)
			var as []*term.Term
			if j.l != nil {
				for i, v := range w.fin[j.l] {
					if v.Op != term.OpVar {
						as = append(as, sb.Do(term.Eq(v, constOf(v.S, j.t.v[i]))))
					}
				}
			}
			for _, t := range append(append(w.hyps(a.src), facts(a.ch)...), a.e.G, al, cr) {
				as = append(as, sb.Do(t))
			}
			ses.Assert(as...)
			var vals []*term.Term
			for _, t := range a.vals {
				vals = append(vals, sb.Do(t))
			}
			not := func(v []uint64) *term.Term {
				var eq []*term.Term
				for i := range vals {
					eq = append(eq, term.Eq(vals[i], constOf(vals[i].S, v[i])))
				}
				return term.Not(term.And(eq...))
			}
			for _, t := range w.set[a.tgt] {
				ses.Assert(not(t.v))
			}
			extra := []*term.Term{sb.Do(a.q), a.ch[0].pos, a.ch[0].raw, a.ch[1].pos, a.ch[1].raw}
			for i := range extra {
				extra[i] = sb.Do(extra[i])
			}
			for {
				nq++
				res := ses.Check(20 * time.Second)
				if res != smt.Sat {
					if res == smt.Unknown {
						w.r.logf("closure: unknown")
					}
					break
				}
				got := ses.Values(append(append([]*term.Term{}, vals...), extra...))
				t := &tuple{v: got[:len(vals)]}
				x := got[len(vals):]
				t.witness = append([]byte{}, j.t.witness...)
				if x[0] > x[1] {
					t.witness = append(t.witness, w.sample(uint8(x[2]))...)
				}
				if x[0] > x[3] && x[3] > x[1] {
					t.witness = append(t.witness, w.sample(uint8(x[4]))...)
				}
				w.set[a.tgt] = append(w.set[a.tgt], t)
				work = append(work, job{a.tgt, t})
				ses.Assert(not(t.v))
				if len(w.set[a.tgt]) > 4000 {
					ses.Close()
					return fmt.Errorf("more than 4000 combinations")
				}
			}
			smt.Total.Add("z3", ses.Queries, ses.Time)
			ses.Close()
		}
	}
	n := 0
	for _, l := range y.Loops {
		n += len(w.set[l])
		sort.Slice(w.set[l], func(i, k int) bool { return less(w.set[l][i].v, w.set[l][k].v) })
	}
	w.r.logf("%d combinations of program state and history, %d queries, %.1fs", n, nq, time.Since(t0).Seconds())
	w.r.Extra["state_history_combinations"] = n
	in := func(l *sym.Loop, vals []*term.Term) *term.Term {
		if l == nil {
			return term.True
		}
		var or []*term.Term
		for _, t := range w.set[l] {
			var eq []*term.Term
			for i := range vals {
				eq = append(eq, term.Eq(vals[i], constOf(vals[i].S, t.v[i])))
			}
			or = append(or, term.And(eq...))
		}
		return term.Or(or...)
	}
	// obligations
	for _, a := range arcs {
		hy := append(w.hyps(a.src), facts(a.ch)...)
		hy = append(hy, in(a.src, w.fin[a.src]))
		al, cr := w.passes(a.ch, a.q)
		kind := "invariant (entry)"
		if a.src != nil {
			kind = "invariant (preserved)"
		}
		p := posStr(w.s.P.Fset, a.tgt.Pos, w.s.Cfg.Repo)
		it := w.r.prove(fn, kind, "the position moves over whole characters", p, prove.VC{Hyps: hy, Guard: a.e.G, Goal: al}, prove.Options{Limit: 30 * time.Second})
		y.seed(it)
		it = w.r.prove(fn, kind, "no boundary "+tag(w.want)+" requires is passed", p, prove.VC{Hyps: hy, Guard: term.And(a.e.G, al), Goal: cr}, prove.Options{Limit: 30 * time.Second})
		w.seeds(it, a.src, a.ch)
		w.r.prove(fn, kind, fmt.Sprintf("state and history are one of %d combinations", len(w.set[a.tgt])), p, prove.VC{Hyps: hy, Guard: term.And(a.e.G, al, cr), Goal: in(a.tgt, a.vals)}, prove.Options{Limit: 60 * time.Second})
	}
	exits := 0
	for i, o := range y.Outs {
		adv, ok := o.Res[0].(*term.Term)
		if !ok {
			return fmt.Errorf("the advance is not a number")
		}
		g := term.And(o.G, term.Not(term.Eq(adv, c64(0))))
		if g.IsFalse() {
			continue
		}
		exits++
		ch := w.chain(w.at(o.Src), h(o.Src), maxChars+2)
		hy := append(w.hyps(o.Src), facts(ch)...)
		hy = append(hy, in(o.Src, w.fin[o.Src]))
		al, cr := w.passes(ch[:maxChars+1], adv)
		nm := fmt.Sprintf(" (return %d)", i+1)
		it := w.r.prove(fn, "post", "the token holds whole characters"+nm, "", prove.VC{Hyps: hy, Guard: g, Goal: al}, prove.Options{Limit: 30 * time.Second})
		y.seed(it)
		it = w.r.prove(fn, "post", "the token has no boundary "+tag(w.want)+" requires inside"+nm, "", prove.VC{Hyps: hy, Guard: term.And(g, al), Goal: cr}, prove.Options{Limit: 30 * time.Second})
		w.seeds(it, o.Src, ch)
		var cut []*term.Term
		for _, c := range ch[:maxChars+1] {
			cut = append(cut, term.Implies(term.Eq(adv, c.pos), term.Or(c.end, term.Not(w.wants(c.h, c.cls, spec.MustJoin)))))
		}
		it = w.r.prove(fn, "post", "the token does not end where "+tag(w.want)+" forbids a boundary"+nm, "", prove.VC{Hyps: hy, Guard: term.And(g, al, cr), Goal: term.And(cut...)}, prove.Options{Limit: 30 * time.Second})
		w.seeds(it, o.Src, ch)
	}
	if exits == 0 {
		w.r.fail(fn, "cover", "some return yields a token", "none does")
	}
	// vacuity: every class can be met and the token can end somewhere
	if len(y.Loops) > 0 {
		classes := map[uint64]bool{}
		for _, l := range y.Loops {
			nh := len(leaves(w.hist[l]))
			for _, t := range w.set[l] {
				classes[t.v[len(w.fin[l])-nh+1]] = true
			}
		}
		wantC := map[uint64]bool{}
		for _, c := range w.s.allClasses() {
			wantC[uint64(w.viewOf(c))] = true
		}
		if len(classes) < len(wantC) {
			w.r.fail(fn, "cover", "every class of character is met", fmt.Sprintf("%d of %d", len(classes), len(wantC)))
		} else {
			w.r.ok(fn, "cover", fmt.Sprintf("every class of character is met: %d; %d combinations", len(wantC), n), "z3")
		}
	}
	return nil
}

func tag(want string) string { return "the specification (" + want + ")" }

func less(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func constOf(s term.Sort, v uint64) *term.Term {
	if s.IsBool() {
		return term.BoolC(v != 0)
	}
	return term.Const(s.W, v)
}

// sample is a character of a class.
func (w *walker) sample(raw uint8) []byte {
	for _, v := range sortedU8(w.l.pairs[raw]) {
		return encode(w.l.pairs[raw][v])
	}
	return nil
}

// seeds builds texts that follow a refuted obligation.
func (w *walker) seeds(it *Item, src *sym.Loop, ch []*step) {
	if it.model == nil {
		return
	}
	val := func(t *term.Term) (uint64, bool) {
		okv := true
		p := term.Compile(t)
		p.Run(&term.Env{Vars: it.model, Arr: func(a *term.Term, i uint64) uint64 { okv = false; return 0 }, Fun: func(*term.Term, []uint64) uint64 { okv = false; return 0 }})
		return p.Out(0), okv
	}
	var pre []byte
	if src != nil {
		for _, t := range w.set[src] {
			hit := true
			for i, v := range w.fin[src] {
				if x, ok := it.model[v]; ok && x != t.v[i] {
					hit = false
				}
			}
			if hit {
				pre = t.witness
				break
			}
		}
	}
	texts := [][]byte{pre}
	for _, c := range ch {
		x, ok := it.model[c.raw]
		if !ok {
			x, ok = val(c.raw)
		}
		if !ok {
			continue
		}
		var next [][]byte
		for _, t := range texts {
			for _, v := range sortedU8(w.l.pairs[uint8(x)]) {
				next = append(next, append(append([]byte{}, t...), encode(w.l.pairs[uint8(x)][v])...))
			}
		}
		if len(next) > 0 && len(next) < 64 {
			texts = next
		}
		it.seeds = append(it.seeds, texts...)
	}
}

func (w *walker) viewOf(c uint8) uint8 {
	switch w.view {
	case "View07":
		return spec.View07(c)
	case "View08":
		return spec.View08(c)
	case "View09":
		return spec.View09(c)
	}
	return spec.View06(c)
}

func (w *walker) wantOf(h spec.Hist, c uint8) int {
	switch w.want {
	case "Want07":
		return spec.Want07(h, c)
	case "Want08":
		return spec.Want08(h, c)
	case "Want09":
		return spec.Want09(h, c)
	}
	return spec.Want06(h, c)
}

// restart is the lemma that lets a scan begin afresh wherever a token may end:
// the history of the characters since then decides as the whole history does.
func (w *walker) restart() {
	type pair struct{ g, l spec.Hist }
	var cs []uint8
	have := map[uint8]bool{}
	for _, c := range w.s.allClasses() {
		if v := w.viewOf(c); !have[v] {
			have[v] = true
			cs = append(cs, v)
		}
	}
	seen := map[pair]bool{{}: true}
	work := []pair{{}}
	bad := ""
	for len(work) > 0 && bad == "" {
		p := work[0]
		work = work[1:]
		for _, c := range cs {
			lw := w.wantOf(p.l, c)
			if p.l.Some && p.g.Some && lw != w.wantOf(p.g, c) {
				bad = fmt.Sprintf("%+v and %+v before %#x", p.g, p.l, c)
				break
			}
			next := []pair{{spec.Step(p.g, c), spec.Step(p.l, c)}}
			if lw != spec.MustJoin && p.l.Some {
				next = append(next, pair{spec.Step(p.g, c), spec.Step(spec.Hist{}, c)})
			}
			for _, n := range next {
				if !seen[n] {
					seen[n] = true
					work = append(work, n)
				}
			}
		}
	}
	name := "restarting where a boundary may be does not change what " + tag(w.want) + " requires later"
	if bad != "" {
		w.r.fail("spec", "lemma", name, bad)
		return
	}
	it := w.r.ok("spec", "lemma", name, fmt.Sprintf("closure of %d pairs of histories", len(seen)))
	it.Count = 1
}

var _ = strings.Join
