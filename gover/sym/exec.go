package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/term"
)

func constInt(v constant.Value) (int64, bool) {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return i, true
	}
	if u, ok := constant.Uint64Val(v); ok {
		return int64(u), true
	}
	return 0, false
}

// Oblig is a proof obligation: Guard implies Goal.
type Oblig struct {
	Kind  string // safety, frame, unsupported, pre
	Name  string
	Pos   token.Pos
	Fn    string
	Guard *term.Term
	Goal  *term.Term
	Facts int
	Src   *Loop
}

// Edge leads to a loop head or a return.
type Edge struct {
	Src  *Loop
	G    *term.Term
	Vals map[string]*term.Term
	Back bool
}

// Loop is one cut loop instance.
type Loop struct {
	Key   string
	Pos   token.Pos
	Vars  []LoopVar
	In    []*Edge
	G     *term.Term // guard of the havocked head state
	Facts int
	Src   *Loop
}

type LoopVar struct {
	Name string
	Var  *term.Term
}

// Outcome is a way a function returns.
type Outcome struct {
	G   *term.Term
	Res []Value
	Mem map[*Obj]Value
	Src *Loop
}

// State is a symbolic machine state inside one function.
type State struct {
	G    *term.Term
	Regs map[ssa.Value]Value
	Mem  map[*Obj]Value
	Src  *Loop
}

func (s *State) fork() *State {
	r := &State{G: s.G, Src: s.Src, Regs: make(map[ssa.Value]Value, len(s.Regs)+8), Mem: make(map[*Obj]Value, len(s.Mem)+2)}
	for k, v := range s.Regs {
		r.Regs[k] = v
	}
	for k, v := range s.Mem {
		r.Mem[k] = v
	}
	return r
}

// Call is what a hook sees.
type Call struct {
	X    *Exec
	St   *State
	Fn   *ssa.Function // nil for dynamic calls
	Name string
	Args []Value
	Pos  token.Pos
	Sig  *types.Signature
}

// MapModel is told of what is done with maps; false leaves it to the executor.
type MapModel interface {
	Lookup(st *State, m *MapRef, key Value, elem types.Type, pos token.Pos) (v Value, found *term.Term, ok bool)
	Update(st *State, m *MapRef, key, v Value, pos token.Pos) bool
}

// Exec is one symbolic execution.
type Exec struct {
	P     *Program
	World *World
	// Hook may replace a call; it returns the outcomes.
	Hook func(c *Call) ([]Outcome, bool)
	// Maps may follow maps whose keys are not constant.
	Maps MapModel
	// Feasible decides whether a guard can hold; nil means yes.
	Feasible func(x *Exec, g *term.Term) bool

	Obligs []*Oblig
	Facts  []*term.Term
	Axioms []*term.Term // facts that hold whatever the path
	Loops  []*Loop

	// NoSafety drops run-time panics as obligations and assumes they do not happen.
	NoSafety bool
	// Name gives a name to what is read where its term is larger.
	Name int
	// Few gives up soon on unrolling a loop whose length is not known.
	Few bool

	stack    []string
	fns      []*ssa.Function
	initMode bool
	steps    int
	Called   map[string]int
	unsup    []string
	budget   int
	lib      *libRun

	// GhostQ and GhostJ are the element of a sequence and the byte of it that
	// are followed; SeqObj counts the appends to sequences.
	GhostQ, GhostJ *term.Term
	seqObj         *Obj
	frozen         map[*Obj]bool
}

// SeqObj is the memory that orders appends to sequences.
func (x *Exec) SeqObj() *Obj {
	if x.seqObj == nil {
		x.seqObj = x.World.NewObj("appends", nil, i64(0))
	}
	return x.seqObj
}

// freeze marks memory a sequence refers to: it must not be written any more.
func (x *Exec) freeze(o *Obj) {
	if x.frozen == nil {
		x.frozen = map[*Obj]bool{}
	}
	x.frozen[o] = true
}

func (x *Exec) writes(st *State, o *Obj, pos token.Pos) {
	if x.frozen[o] {
		x.Unsupported(st, "write to memory that is an element of a sequence", pos)
	}
}

// World holds what is shared by executions: globals and loop decisions.
type World struct {
	P        *Program
	globals  map[*ssa.Global]*Obj
	inited   map[*ssa.Package]bool
	cfgs     map[*ssa.Function]*cfg
	cut      map[*ssa.BasicBlock]bool
	nextObj  int
	tableN   int
	Mutable  map[*ssa.Global]bool
	InitErrs []string

	// Unread are the library functions too long to execute: pure functions of
	// their arguments are left uninterpreted.
	Unread map[string]bool
}

func NewWorld(p *Program) *World {
	return &World{P: p, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, cfgs: map[*ssa.Function]*cfg{}, cut: map[*ssa.BasicBlock]bool{}, Mutable: map[*ssa.Global]bool{}, Unread: map[string]bool{}}
}

func (w *World) cfg(fn *ssa.Function) *cfg {
	c := w.cfgs[fn]
	if c == nil {
		c = buildCFG(fn)
		w.cfgs[fn] = c
	}
	return c
}

func (w *World) NewObj(name string, t types.Type, init Value) *Obj {
	w.nextObj++
	return &Obj{ID: w.nextObj, Name: name, Typ: t, Init: init}
}

func (w *World) Exec() *Exec {
	return &Exec{P: w.P, World: w, Called: map[string]int{}, budget: 2000000}
}

func (x *Exec) oblig(st *State, kind, name string, pos token.Pos, goal *term.Term) {
	if x.initMode {
		return
	}
	if goal.IsTrue() || st.G.IsFalse() {
		return
	}
	if term.Implies(st.G, goal).IsTrue() {
		return
	}
	fn := ""
	if len(x.fns) > 0 {
		fn = x.fns[len(x.fns)-1].String()
	}
	x.Obligs = append(x.Obligs, &Oblig{Kind: kind, Name: name, Pos: pos, Fn: fn, Guard: st.G, Goal: goal, Facts: len(x.Facts), Src: st.Src})
	if kind == "safety" || kind == "pre" {
		x.Facts = append(x.Facts, term.Implies(st.G, goal))
	}
}

func (x *Exec) Unsupported(st *State, what string, pos token.Pos) {
	if x.initMode {
		x.unsup = append(x.unsup, what)
		return
	}
	x.oblig(st, "unsupported", what, pos, term.False)
}

func (x *Exec) Assume(t *term.Term) {
	if !t.IsTrue() {
		x.Facts = append(x.Facts, t)
	}
}

// Axiom assumes what holds on every path, also after a loop is executed again.
func (x *Exec) Axiom(t *term.Term) {
	if !t.IsTrue() {
		x.Axioms = append(x.Axioms, t)
	}
}

// Opaque makes a value nothing is known about.
func (x *Exec) havocVal(name string, t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		r := &TupleV{}
		for i := 0; i < tu.Len(); i++ {
			r.Elems = append(r.Elems, x.havocVal(name, tu.At(i).Type()))
		}
		return r
	}
	v, err := FreshVal(name, t)
	if err != nil {
		return &OpaqueV{Name: fmt.Sprintf("%s!%d", name, x.nextID())}
	}
	return v
}

func (x *Exec) nextID() int { x.World.nextObj++; return x.World.nextObj }

// ---- functions ----

type frame struct {
	x    *Exec
	fn   *ssa.Function
	c    *cfg
	rets []*Outcome
	defs []*deferred
	open map[*ssa.BasicBlock]bool // whose test depended on the inputs
}

type edgeState struct {
	from *ssa.BasicBlock
	slot int // index among to.Preds
	to   *ssa.BasicBlock
	st   *State
}

const maxDepth = 60

// Run executes fn on args from a given memory.
func (x *Exec) Run(fn *ssa.Function, args, bindings []Value, st *State) []Outcome {
	if fn.Blocks == nil {
		x.Unsupported(st, "call of "+fn.String()+" (no body)", fn.Pos())
		return []Outcome{{G: st.G, Res: x.havocResults(fn), Mem: st.Mem, Src: st.Src}}
	}
	rec := 0
	for _, f := range x.fns {
		if f == fn {
			rec++
		}
	}
	if len(x.fns) > maxDepth || rec > 3 {
		x.Unsupported(st, "recursive call of "+fn.String(), fn.Pos())
		return []Outcome{{G: st.G, Res: x.havocResults(fn), Mem: st.Mem, Src: st.Src}}
	}
	x.Called[fn.String()]++
	x.fns = append(x.fns, fn)
	defer func() { x.fns = x.fns[:len(x.fns)-1] }()
	c := x.World.cfg(fn)
	if c.bad != "" {
		x.Unsupported(st, c.bad+" in "+fn.String(), fn.Pos())
		return []Outcome{{G: st.G, Res: x.havocResults(fn), Mem: st.Mem, Src: st.Src}}
	}
	s := &State{G: st.G, Src: st.Src, Regs: map[ssa.Value]Value{}, Mem: map[*Obj]Value{}}
	for k, v := range st.Mem {
		s.Mem[k] = v
	}
	for i, p := range fn.Params {
		s.Regs[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		s.Regs[b] = bindings[i]
	}
	f := &frame{x: x, fn: fn, c: c}
	f.region(c.root, []*edgeState{{to: fn.Blocks[0], slot: -1, st: s}})
	return mergeOutcomes(f.rets)
}

func (x *Exec) havocResults(fn *ssa.Function) []Value {
	var r []Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		r = append(r, x.havocVal(fn.Name()+".result", res.At(i).Type()))
	}
	return r
}

func mergeOutcomes(in []*Outcome) []Outcome {
	var out []Outcome
next:
	for _, o := range in {
		if o.G.IsFalse() {
			continue
		}
		for i := range out {
			p := &out[i]
			if p.Src != o.Src || len(p.Res) != len(o.Res) {
				continue
			}
			c := diffCond(p.G, o.G)
			res, ok := mergeList(c, p.Res, o.Res)
			if !ok {
				continue
			}
			mem, ok := mergeMem(c, p.Mem, o.Mem)
			if !ok {
				continue
			}
			p.G, p.Res, p.Mem = term.Or(p.G, o.G), res, mem
			continue next
		}
		out = append(out, *o)
	}
	return out
}

// diffCond is a condition that, when either guard holds, says whether it is a:
// a without the conjuncts it shares with b.
func diffCond(a, b *term.Term) *term.Term {
	shared := map[*term.Term]bool{}
	for _, c := range conjs(b) {
		shared[c] = true
	}
	var r []*term.Term
	for _, c := range conjs(a) {
		if !shared[c] {
			r = append(r, c)
		}
	}
	// a simpler way to say it: the negation of what b has alone
	inA := map[*term.Term]bool{}
	for _, c := range conjs(a) {
		inA[c] = true
	}
	var q []*term.Term
	for _, c := range conjs(b) {
		if !inA[c] {
			q = append(q, c)
		}
	}
	if len(q) < len(r) {
		return term.Not(term.And(q...))
	}
	return term.And(r...)
}

func conjs(t *term.Term) []*term.Term {
	if t.Op == term.OpAnd {
		return t.Args
	}
	return []*term.Term{t}
}

func mergeMem(c *term.Term, a, b map[*Obj]Value) (map[*Obj]Value, bool) {
	r := make(map[*Obj]Value, len(a))
	for o, v := range a {
		w, ok := b[o]
		if !ok {
			if o.Init == nil || v == o.Init {
				r[o] = v
				continue
			}
			w = o.Init
		}
		m, ok := merge(c, v, w)
		if !ok {
			return nil, false
		}
		r[o] = m
	}
	for o, w := range b {
		if _, ok := a[o]; ok {
			continue
		}
		v := o.Init
		if v == nil || w == v {
			r[o] = w
			continue
		}
		m, ok := merge(c, v, w)
		if !ok {
			return nil, false
		}
		r[o] = m
	}
	return r, true
}

// enter applies the phis of an edge's target and drops dead registers.
func (f *frame) enter(e *edgeState) *State {
	s := e.st
	b := e.to
	live := f.c.live[b]
	r := &State{G: s.G, Src: s.Src, Mem: s.Mem, Regs: make(map[ssa.Value]Value, len(live))}
	for v := range live {
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
			continue
		}
		if x, ok := s.Regs[v]; ok {
			r.Regs[v] = x
		}
	}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if e.slot >= 0 {
			r.Regs[phi] = f.val(s, phi.Edges[e.slot])
		}
	}
	return r
}

func (f *frame) mergeStates(in []*State) []*State {
	var out []*State
next:
	for _, s := range in {
		if s.G.IsFalse() {
			continue
		}
		for i, p := range out {
			if p.Src != s.Src {
				continue
			}
			c := diffCond(p.G, s.G)
			ok := true
			regs := make(map[ssa.Value]Value, len(p.Regs))
			for k, v := range p.Regs {
				w, has := s.Regs[k]
				if !has {
					ok = false
					break
				}
				m, mok := merge(c, v, w)
				if !mok {
					ok = false
					break
				}
				regs[k] = m
			}
			if !ok || len(s.Regs) != len(p.Regs) {
				continue
			}
			mem, mok := mergeMem(c, p.Mem, s.Mem)
			if !mok {
				continue
			}
			out[i] = &State{G: term.Or(p.G, s.G), Src: p.Src, Regs: regs, Mem: mem}
			continue next
		}
		out = append(out, s)
	}
	return out
}

// region runs one loop body (or function body) from states at its entry and
// returns the edges leaving it and the edges back to its head.
func (f *frame) region(l *loopInfo, entry []*edgeState) (exits, back []*edgeState) {
	in := map[*ssa.BasicBlock][]*edgeState{}
	start := entry[0].to
	in[start] = entry
	route := func(e *edgeState) {
		switch {
		case l.head != nil && e.to == l.head:
			back = append(back, e)
		case !l.body[e.to]:
			exits = append(exits, e)
		default:
			in[e.to] = append(in[e.to], e)
		}
	}
	for _, b := range f.c.rpo[f.c.num[start]:] {
		if !l.body[b] || len(in[b]) == 0 {
			continue
		}
		if kid := l.kids[b]; kid != nil {
			for _, e := range f.loop(kid, in[b]) {
				route(e)
			}
			continue
		}
		if f.c.inner[b] != l && b != l.head {
			continue
		}
		var sts []*State
		if b == l.head {
			for _, e := range in[b] {
				sts = append(sts, e.st) // phis already applied
			}
		} else {
			for _, e := range in[b] {
				sts = append(sts, f.enter(e))
			}
		}
		for _, st := range f.mergeStates(sts) {
			for _, e := range f.block(b, st) {
				route(e)
			}
		}
	}
	return
}

type snapshot struct{ ob, fa, lo, re int }

func (f *frame) snap() snapshot {
	return snapshot{len(f.x.Obligs), len(f.x.Facts), len(f.x.Loops), len(f.rets)}
}
func (f *frame) restore(s snapshot) {
	f.x.Obligs = f.x.Obligs[:s.ob]
	f.x.Facts = f.x.Facts[:s.fa]
	f.x.Loops = f.x.Loops[:s.lo]
	f.rets = f.rets[:s.re]
}

const (
	symUnroll   = 6
	knownUnroll = 40
	constUnroll = 20000
)

func (f *frame) loop(l *loopInfo, entry []*edgeState) (exits []*edgeState) {
	var sts []*State
	for _, e := range entry {
		sts = append(sts, f.enter(e))
	}
	for _, st := range f.mergeStates(sts) {
		exits = append(exits, f.loopFrom(l, st)...)
	}
	return exits
}

func (f *frame) loopFrom(l *loopInfo, st *State) []*edgeState {
	x := f.x
	if !x.World.cut[l.head] {
		if ex, ok := f.unroll(l, st); ok {
			return ex
		}
		x.World.cut[l.head] = true
	}
	return f.cutLoop(l, st)
}

// knownTest reports that the test at the loop's head came out the same way
// for whatever the inputs are, in the iteration before.
func (f *frame) knownTest(l *loopInfo) bool {
	br, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || f.open[l.head] {
		return false
	}
	if _, ok = br.Cond.(*ssa.Const); ok {
		return false
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch in := ins.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); !ok || a.Heap {
					return false // too much to repeat
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}

func (f *frame) unroll(l *loopInfo, st *State) ([]*edgeState, bool) {
	x := f.x
	s0 := f.snap()
	var exits []*edgeState
	cur := []*State{st}
	sym := 0
	base := len(conjs(st.G))
	for it := 0; it < constUnroll; it++ {
		if x.lib != nil && time.Now().After(x.lib.until) {
			panic(x.lib)
		}
		var next []*State
		delete(f.open, l.head)
		for _, s := range cur {
			ex, back := f.region(l, []*edgeState{{to: l.head, slot: -1, st: s}})
			exits = append(exits, ex...)
			for _, e := range back {
				next = append(next, f.enter(e))
			}
		}
		next = f.mergeStates(next)
		var alive []*State
		for _, s := range next {
			if s.G.IsFalse() {
				continue
			}
			alive = append(alive, s)
		}
		if len(alive) == 0 {
			return exits, true
		}
		if os.Getenv("GOVER_DEBUG_UNROLL") != "" {
			fmt.Fprintf(os.Stderr, "unroll %s it %d alive %d facts %d axioms %d guard %.300s\n", f.fn, it, len(alive), len(x.Facts), len(x.Axioms), alive[0].G)
		}
		symbolic := false
		for _, s := range alive {
			if s.G != st.G {
				symbolic = true
			}
		}
		if symbolic && it < knownUnroll && f.knownTest(l) {
			symbolic = false // its turns are counted by constants
		}
		if symbolic {
			sym++
			var feas []*State
			for _, s := range alive {
				if x.Feasible == nil || x.Feasible(x, s.G) {
					feas = append(feas, s)
				}
			}
			alive = feas
			if len(alive) == 0 {
				return exits, true
			}
			if sym > symUnroll || x.Few && sym > 1 {
				break
			}
		}
		if len(alive) > 64 {
			break
		}
		cur = alive
	}
	_ = base
	f.restore(s0)
	return nil, false
}

func (f *frame) cutLoop(l *loopInfo, st *State) []*edgeState {
	x := f.x
	s0 := f.snap()
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
	}
	type slot struct {
		phi *ssa.Phi
		obj *Obj
	}
	shape := map[slot]Value{}
	var slots []slot
	names := map[slot]string{}
	used := map[string]bool{}
	addSlot := func(k slot, n string, v Value) {
		for used[n] {
			n += "'"
		}
		used[n] = true
		names[k] = n
		slots = append(slots, k)
		shape[k] = v
	}
	for i, phi := range phis {
		n := phi.Comment
		if n == "" {
			n = fmt.Sprintf("phi%d", i)
		}
		addSlot(slot{phi: phi}, n, st.Regs[phi])
	}
	pinned := map[string]bool{}
	key := strings.Join(x.stack, ">") + ">" + f.fn.String() + fmt.Sprintf("#loop%d", l.ord)
	for _, lo := range x.Loops {
		if lo.Key == key {
			key += "'"
		}
	}
	for try := 0; try < 60; try++ {
		f.restore(s0)
		lp := &Loop{Key: key, Pos: l.head.Instrs[0].Pos(), Src: st.Src}
		h := st.fork()
		entryVals := map[string]*term.Term{}
		bad := ""
		for _, k := range slots {
			var ev Value
			if k.phi != nil {
				ev = st.Regs[k.phi]
			} else {
				ev = readMem(st, k.obj)
			}
			Leaves(names[k], ev, func(n string, t *term.Term) { entryVals[n] = t })
			sh := shape[k]
			var leafNames []string
			Leaves(names[k], sh, func(n string, t *term.Term) { leafNames = append(leafNames, n) })
			i := 0
			hv := MapLeaves(sh, func(t *term.Term) *term.Term {
				n := leafNames[i]
				i++
				if pinned[n] {
					if e, ok := entryVals[n]; ok {
						return e
					}
				}
				if t.IsConst() && !strings.Contains(n, ".") && false {
					return t
				}
				v := term.Fresh("L."+n, t.S)
				lp.Vars = append(lp.Vars, LoopVar{n, v})
				return v
			})
			if i != len(leafNames) {
				bad = "loop variable " + names[k]
			}
			if k.phi != nil {
				h.Regs[k.phi] = hv
			} else {
				h.Mem[k.obj] = hv
			}
			x.typeInvariant(hv)
		}
		h.Src = lp
		lp.G = st.G
		lp.Facts = len(x.Facts)
		lp.In = append(lp.In, &Edge{Src: st.Src, G: st.G, Vals: entryVals})
		x.Loops = append(x.Loops, lp)
		exits, back := f.region(l, []*edgeState{{to: l.head, slot: -1, st: h}})
		// collect back edges
		restart := false
		var bs []*State
		for _, e := range back {
			bs = append(bs, f.enter(e))
		}
		bs = f.mergeStates(bs)
		vals := make([]map[string]*term.Term, len(bs))
		for bi, b := range bs {
			vals[bi] = map[string]*term.Term{}
			// memory changes
			var objs []*Obj
			for o := range b.Mem {
				objs = append(objs, o)
			}
			sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
			for _, o := range objs {
				before, had := h.Mem[o]
				if !had {
					before = o.Init
					if !o.Input && !o.Const && o.Init == nil {
						continue // allocated inside the body
					}
					if before == nil {
						continue
					}
				}
				if b.Mem[o] == before || sameValue(b.Mem[o], before) {
					continue
				}
				k := slot{obj: o}
				if _, ok := shape[k]; !ok {
					addSlot(k, "mem."+o.Name, readMem(st, o))
					restart = true
				}
			}
			for _, k := range slots {
				var bv Value
				if k.phi != nil {
					bv = b.Regs[k.phi]
				} else {
					bv = readMem(b, k.obj)
				}
				if bv == nil {
					continue
				}
				sh := shape[k]
				if !sameShape(sh, bv) {
					m, ok := merge(term.Fresh("shape", term.Bool), sh, bv)
					if !ok {
						bad = "the values of " + names[k] + " in a loop"
						continue
					}
					if !sameShape(m, sh) {
						shape[k] = m
						restart = true
					}
				}
				Leaves(names[k], bv, func(n string, t *term.Term) { vals[bi][n] = t })
			}
		}
		if bad != "" {
			x.Unsupported(h, bad, lp.Pos)
			return exits
		}
		if restart {
			continue
		}
		for _, k := range slots {
			if k.obj != nil && !k.obj.Volatile {
				x.writes(h, k.obj, lp.Pos)
			}
		}
		// variables no back edge changes keep their entry value
		for _, v := range lp.Vars {
			same := true
			for bi := range bs {
				if t, ok := vals[bi][v.Name]; ok && t != v.Var {
					same = false
				}
			}
			if _, ok := entryVals[v.Name]; same && ok {
				pinned[v.Name] = true
				restart = true
			}
		}
		if restart {
			continue
		}
		for bi, b := range bs {
			lp.In = append(lp.In, &Edge{Src: b.Src, G: b.G, Vals: vals[bi], Back: true})
		}
		return exits
	}
	x.Unsupported(st, "loop did not stabilise", l.head.Instrs[0].Pos())
	return nil
}

// SameValue says that two values are certainly the same.
func SameValue(a, b Value) bool { return sameValue(a, b) }

func sameValue(a, b Value) bool {
	if !sameShape(a, b) {
		return false
	}
	var la, lb []*term.Term
	Leaves("", a, func(_ string, t *term.Term) { la = append(la, t) })
	Leaves("", b, func(_ string, t *term.Term) { lb = append(lb, t) })
	if len(la) != len(lb) {
		return false
	}
	for i := range la {
		if la[i] != lb[i] {
			return false
		}
	}
	return len(la) > 0
}

// typeInvariant records what holds of every value of its kind.
func (x *Exec) typeInvariant(v Value) {
	switch y := v.(type) {
	case *SliceV:
		z := i64(0)
		lim := i64(1 << 62)
		for _, t := range []*term.Term{term.Sle(z, y.Off), term.Sle(y.Off, lim), term.Sle(z, y.Len), term.Sle(y.Len, y.Cap), term.Sle(y.Cap, lim), term.Implies(y.Nil, term.Eq(y.Cap, z))} {
			x.Assume(t)
		}
	case *SeqV:
		x.Assume(term.And(term.Sle(i64(0), y.Len), term.Sle(y.Len, i64(1<<46)), term.Implies(y.Nil, term.Eq(y.Len, i64(0)))))
	case *StringV:
		if y.Const == nil {
			x.Assume(term.Sle(i64(0), y.Off))
			x.Assume(term.Sle(y.Off, i64(1<<62)))
			x.Assume(term.Sle(i64(0), y.Len))
			x.Assume(term.Sle(y.Len, i64(1<<62)))
		}
	case *StructV:
		for _, e := range y.Fields {
			x.typeInvariant(e)
		}
	case *ArrayV:
		for _, e := range y.Elems {
			x.typeInvariant(e)
		}
	case *TupleV:
		for _, e := range y.Elems {
			x.typeInvariant(e)
		}
	case *IfaceV:
		if y.Val != nil {
			x.typeInvariant(y.Val)
		}
	}
}

// ---- memory ----

func readMem(st *State, o *Obj) Value {
	if v, ok := st.Mem[o]; ok {
		return v
	}
	return o.Init
}

func (x *Exec) load(st *State, p *PtrV, t types.Type, pos token.Pos) Value {
	x.oblig(st, "safety", "nil pointer dereference", pos, term.Not(p.Nil))
	if p.Obj == nil {
		return x.havocVal("nil-deref", t)
	}
	v := readMem(st, p.Obj)
	r, ok := x.get(v, p.Path)
	if !ok {
		x.Unsupported(st, "load from "+p.Obj.Name, pos)
		return x.havocVal("load", t)
	}
	return r
}

func (x *Exec) get(v Value, path []PathElem) (Value, bool) {
	for i, e := range path {
		if e.Idx == nil {
			s, ok := v.(*StructV)
			if !ok || e.Field >= len(s.Fields) {
				return nil, false
			}
			v = s.Fields[e.Field]
			continue
		}
		switch a := v.(type) {
		case *LazyV:
			v = a.Get(e.Idx)
			continue
		case *RegionV:
			if i != len(path)-1 {
				return nil, false
			}
			r := term.Select(a.Arr, e.Idx)
			if x.Name > 0 && !r.S.IsBool() && term.Size(r) > x.Name {
				n := term.Fresh("read", r.S)
				x.Assume(term.Eq(n, r))
				r = n
			}
			return r, true
		case *ArrayV:
			if e.Idx.IsConst() {
				if e.Idx.Val >= uint64(len(a.Elems)) {
					return nil, false
				}
				v = a.Elems[e.Idx.Val]
				continue
			}
			if i == len(path)-1 {
				if t, ok := x.World.tableFor(a); ok {
					return term.Table(t, e.Idx), true
				}
			}
			if len(a.Elems) == 0 || len(a.Elems) > 64 {
				return nil, false
			}
			rest := path[i+1:]
			r, ok := x.get(a.Elems[len(a.Elems)-1], rest)
			if !ok {
				return nil, false
			}
			for k := len(a.Elems) - 2; k >= 0; k-- {
				q, ok := x.get(a.Elems[k], rest)
				if !ok {
					return nil, false
				}
				if r, ok = merge(term.Eq(e.Idx, i64(k)), q, r); !ok {
					return nil, false
				}
			}
			return r, true
		default:
			return nil, false
		}
	}
	return v, true
}

func (x *Exec) set(v Value, path []PathElem, nv Value) (Value, bool) {
	if len(path) == 0 {
		return nv, true
	}
	e := path[0]
	if e.Idx == nil {
		s, ok := v.(*StructV)
		if !ok || e.Field >= len(s.Fields) {
			return nil, false
		}
		f, ok := x.set(s.Fields[e.Field], path[1:], nv)
		if !ok {
			return nil, false
		}
		r := &StructV{Fields: append([]Value{}, s.Fields...)}
		r.Fields[e.Field] = f
		return r, true
	}
	switch a := v.(type) {
	case *RegionV:
		t, ok := nv.(*term.Term)
		if !ok || len(path) != 1 {
			return nil, false
		}
		return &RegionV{term.Store(a.Arr, e.Idx, t)}, true
	case *ArrayV:
		if e.Idx.IsConst() {
			if e.Idx.Val >= uint64(len(a.Elems)) {
				return nil, false
			}
			f, ok := x.set(a.Elems[e.Idx.Val], path[1:], nv)
			if !ok {
				return nil, false
			}
			if x.initMode && a.owned {
				a.Elems[e.Idx.Val] = f
				a.table = ""
				return a, true
			}
			r := &ArrayV{Elems: append([]Value{}, a.Elems...), owned: x.initMode}
			r.Elems[e.Idx.Val] = f
			return r, true
		}
		if len(a.Elems) > 64 {
			return nil, false
		}
		r := &ArrayV{Elems: make([]Value, len(a.Elems))}
		for k := range a.Elems {
			f, ok := x.set(a.Elems[k], path[1:], nv)
			if !ok {
				return nil, false
			}
			if r.Elems[k], ok = merge(term.Eq(e.Idx, i64(k)), f, a.Elems[k]); !ok {
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}

func (x *Exec) store(st *State, p *PtrV, v Value, pos token.Pos) {
	x.oblig(st, "safety", "nil pointer dereference", pos, term.Not(p.Nil))
	if p.Obj == nil {
		return
	}
	if (p.Obj.Const || p.Obj.Input) && !x.initMode {
		x.oblig(st, "frame", "write to "+p.Obj.Name, pos, term.False)
	}
	x.writes(st, p.Obj, pos)
	nv, ok := x.set(readMem(st, p.Obj), p.Path, v)
	if !ok {
		x.Unsupported(st, "store to "+p.Obj.Name, pos)
		return
	}
	st.Mem[p.Obj] = nv
}

// tableFor registers a constant scalar array as a table.
func (w *World) tableFor(a *ArrayV) (string, bool) {
	if a.table != "" {
		return a.table, true
	}
	if len(a.Elems) == 0 {
		return "", false
	}
	vals := make([]uint64, len(a.Elems))
	var s term.Sort
	for i, e := range a.Elems {
		t, ok := e.(*term.Term)
		if !ok || !t.IsConst() {
			return "", false
		}
		s = t.S
		vals[i] = t.Val
	}
	for n, d := range term.Tables {
		if d.W == s.W && len(d.Vals) == len(vals) {
			same := true
			for i := range vals {
				if vals[i] != d.Vals[i] {
					same = false
					break
				}
			}
			if same {
				a.table = n
				return n, true
			}
		}
	}
	w.tableN++
	n := fmt.Sprintf("table%d_%d", len(term.Tables), len(vals))
	term.Tables[n] = &term.TableDef{Name: n, W: s.W, Vals: vals}
	a.table = n
	return n, true
}

// Global gives the memory of a package-level variable, running the package's
// initialiser to know its content.
func (x *Exec) Global(g *ssa.Global) *Obj {
	w := x.World
	if o, ok := w.globals[g]; ok {
		return o
	}
	if g.Pkg != nil && !w.inited[g.Pkg] {
		w.runInit(g.Pkg)
		if o, ok := w.globals[g]; ok {
			return o
		}
	}
	t := g.Type().(*types.Pointer).Elem()
	z, err := Zero(t)
	if err != nil {
		z = &OpaqueV{Name: "global " + g.String()}
	}
	o := w.NewObj(g.String(), t, z)
	o.Const = true
	w.globals[g] = o
	return o
}

func (w *World) runInit(p *ssa.Package) {
	w.inited[p] = true
	x := w.Exec()
	x.initMode = true
	x.budget = 20000000
	// allocate all globals first
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			z, err := Zero(t)
			if err != nil {
				z = &OpaqueV{Name: "global " + g.String()}
			}
			o := w.NewObj(g.String(), t, z)
			w.globals[g] = o
		}
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	st := &State{G: term.True, Regs: map[ssa.Value]Value{}, Mem: map[*Obj]Value{}}
	outs := x.Run(init, nil, nil, st)
	w.InitErrs = append(w.InitErrs, x.unsup...)
	if len(outs) == 1 && outs[0].G.IsTrue() {
		for o, v := range outs[0].Mem {
			o.Init = v
			if a, ok := v.(*ArrayV); ok {
				w.tableFor(a)
			}
			if len(x.unsup) > 0 && len(o.Name) == 0 {
				continue
			}
		}
	} else {
		w.InitErrs = append(w.InitErrs, "initialiser of "+p.Pkg.Path()+" is not deterministic")
	}
	for o := range mapOf(outs) {
		o.Const = true
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			o := w.globals[g]
			o.Const = true
			if w.Mutable[g] {
				o.Init = x.havocVal("global."+g.Name(), o.Typ)
			}
		}
	}
}

func mapOf(outs []Outcome) map[*Obj]bool {
	r := map[*Obj]bool{}
	for _, o := range outs {
		for k := range o.Mem {
			r[k] = true
		}
	}
	return r
}

// Elem is an element of a slice, within its bounds.
func (x *Exec) Elem(st *State, s *SliceV, i *term.Term) (Value, bool) {
	if s.Obj == nil {
		return nil, false
	}
	return x.get(readMem(st, s.Obj), extend(s.Path, PathElem{Idx: term.Add(s.Off, i)}))
}

// SetElem writes an element of a slice.
func (x *Exec) SetElem(st *State, s *SliceV, i *term.Term, v Value, pos token.Pos) {
	x.store(st, &PtrV{Obj: s.Obj, Path: extend(s.Path, PathElem{Idx: term.Add(s.Off, i)}), Nil: term.False}, v, pos)
}

// Region is the content of a slice or string of scalars from offset zero of
// what it lies in.
func (x *Exec) Region(st *State, v Value) (arr, off, n *term.Term, ok bool) {
	switch s := v.(type) {
	case *SliceV:
		arr, ok = x.regionOf(st, s)
		return arr, s.Off, s.Len, ok
	case *StringV:
		if s.Const != nil {
			return nil, nil, nil, false
		}
		return s.Arr, s.Off, s.Len, true
	case *ArrayV:
		o := x.World.NewObj("value", nil, nil)
		st = &State{Mem: map[*Obj]Value{o: s}}
		arr, ok = x.regionOf(st, &SliceV{Obj: o})
		return arr, i64(0), i64(len(s.Elems)), ok
	}
	return nil, nil, nil, false
}

// Region0 is the array a slice lies in, from the start of the slice.
func (x *Exec) Region0(st *State, s *SliceV) (*term.Term, bool) {
	arr, ok := x.regionOf(st, s)
	return arr, ok && s.Off.IsConst() && s.Off.Val == 0
}

// Require records a precondition of something called.
func (x *Exec) Require(st *State, what string, pos token.Pos, goal *term.Term) {
	x.oblig(st, "pre", what, pos, goal)
}
