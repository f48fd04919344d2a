package check

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/prove"
	"gover/sym"
	"gover/term"
)

// Of the compaction: buildCompactedBlocks is proved against its contract for
// each number of levels, with calls of itself by the contract for fewer; Compact
// is proved with its calls by contract. The contract is over a fixed but
// arbitrary rest of a character's bytes.

// places is what is below a slot: the low six bits of the last byte, the one
// before it and the one before that.
type places [3]*term.Term

func givenPlaces() places {
	return places{term.Var("last", term.BV(64)), term.Var("middle", term.BV(64)), term.Var("third", term.BV(64))}
}

func (p places) known() *term.Term {
	var r []*term.Term
	for _, g := range p {
		r = append(r, term.Ult(g, c64(64)))
	}
	return term.And(r...)
}

// source is the value the tree under construction gives below number v of a
// slot with so many levels of index blocks below.
func (w *view) source(level int, v *term.Term, p places) *term.Term {
	zero := term.Eq(v, c64(0))
	if level == 0 {
		return term.Ite(zero, term.Const(8, 0), w.prop(slot(v, p[0])))
	}
	return term.Ite(zero, term.Const(8, 0), w.source(level-1, w.index(slot(v, p[level])), p))
}

// result is the value the run-time lookup gives, and exists says that its way is
// within the tables and by no zero.
func (w *view) result(level int, v *term.Term, p places) *term.Term {
	if level == 0 {
		return w.prop(slot(v, p[0]))
	}
	return w.result(level-1, w.index(slot(v, p[level])), p)
}

func (w *view) exists(level int, v *term.Term, p places) *term.Term {
	n := w.propsLen
	if level > 0 {
		n = w.idxLen
	}
	here := term.And(term.Sle(c64(64), slot(v, p[level])), term.Slt(slot(v, p[level]), n))
	if level == 0 {
		return here
	}
	return term.And(here, w.exists(level-1, w.index(slot(v, p[level])), p))
}

// kind says that a number found in a slot with so many levels below is of a
// block of the tree that exists and is of the right kind.
func (w *view) kind(h shape, level int, v *term.Term) *term.Term {
	zero := term.Eq(v, c64(0))
	if level == 0 {
		return term.Or(zero, term.And(term.Sle(c64(2), v), term.Slt(v, shr(w.propsLen, 6))))
	}
	return term.Or(zero, term.And(term.Sle(c64(1), v), term.Slt(v, shr(w.idxLen, 6)), term.Eq(h.below(v), c64(int64(level-1)))))
}

// compacted is the invariant of the sizes of the tables that are built.
func (w *view) compacted(t *view) *term.Term {
	return term.And(w.sizes(), term.Sle(w.idxLen, mostIndex(t)), term.Sle(w.propsLen, mostProps(t)))
}

// Every block of the tree is met once and gives one block at most. Besides, a
// map can get a block of nothing of each kind, and there are two maps: three
// blocks of nothing in the index table, as only one map can have one for two
// levels below, and two of properties.
func mostIndex(t *view) *term.Term { return term.Add(t.idxLen, c64(192)) }
func mostProps(t *view) *term.Term { return term.Add(t.propsLen, c64(128)) }

type level struct {
	n     int
	alias bool // the slot is in the root block of the table that is built
}

// compaction follows one execution.
type compaction struct {
	s     *Subject
	x     *sym.Exec
	fn    *ssa.Function // buildCompactedBlocks
	at    int           // its own level, 3 in Compact
	tree  *sym.Obj
	t     *view
	h     shape
	p     places
	g     *term.Term // the slot whose block is followed
	ret   *sym.Obj   // of the tables that are built, when known
	w0    *view      // the tables when the first call is made
	alias bool       // calls set slots of the root block
	pend  *sym.Obj
	last  *sym.Obj
	done  map[*sym.Obj]*sym.Obj // of each block that calls fill, what is known of it
	wants map[string]*term.Term
	defs  map[*term.Term][]known // what is known of an array's elements
	q     *term.Term
	any   *term.Term
	needs map[level]bool
	split map[*term.Term][]*term.Term
	vars  map[*term.Term][]*term.Term
	spans map[*term.Term][2]int64
	keys  map[*term.Term]bool
	batch []*Item
	work  []job
	calls []called
}

func (s *Subject) newCompaction(fn *ssa.Function, at int) *compaction {
	c := &compaction{s: s, x: s.W.Exec(), fn: fn, at: at, h: givenShape(), p: givenPlaces(), needs: map[level]bool{}}
	c.done, c.wants = map[*sym.Obj]*sym.Obj{}, map[string]*term.Term{}
	c.split, c.vars = map[*term.Term][]*term.Term{}, map[*term.Term][]*term.Term{}
	c.spans = map[*term.Term][2]int64{}
	c.defs, c.keys = map[*term.Term][]known{}, map[*term.Term]bool{}
	c.x.Few, c.x.Name = true, 40
	c.x.Feasible = c.feasible
	c.x.Hook = c.hook
	c.x.Maps = c
	c.q = term.Var("anyslot", term.BV(64))
	c.any = term.Var("anyentry", term.BV(64))
	c.pend = c.x.World.NewObj("pending map entry", nil, nil)
	c.last = c.x.World.NewObj("tables at the last use of a map", nil, nil)
	return c
}

// known is a fact about every element of an array, from when so many facts were
// there.
type known struct {
	from int
	f    func(e, i *term.Term) *term.Term
}

// array names an array and says what is known of its elements.
func (c *compaction) array(w int, def func(e, i *term.Term) *term.Term) *term.Term {
	n := term.Fresh("table", term.Arr(w))
	c.know(n, def)
	return n
}

func (c *compaction) know(n *term.Term, def func(e, i *term.Term) *term.Term) {
	c.defs[n] = append(c.defs[n], known{len(c.x.Facts), def})
}

// instances are what is known of the elements the terms look at, and of those
// that these facts look at in turn, to some depth.
func (c *compaction) instances(facts, depth int, ts ...*term.Term) []*term.Term {
	var r []*term.Term
	seen := map[*term.Term]bool{}
	for ; depth > 0 && len(ts) > 0; depth-- {
		var next []*term.Term
		term.Walk(ts, func(t *term.Term) {
			if t.Op != term.OpSelect || seen[t] {
				return
			}
			seen[t] = true
			for _, k := range c.defs[t.Args[0]] {
				if k.from <= facts {
					next = append(next, k.f(t, t.Args[1]))
				}
			}
		})
		r = append(r, next...)
		ts = next
	}
	return r
}

func (c *compaction) start(st *sym.State) {
	st.Mem[c.pend] = noEntry
	z := term.Arr(16)
	st.Mem[c.last] = &sym.StructV{Fields: []sym.Value{&sym.RegionV{Arr: term.Var("none16", z)}, c64(0), &sym.RegionV{Arr: term.Var("none8", term.Arr(8))}, c64(0)}}
}

// entry of a map: whether there is one, for which table, its number, and what
// the key says of the block at the places.
var noEntry = &sym.StructV{Fields: []sym.Value{term.False, term.False, c64(0), term.Const(8, 0), term.Const(64, 0), term.Const(64, 0)}}

func (c *compaction) entry(st *sym.State, key, val sym.Value) (*sym.StructV, bool) {
	n, ok := val.(*term.Term)
	if !ok {
		return nil, false
	}
	arr, off, size, ok := c.x.Region(st, key)
	if !ok || !size.IsConst() {
		return nil, false
	}
	at := func(i *term.Term) *term.Term { return w64(term.Select(arr, term.Add(off, i))) }
	wide := arr.S.W == 16
	e := &sym.StructV{Fields: append([]sym.Value{}, noEntry.Fields...)}
	e.Fields[0], e.Fields[2] = term.True, w64(n)
	switch {
	case !wide && size.Val == 64:
		e.Fields[3] = term.Select(arr, term.Add(off, c.p[0]))
	case wide && size.Val == 64, !wide && size.Val == 128:
		e.Fields[1] = term.True
		for k := 1; k <= 2; k++ {
			if wide {
				e.Fields[3+k] = at(c.p[k])
				continue
			}
			i := term.Add(c.p[k], c.p[k])
			e.Fields[3+k] = term.Add(at(i), term.Bin(term.OpShl, at(term.Add(i, c64(1))), c64(8)))
		}
		c.simpler(st, e)
	default:
		return nil, false
	}
	return e, true
}

// simpler says what a key has by the block it was made of.
func (c *compaction) simpler(st *sym.State, e *sym.StructV) {
	k4, k5 := e.Fields[4].(*term.Term), e.Fields[5].(*term.Term)
	for o := range c.done {
		b, ok := st.Mem[o].(*sym.RegionV)
		if !ok || b.Arr.S.W != 16 {
			continue
		}
		n4, n5 := w64(term.Select(b.Arr, c.p[1])), w64(term.Select(b.Arr, c.p[2]))
		goal := term.And(term.Eq(k4, n4), term.Eq(k5, n5))
		is, known := c.keys[goal]
		if !known {
			it := &Item{Func: c.fn.String(), Kind: "lemma", Name: "a key has the numbers of the block it was made of", Status: "proved"}
			// case by case, as the places are less than 64
			var cases []*term.Term
			for i := int64(0); i < 64; i++ {
				cases = append(cases, term.Subst(term.Eq(k4, n4), map[*term.Term]*term.Term{c.p[1]: c64(i)}), term.Subst(term.Eq(k5, n5), map[*term.Term]*term.Term{c.p[2]: c64(i)}))
			}
			res := prove.Prove(prove.VC{Goal: term.And(cases...)}, prove.Options{Limit: 10 * time.Second})
			is = res.Status == prove.Valid
			c.keys[goal] = is
			if it.Backend, it.Seconds = res.Backend, res.Time.Seconds(); is {
				c.batch = append(c.batch, it)
			}
		}
		if is {
			e.Fields[4], e.Fields[5] = n4, n5
			return
		}
	}
}

// holds says that an entry is right about the tables.
func (c *compaction) holds(w *view, e *sym.StructV) *term.Term {
	f := func(i int) *term.Term { return e.Fields[i].(*term.Term) }
	n := f(2)
	in := func(k int, size *term.Term) *term.Term {
		s := slot(n, c.p[k])
		return term.And(term.Sle(c64(64), s), term.Slt(s, size))
	}
	props := term.And(in(0, w.propsLen), term.Eq(w.prop(slot(n, c.p[0])), f(3)))
	index := term.And(in(1, w.idxLen), in(2, w.idxLen), term.Eq(w.index(slot(n, c.p[1])), f(4)), term.Eq(w.index(slot(n, c.p[2])), f(5)))
	return term.Implies(f(0), term.Ite(f(1), index, props))
}

func (c *compaction) view(st *sym.State) (*view, bool) {
	if c.ret == nil {
		return nil, false
	}
	w, err := viewOf(c.x, st, st.Mem[c.ret])
	return w, err == nil
}

// kept says that blocks there were in the tables are as they were.
func (c *compaction) kept(old, now *view) *term.Term {
	q := c.q
	at := term.Implies(term.And(term.Sle(c64(64), q), term.Slt(q, old.idxLen)), term.Eq(now.index(q), old.index(q)))
	pr := term.Implies(term.And(term.Sle(c64(0), q), term.Slt(q, old.propsLen)), term.Eq(now.prop(q), old.prop(q)))
	return term.And(at, pr, term.Sle(old.idxLen, now.idxLen), term.Sle(old.propsLen, now.propsLen))
}

func (c *compaction) snapshot(w *view) *sym.StructV {
	return &sym.StructV{Fields: []sym.Value{&sym.RegionV{Arr: w.idx}, w.idxLen, &sym.RegionV{Arr: w.props}, w.propsLen}}
}

// settle proves what was put into a map since the last time, and that the
// blocks the maps refer to are as they were.
func (c *compaction) settle(st *sym.State, pos token.Pos) bool {
	w, ok := c.view(st)
	if !ok {
		return false
	}
	e, ok1 := st.Mem[c.pend].(*sym.StructV)
	l, ok2 := st.Mem[c.last].(*sym.StructV)
	if !ok1 || !ok2 {
		return false
	}
	if e != noEntry {
		c.x.Require(st, "what is put into a map is in the tables", pos, c.holds(w, e))
	}
	old := &view{idx: l.Fields[0].(*sym.RegionV).Arr, idxLen: l.Fields[1].(*term.Term), idxOff: c64(0), props: l.Fields[2].(*sym.RegionV).Arr, propsLen: l.Fields[3].(*term.Term), propsOff: c64(0)}
	c.x.Require(st, "what the maps refer to stays as it is", pos, c.kept(old, w))
	st.Mem[c.pend] = noEntry
	st.Mem[c.last] = c.snapshot(w)
	return true
}

func (c *compaction) Lookup(st *sym.State, m *sym.MapRef, key sym.Value, elem types.Type, pos token.Pos) (sym.Value, *term.Term, bool) {
	so, ok := sym.SortOf(elem)
	if !ok {
		return nil, nil, false
	}
	n := term.Fresh("known", so)
	e, ok := c.entry(st, key, n)
	if !ok || !c.settle(st, pos) {
		return nil, nil, false
	}
	w, _ := c.view(st)
	found := term.Fresh("found", term.Bool)
	c.x.Assume(term.Implies(term.And(st.G, found), c.holds(w, e)))
	// counting: there are not more different blocks than that
	room := term.Ite(e.Fields[1].(*term.Term), term.Sle(term.Add(w.idxLen, c64(64)), mostIndex(c.t)), term.Sle(term.Add(w.propsLen, c64(64)), mostProps(c.t)))
	c.x.Assume(term.Implies(term.And(st.G, term.Not(found)), room))
	return n, found, true
}

func (c *compaction) Update(st *sym.State, m *sym.MapRef, key, v sym.Value, pos token.Pos) bool {
	e, ok := c.entry(st, key, v)
	if !ok {
		c.x.Unsupported(st, "a map with keys that are no blocks", pos)
		return true
	}
	if p, ok := st.Mem[c.pend].(*sym.StructV); !ok || p != noEntry {
		if !c.settle(st, pos) {
			c.x.Unsupported(st, "a map changed with no tables at hand", pos)
		}
	}
	st.Mem[c.pend] = e
	return true
}

// args are the arguments of buildCompactedBlocks.
type compactArgs struct {
	t, ret   *sym.PtrV
	level    *term.Term
	src, dst *sym.SliceV
	cur      *term.Term
}

// roles are which parameter of buildCompactedBlocks is which, by type, and by
// name or order where two are of one type.
func roles(fn *ssa.Function) (r map[string]int, ok bool) {
	r = map[string]int{}
	first := func(two [2]string, i int, second ...string) {
		n := strings.ToLower(fn.Params[i].Name())
		at := 0
		if _, taken := r[two[0]]; taken {
			at = 1
		}
		for _, w := range second {
			if strings.Contains(n, w) {
				at = 1
			}
		}
		if _, taken := r[two[at]]; taken {
			at = 1 - at
		}
		r[two[at]] = i
	}
	for i, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer:
			first([2]string{"tree", "ret"}, i)
		case *types.Slice:
			first([2]string{"src", "dst"}, i, "dst", "dest", "new", "out", "target")
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				first([2]string{"level", "cur"}, i, "idx", "index", "pos", "slot")
				if n := strings.ToLower(p.Name()); strings.Contains(n, "level") || strings.Contains(n, "depth") {
					if k, ok := r["level"]; ok && k != i {
						r["cur"] = k
					} else if r["cur"] == i {
						delete(r, "cur")
					}
					r["level"] = i
				}
			}
		case *types.Map:
		default:
			return nil, false
		}
	}
	return r, len(r) == 6
}

func asCompact(fn *ssa.Function, as []sym.Value) (a compactArgs, ok bool) {
	is, ok := roles(fn)
	if !ok {
		return a, false
	}
	var o [6]bool
	a.t, o[0] = as[is["tree"]].(*sym.PtrV)
	a.ret, o[1] = as[is["ret"]].(*sym.PtrV)
	a.level, o[2] = as[is["level"]].(*term.Term)
	a.src, o[3] = as[is["src"]].(*sym.SliceV)
	a.dst, o[4] = as[is["dst"]].(*sym.SliceV)
	a.cur, o[5] = as[is["cur"]].(*term.Term)
	ok = o == [6]bool{true, true, true, true, true, true} && a.t.Obj != nil && a.ret.Obj != nil && a.src.Obj != nil && a.dst.Obj != nil && len(a.t.Path) == 0 && len(a.ret.Path) == 0 && len(a.dst.Path) == 0
	for i, p := range fn.Params {
		if _, isMap := p.Type().Underlying().(*types.Map); isMap {
			r, isMap := as[i].(*sym.MapRef)
			ok = ok && isMap && r.Obj != nil
		}
	}
	return a, ok
}

func slicesOf(v sym.Value) (idx, props int) {
	idx, props = -1, -1
	s, ok := v.(*sym.StructV)
	if !ok {
		return
	}
	for i, f := range s.Fields {
		if sl, ok := f.(*sym.SliceV); ok {
			if so, ok := sym.SortOf(sl.Elem); ok && so.W == 16 {
				idx = i
			} else if ok && so.W == 8 {
				props = i
			}
		}
	}
	return
}

// hook is a call of buildCompactedBlocks by its contract.
func (c *compaction) hook(k *sym.Call) ([]sym.Outcome, bool) {
	if k.Fn == nil || k.Fn != c.fn {
		return nil, false
	}
	st, x := k.St, k.X
	bad := func(why string) ([]sym.Outcome, bool) {
		x.Unsupported(st, "call of "+c.fn.Name()+": "+why, k.Pos)
		return []sym.Outcome{{G: st.G, Mem: st.Mem, Src: st.Src}}, true
	}
	a, ok := asCompact(c.fn, k.Args)
	if !ok || a.t.Obj != c.tree || !a.level.IsConst() || int64(a.level.Val) >= int64(c.at) || int64(a.level.Val) < 0 {
		return bad("its arguments")
	}
	if c.ret == nil {
		c.ret = a.ret.Obj
	}
	if c.ret != a.ret.Obj {
		return bad("other tables")
	}
	if !c.settle(st, k.Pos) {
		return bad("tables of unknown content")
	}
	w, _ := c.view(st)
	iI, iP := slicesOf(st.Mem[c.ret])
	sv := st.Mem[c.ret].(*sym.StructV)
	si, sp := sv.Fields[iI].(*sym.SliceV), sv.Fields[iP].(*sym.SliceV)
	l := int(a.level.Val)
	alias := a.dst.Obj == si.Obj
	treeI, treeP := slicesOf(st.Mem[c.tree])
	if treeI < 0 || treeP < 0 || si.Obj == nil || sp.Obj == nil || len(si.Path)+len(sp.Path) > 0 {
		return bad("tables of unknown content")
	}
	tv := st.Mem[c.tree].(*sym.StructV)
	for _, o := range []*sym.Obj{a.src.Obj, tv.Fields[treeI].(*sym.SliceV).Obj, tv.Fields[treeP].(*sym.SliceV).Obj} {
		if o == a.dst.Obj || o == si.Obj || o == sp.Obj {
			return bad("what it reads is what it writes")
		}
	}
	if sp.Obj == si.Obj || sp.Obj == a.dst.Obj {
		return bad("the tables share memory")
	}
	c.needs[level{l, alias}] = true
	cur := a.cur
	in := func(s *sym.SliceV) *term.Term { return term.And(term.Sle(c64(0), cur), term.Slt(cur, s.Len)) }
	x.Require(st, "the slots exist", k.Pos, term.And(in(a.src), in(a.dst)))
	if alias {
		x.Require(st, "the slot is one of the root block", k.Pos, term.And(term.Eq(a.dst.Off, c64(0)), term.Slt(cur, c64(64))))
	}
	x.Require(st, "the sizes of the tables", k.Pos, term.And(w.compacted(c.t), term.Sle(mostIndex(c.t), si.Cap)))
	srcV, ok := x.Elem(st, a.src, cur)
	v, isT := srcV.(*term.Term)
	if !ok || !isT {
		return bad("a source of unknown content")
	}
	v = w64(v)
	if a.src.Obj == st.Mem[c.tree].(*sym.StructV).Fields[treeI].(*sym.SliceV).Obj {
		x.Assume(term.Implies(st.G, c.t.sound(c.h, term.Add(a.src.Off, cur))))
	}
	x.Require(st, "the number in the source is of a block of the right kind", k.Pos, c.t.kind(c.h, l, v))

	if c.w0 == nil {
		c.w0, c.alias = w, alias
	}
	if c.alias != alias {
		return bad("slots of the root block as well as of others")
	}
	base := len(x.Facts)

	// what it does
	more := term.Fresh("more", term.BV(64)) // index blocks it adds
	il := term.Fresh("indices.len", term.BV(64))
	pl := term.Fresh("properties.len", term.BV(64))
	cp := term.Fresh("properties.cap", term.BV(64))
	n := term.Fresh("block", term.BV(16))
	idx := c.array(16, func(e, i *term.Term) *term.Term {
		old := term.Implies(term.Not(term.And(term.Sle(w.idxLen, i), term.Slt(i, il))), term.Eq(e, term.Select(w.idx, i)))
		if alias {
			old = term.Ite(term.Eq(i, cur), term.Eq(e, n), old)
		}
		new := term.Implies(term.And(term.Sle(w.idxLen, i), term.Slt(i, il)), term.Not(term.Eq(e, term.Const(16, 0))))
		return term.And(old, new)
	})
	props := c.array(8, func(e, i *term.Term) *term.Term {
		return term.Implies(term.Not(term.And(term.Sle(w.propsLen, i), term.Slt(i, pl))), term.Eq(e, term.Select(w.props, i)))
	})
	po := x.World.NewObj("properties", nil, nil)
	st.Mem[sp.Obj] = &sym.OpaqueV{Name: "appended to"}
	st.Mem[po] = &sym.RegionV{Arr: props}
	st.Mem[si.Obj] = &sym.RegionV{Arr: idx}
	dst := idx
	if !alias {
		old, ok := x.Region0(st, a.dst)
		if !ok {
			return bad("slots of unknown content")
		}
		dst = c.array(16, func(e, i *term.Term) *term.Term {
			return term.Ite(term.Eq(i, cur), term.Eq(e, n), term.Eq(e, term.Select(old, i)))
		})
		st.Mem[a.dst.Obj] = &sym.RegionV{Arr: dst}
	}
	nv := &sym.StructV{Fields: append([]sym.Value{}, sv.Fields...)}
	ni, np := *si, *sp
	ni.Len = il
	np.Obj, np.Len, np.Cap, np.Nil = po, pl, cp, term.False
	nv.Fields[iI], nv.Fields[iP] = &ni, &np
	st.Mem[c.ret] = nv
	z, ok := c.view(st)
	if !ok {
		return bad("tables of unknown content")
	}
	N := w64(n)
	new := [8]*term.Term{term.True, N, c64(0), c64(0), c64(0), c64(0), c64(0), nil}
	for i, b := 0, N; i <= l; i++ {
		at := slot(b, c.p[l-i])
		new[2+2*i] = at
		if i < l {
			b = z.index(at)
			new[3+2*i] = b
		}
	}
	x.Assume(term.Implies(st.G, term.And(
		term.Sle(c64(0), more), term.Sle(more, c64(65536)), term.Eq(il, term.Add(w.idxLen, term.Bin(term.OpShl, more, c64(6)))),
		term.Sle(w.propsLen, pl), term.Sle(pl, cp), term.Sle(cp, c64(1<<46)),
		z.compacted(c.t), term.Sle(il, si.Cap),
		z.exists(l, N, c.p),
		term.Eq(z.result(l, N, c.p), c.t.source(l, v, c.p)))))
	c.calls = append(c.calls, called{base, a.dst.Obj})

	// what is known of all that was filled
	arr, off, _, ok := x.Region(st, a.src)
	if !ok {
		return bad("a source of unknown content")
	}
	new[7] = c.want(arr, off, l)
	pos := k.Pos
	d := c.filledOf(st, a.dst.Obj)
	here := term.Eq(c.g, cur)
	old := d.of[l]
	set := func(name string, now, before *term.Term) *term.Term {
		if now == before || old[0].IsFalse() {
			return now
		}
		f := term.Fresh(name, now.S)
		x.Assume(term.Eq(f, term.Ite(here, now, before)))
		return f
	}
	of := [8]*term.Term{c.also(old[0], c.g, cur)}
	for i, n := range []string{"", "block", "slot", "next", "slot", "after", "slot", "want"} {
		if i > 0 {
			of[i] = set(n, new[i], old[i])
		}
	}
	d.of[l] = of
	d.any = c.also(d.any, c.any, cur)
	st.Mem[c.done[a.dst.Obj]] = d.value()
	level := l
	for l := 0; l < 3; l++ {
		f := d.of[l]
		if f[0].IsFalse() {
			continue
		}
		now := *st
		w := fmt.Sprintf("lookup by a slot filled for %d levels gives the tree's value", l)
		for i, t := range []*term.Term{here, term.Not(here)} {
			if l != level && i == 0 {
				continue
			} else if l != level {
				t = term.True
			}
			now.G = term.And(st.G, t)
			for j, t := range c.filled(z, dst, l, f) {
				x.Require(&now, w+[]string{", just filled", ", filled before"}[i]+[]string{"", ": the tables"}[j], pos, term.Implies(f[0], t))
			}
		}
	}
	entry := func(e, i *term.Term) *term.Term {
		return term.Implies(term.Subst(d.any, map[*term.Term]*term.Term{c.any: i}), term.Not(term.Eq(e, term.Const(16, 0))))
	}
	from := c64(0)
	if alias {
		from = c64(64)
	}
	indices := func(e, i *term.Term) *term.Term {
		return term.And(term.Implies(term.And(term.Sle(from, i), term.Slt(i, c.w0.idxLen)), term.Eq(e, term.Select(c.w0.idx, i))),
			term.Implies(term.And(term.Sle(c.w0.idxLen, i), term.Slt(i, il)), term.Not(term.Eq(e, term.Const(16, 0)))))
	}
	properties := func(e, i *term.Term) *term.Term {
		return term.Implies(term.And(term.Sle(c64(0), i), term.Slt(i, c.w0.propsLen)), term.Eq(e, term.Select(c.w0.props, i)))
	}
	x.Require(st, "the tables grow", pos, term.And(term.Sle(c.w0.idxLen, il), term.Sle(c.w0.propsLen, pl)))
	for _, m := range []struct {
		arr *term.Term
		i   *term.Term
		f   func(e, i *term.Term) *term.Term
		s   string
	}{
		{dst, c.any, entry, "slots that were filled are not zero"},
		{idx, c.q, indices, "index blocks stay, and new ones have no zero"},
		{props, c.q, properties, "property blocks stay"},
	} {
		m := m
		g := st.G
		x.Require(st, m.s, pos, m.f(term.Select(m.arr, m.i), m.i))
		c.know(m.arr, func(e, i *term.Term) *term.Term { return term.Implies(g, m.f(e, i)) })
	}
	st.Mem[c.pend] = noEntry
	st.Mem[c.last] = c.snapshot(z)
	return []sym.Outcome{{G: st.G, Mem: st.Mem, Src: st.Src}}, true
}

// also adds an element to a set of v.
func (c *compaction) also(set, v, e *term.Term) *term.Term {
	if e.IsConst() {
		r, ok := c.spans[set]
		if set.IsFalse() {
			r, ok = [2]int64{int64(e.Val), int64(e.Val)}, true
		}
		if ok && r[1] == int64(e.Val) {
			r[1]++
			n := term.And(term.Sle(c64(r[0]), v), term.Slt(v, c64(r[1])))
			c.spans[n] = r
			return n
		}
	}
	return term.Or(set, term.Eq(v, e))
}

// filled is what is known of the block that calls fill: for each number of
// levels whether they set the slot that is followed, and if so the number that is
// there, the slots lookup comes by from there and the numbers in them, and what
// the tree has.
type filled struct {
	of  [3][8]*term.Term
	any *term.Term // of any slot, whether it was set
}

func nothingFilled() *filled {
	d := &filled{any: term.False}
	for l := range d.of {
		z := c64(0)
		d.of[l] = [8]*term.Term{term.False, z, z, z, z, z, z, term.Const(8, 0)}
	}
	return d
}

func (d *filled) value() *sym.StructV {
	v := &sym.StructV{Fields: []sym.Value{d.any}}
	for _, f := range d.of {
		for _, t := range f {
			v.Fields = append(v.Fields, t)
		}
	}
	return v
}

func (c *compaction) filledOf(st *sym.State, o *sym.Obj) *filled {
	g := c.done[o]
	if g == nil {
		g = c.x.World.NewObj("filled slots", nil, nothingFilled().value())
		c.done[o] = g
	}
	v, ok := st.Mem[g].(*sym.StructV)
	d := nothingFilled()
	if !ok {
		return d
	}
	d.any = v.Fields[0].(*term.Term)
	for l := range d.of {
		for i := range d.of[l] {
			d.of[l][i] = v.Fields[1+8*l+i].(*term.Term)
		}
	}
	return d
}

// filled says that the slot followed has what is known of it: what is so for
// ever, and what is so of the tables.
func (c *compaction) filled(w *view, dst *term.Term, l int, f [8]*term.Term) []*term.Term {
	now := []*term.Term{term.Eq(w64(term.Select(dst, c.g)), f[1])}
	var ever []*term.Term
	for i, b := 0, f[1]; i <= l; i++ {
		at := f[2+2*i]
		ever = append(ever, term.Eq(at, slot(b, c.p[l-i])), term.Sle(c64(64), at))
		if i < l {
			b = f[3+2*i]
			now = append(now, term.Slt(at, w.idxLen), term.Eq(w.index(at), b))
		} else {
			now = append(now, term.Slt(at, w.propsLen), term.Eq(w.prop(at), f[7]))
		}
	}
	return []*term.Term{term.And(ever...), term.And(now...)}
}

// want is what the tree has at the slot followed of a source block.
func (c *compaction) want(arr, off *term.Term, l int) *term.Term {
	s := c.t.source(l, w64(term.Select(arr, term.Add(off, c.g))), c.p)
	n := fmt.Sprint("want", l, s.ID)
	if w := c.wants[n]; w != nil {
		return w
	}
	w := term.Fresh("want", s.S)
	c.x.Axiom(term.Eq(w, s))
	c.wants[n] = w
	return w
}

// called is a call: how many facts there were when it was made, and the block it
// set a slot of.
type called struct {
	facts int
	dst   *sym.Obj
}

// window are the facts to prove something with, that was met when n were there:
// without those of calls with so many later ones that fill the same block.
func (c *compaction) window(facts []*term.Term, n, later int) []*term.Term {
	var w []*term.Term
	from := 0
	for i, k := range c.calls {
		if k.facts > n {
			break
		}
		w = append(w, facts[from:k.facts]...)
		from = k.facts
		if j := i + later; j < len(c.calls) && c.calls[j].facts <= n && c.calls[j].dst == k.dst {
			from = c.calls[i+1].facts
		}
	}
	return append(w, facts[from:n]...)
}

// feasible asks whether a path condition can hold, with the facts of the last
// calls.
func (c *compaction) feasible(x *sym.Exec, g *term.Term) bool {
	h := append(append([]*term.Term{}, x.Axioms...), small(c.window(x.Facts, len(x.Facts), 1), 60)...)
	return prove.Prove(prove.VC{Hyps: h, Guard: g, Goal: term.False}, prove.Options{Limit: 2 * time.Second}).Status != prove.Valid
}

// parts are the facts, those that say several things as several.
func (c *compaction) parts(facts []*term.Term) (r []*term.Term) {
	for _, f := range facts {
		p, ok := c.split[f]
		if !ok {
			p = []*term.Term{f}
			switch f.Op {
			case term.OpAnd:
				p = f.Args
			case term.OpOr:
				for i, a := range f.Args {
					if a.Op == term.OpAnd {
						p = nil
						rest := append(append([]*term.Term{}, f.Args[:i]...), f.Args[i+1:]...)
						for _, b := range a.Args {
							p = append(p, term.Or(append([]*term.Term{b}, rest...)...))
						}
						break
					}
				}
			}
			c.split[f] = p
		}
		r = append(r, p...)
	}
	return r
}

// near are those of the facts that are about what the terms are about, and no
// more.
func (c *compaction) near(guard *term.Term, facts []*term.Term, ts ...*term.Term) (r []*term.Term) {
	in := map[*term.Term]bool{}
	vars := func(t *term.Term) []*term.Term {
		v, ok := c.vars[t]
		if !ok {
			term.Walk([]*term.Term{t}, func(u *term.Term) {
				if u.Op == term.OpVar {
					v = append(v, u)
				}
			})
			c.vars[t] = v
		}
		return v
	}
	add := func(t *term.Term) {
		for _, v := range vars(t) {
			in[v] = true
		}
	}
	for _, t := range ts {
		add(t)
	}
	// facts of other paths say nothing
	here, not := map[*term.Term]bool{}, map[*term.Term]bool{}
	conjuncts := []*term.Term{guard}
	if guard.Op == term.OpAnd {
		conjuncts = guard.Args
	}
	for _, g := range conjuncts {
		here[g], not[term.Not(g)] = true, true
	}
	var all []*term.Term
next:
	for _, f := range c.parts(facts) {
		if f.Op == term.OpOr {
			var rest []*term.Term
			for _, a := range f.Args {
				if here[a] {
					continue next
				}
				if !not[a] {
					rest = append(rest, a)
				}
			}
			if len(rest) < len(f.Args) {
				f = term.Or(rest...)
			}
		}
		all = append(all, f)
	}
	within := func(f *term.Term) bool {
		for _, v := range vars(f) {
			if !in[v] {
				return false
			}
		}
		return true
	}
	touches := func(f *term.Term) bool {
		for _, v := range vars(f) {
			if in[v] && !v.S.Arr {
				return true
			}
		}
		return false
	}
	var more []*term.Term
	for _, f := range all {
		if touches(f) && term.Size(f) <= 25 {
			more = append(more, f)
		}
	}
	for _, f := range more {
		add(f)
	}
	for _, f := range all {
		if within(f) {
			r = append(r, f)
		}
	}
	return r
}

// job settles the obligation of an item.
type job struct {
	it  *Item
	try func(patient bool) bool
}

// prove has one obligation settled, with the facts of the last calls if they do.
func (c *compaction) prove(name, kind, what, pos string, axioms, facts, inv []*term.Term, n int, guard, goal *term.Term) {
	it := &Item{Func: name, Kind: kind, Name: what, Pos: pos, Status: "failed", Detail: "not tried, as others failed"}
	limit := 3 * time.Second
	try := func(calls int, near bool) bool {
		full := calls == 1<<20
		prove.Mu.Lock()
		w := c.window(facts, n, calls)
		if !full && !near && len(w) == n {
			prove.Mu.Unlock()
			return false
		}
		depth, o := min(calls, 6), prove.Default
		o.MaxBits, o.Limit = 0, limit
		if full {
			o.Limit = max(limit, prove.Default.Limit)
		}
		if goal.IsFalse() && kind != "safety" {
			o.Tables = false
		}
		h := append(append(append([]*term.Term{}, axioms...), w...), inv...)
		if near {
			about := append(c.instances(n, depth, guard, goal), guard, goal)
			h = append(c.near(guard, h, about...), about[:len(about)-2]...)
		} else {
			h = append(h, c.instances(n, depth, append(h, guard, goal)...)...)
		}
		o.All = near
		prove.Mu.Unlock()
		res := prove.Prove(prove.VC{Hyps: h, Guard: guard, Goal: goal}, o)
		it.Backend = res.Backend
		it.Seconds += res.Time.Seconds()
		if res.Status == prove.Valid {
			it.Status, it.Detail = "proved", ""
			return true
		}
		it.Detail, it.model, it.query = res.Status.String(), res.Model, res.Query
		return false
	}
	c.batch = append(c.batch, it)
	c.work = append(c.work, job{it, func(patient bool) bool {
		if patient {
			limit = 30 * time.Second
		}
		return try(2, true) || try(2, false) || try(4, false) || try(1<<20, false)
	}})
}

// each has so many workers do f.
func each[T any](workers int, todo []T, f func(T)) {
	var wg sync.WaitGroup
	var once sync.Once
	var bad any
	one := func(t T) {
		defer func() {
			if p := recover(); p != nil {
				once.Do(func() { bad = p })
			}
		}()
		f(t)
	}
	next := make(chan T)
	for range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range next {
				one(t)
			}
		}()
	}
	for _, t := range todo {
		next <- t
	}
	close(next)
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

// settled has what is to be proved done.
func (c *compaction) settled(r *Report) {
	// where some are refuted it does not matter what the rest is; those that were
	// short of time are tried for longer
	var late []job
	var mu sync.Mutex
	refuted := 0
	run := func(j job, patient bool) {
		mu.Lock()
		n := refuted
		mu.Unlock()
		if n > 6 || n > 0 && patient || j.try(patient) {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if j.it.Detail == prove.Refuted.String() {
			refuted++
		} else if !patient {
			late = append(late, j)
		} else {
			refuted++
		}
	}
	each(8, c.work, func(j job) { run(j, false) })
	each(3, late, func(j job) { run(j, true) })
	for _, it := range c.batch {
		r.add(it)
	}
	c.work, c.batch = nil, nil
}

// treeIn makes an arbitrary finished tree, that is only read.
func (c *compaction) treeIn(st *sym.State, t types.Type) error {
	o, w, err := c.s.treeInput(c.x, st, t)
	if err != nil {
		return err
	}
	for _, f := range st.Mem[o].(*sym.StructV).Fields {
		if sl, ok := f.(*sym.SliceV); ok {
			sl.Obj.Input = true
		}
	}
	o.Input = true
	c.tree, c.t = o, w
	c.x.Assume(w.sizes())
	c.x.Assume(fewBlocks(w))
	c.x.Assume(c.p.known())
	return nil
}

func structOf(t types.Type) (*types.Struct, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// level proves buildCompactedBlocks for so many levels.
func (s *Subject) level(r *Report, fn *ssa.Function, treeT types.Type, lv level) (map[level]bool, error) {
	c := s.newCompaction(fn, lv.n)
	x := c.x
	c.g = c.p[lv.n]
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	if err := c.treeIn(st, treeT); err != nil {
		return nil, err
	}
	var src, dst *sym.SliceV
	var rs *types.Struct
	is, ok := roles(fn)
	if !ok {
		return nil, fmt.Errorf("%s has another signature", fn.Name())
	}
	args := make([]sym.Value, len(fn.Params))
	// the tables first, for what may lie in them
	order := []int{is["tree"], is["ret"]}
	for i := range fn.Params {
		if i != is["tree"] && i != is["ret"] {
			order = append(order, i)
		}
	}
	for _, i := range order {
		p := fn.Params[i]
		switch i {
		case is["tree"]:
			args[i] = &sym.PtrV{Obj: c.tree, Nil: term.False}
		case is["ret"]:
			u, ok := structOf(p.Type())
			if !ok {
				return nil, fmt.Errorf("its second parameter is no structure of tables")
			}
			rs = u
			c.ret = x.World.NewObj("tables", nil, nil)
			sv := &sym.StructV{}
			for k := 0; k < u.NumFields(); k++ {
				f := x.Input(st, "tables."+u.Field(k).Name(), u.Field(k).Type())
				if sl, ok := f.(*sym.SliceV); ok {
					sl.Obj.Input = false
				}
				sv.Fields = append(sv.Fields, f)
			}
			st.Mem[c.ret] = sv
			args[i] = &sym.PtrV{Obj: c.ret, Nil: term.False}
		case is["level"]:
			args[i] = c64(int64(lv.n))
		case is["src"]:
			v := x.Input(st, "src", p.Type())
			src, _ = v.(*sym.SliceV)
			args[i] = v
		case is["dst"]:
			v := x.Input(st, "dst", p.Type())
			dst, _ = v.(*sym.SliceV)
			if dst != nil {
				dst.Obj.Input = false
				if k, _ := slicesOf(st.Mem[c.ret]); lv.alias && k >= 0 {
					si := st.Mem[c.ret].(*sym.StructV).Fields[k].(*sym.SliceV)
					dst.Obj = si.Obj
					x.Assume(term.Sle(dst.Cap, si.Cap))
					x.Assume(term.Eq(dst.Off, c64(0)))
				}
			}
			args[i] = v
		case is["cur"]:
			args[i] = x.Input(st, "cur", p.Type())
		default:
			args[i] = &sym.MapRef{Obj: x.World.NewObj("map", nil, nil)}
			st.Mem[args[i].(*sym.MapRef).Obj] = &sym.MapV{Nil: term.False}
		}
	}
	a, ok := asCompact(fn, args)
	w, ok2 := c.view(st)
	if !ok || !ok2 || rs == nil || fn.Signature.Results().Len() > 0 || a.cur.S != term.BV(64) {
		return nil, fmt.Errorf("%s has another signature", fn.Name())
	}
	iI, _ := slicesOf(st.Mem[c.ret])
	si := st.Mem[c.ret].(*sym.StructV).Fields[iI].(*sym.SliceV)
	srcV, _ := x.Elem(st, src, a.cur)
	v, ok := srcV.(*term.Term)
	if !ok {
		return nil, fmt.Errorf("%s has another signature", fn.Name())
	}
	v = w64(v)
	dst0, _ := x.Region0(st, dst)
	c.start(st)
	c.w0 = w
	st.Mem[c.last] = c.snapshot(w)
	in := func(s *sym.SliceV) *term.Term { return term.And(term.Sle(c64(0), a.cur), term.Slt(a.cur, s.Len)) }
	x.Assume(term.And(in(src), in(dst)))
	if lv.alias {
		x.Assume(term.And(term.Slt(a.cur, c64(64)), term.Not(dst.Nil)))
	}
	x.Assume(term.And(w.compacted(c.t), term.Sle(mostIndex(c.t), si.Cap)))
	x.Assume(c.t.kind(c.h, lv.n, v))
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Args: args, Inv: map[*sym.Loop][]*Cand{}}
	r.logf("%s", fn.Name())
	y.Outs = x.Run(fn, args, nil, st)
	r.logf("%s: executed", fn.Name())
	var lens []*term.Term // of the index table, when all calls were made
	for i := range y.Outs {
		o := &y.Outs[i]
		z := &sym.State{G: o.G, Mem: o.Mem, Src: o.Src}
		n := w.idxLen
		if l, ok := z.Mem[c.last].(*sym.StructV); ok {
			n = l.Fields[1].(*term.Term)
		}
		lens = append(lens, n)
		if !c.settle(z, fn.Pos()) {
			x.Unsupported(z, "tables of unknown content", fn.Pos())
		}
	}
	name := fmt.Sprintf("%s (%d levels below, %s)", fn, lv.n, map[bool]string{true: "slot in the root block", false: "slot in another block"}[lv.alias])
	pos := posStr(s.P.Fset, fn.Pos(), s.Cfg.Repo)
	if err := c.run(r, y, name); err != nil {
		return nil, err
	}
	for i := range y.Outs {
		o := &y.Outs[i]
		z := &sym.State{G: o.G, Mem: o.Mem, Src: o.Src}
		zw, ok := c.view(z)
		zi, ok2 := z.Mem[c.ret].(*sym.StructV).Fields[iI].(*sym.SliceV)
		if !ok || !ok2 {
			r.fail(name, "post", "the tables are slices", "they are not")
			continue
		}
		post := func(what string, t *term.Term) {
			c.prove(name, "post", fmt.Sprintf("%s (return %d)", what, i+1), pos, y.Axioms, y.Facts, y.invHyps(o.Src), len(y.Facts), o.G, t)
		}
		if zi.Obj != si.Obj || zi.Cap != si.Cap {
			r.fail(name, "post", "the index table stays where it is", "it is elsewhere")
			continue
		}
		got, ok := x.Elem(z, dst, a.cur)
		n, ok2 := got.(*term.Term)
		dst1, ok3 := x.Region0(z, dst)
		if !ok || !ok2 || !ok3 {
			r.fail(name, "post", "the slot is known", "it is not")
			continue
		}
		n = w64(n)
		post("the slot has a block that exists", zw.exists(lv.n, n, c.p))
		post("lookup below the slot gives the tree's value", term.Eq(zw.result(lv.n, n, c.p), c.t.source(lv.n, v, c.p)))
		q := c.q
		others := term.And(term.Sle(c64(0), q), term.Not(term.Eq(q, a.cur)))
		if lv.alias {
			others = term.And(others, term.Slt(q, c64(64)))
		}
		post("other slots are as they were", term.Implies(others, term.Eq(term.Select(dst1, q), term.Select(dst0, q))))
		post("the tables' blocks are as they were", c.kept(w, zw))
		post("the sizes of the tables", term.And(zw.compacted(c.t), term.Sle(zw.idxLen, zi.Cap)))
		nonzero := func(s *term.Term, in ...*term.Term) *term.Term {
			return term.Implies(term.And(append(in, term.Slt(s, zw.idxLen))...), term.Not(term.Eq(zw.index(s), c64(0))))
		}
		post("no number in a new block of a call is zero", nonzero(q, term.Sle(w.idxLen, q), term.Slt(q, lens[i])))
		post("no number in another new block is zero", nonzero(term.Add(lens[i], c.any), term.Sle(c64(0), c.any), term.Slt(c.any, c64(1<<20))))
	}
	r.logf("%s: %d calls, %d obligations", name, len(c.calls), len(c.work))
	c.settled(r)
	r.logf("%s: done", name)
	r.Functions[fn.String()] = "contract"
	return c.needs, nil
}

// small are the parts of facts that are no larger.
func small(facts []*term.Term, size int) (r []*term.Term) {
	for _, f := range facts {
		parts := []*term.Term{f}
		if f.Op == term.OpAnd {
			parts = f.Args
		}
		for _, p := range parts {
			if term.Size(p) <= size {
				r = append(r, p)
			}
		}
	}
	return r
}

// compared adds that a loop variable is less than what it is compared to on the
// way back to the head of its loop.
func (y *Sys) compared() {
	for _, l := range y.Loops {
		vars := map[*term.Term]bool{}
		for _, v := range l.Vars {
			vars[v.Var] = true
		}
		for _, e := range l.In[1:] {
			term.Walk([]*term.Term{e.G}, func(t *term.Term) {
				if t.Op != term.OpSlt {
					return
				}
				for _, b := range t.Args {
					own := b.IsConst()
					term.Walk([]*term.Term{b}, func(u *term.Term) { own = own || vars[u] })
					if own {
						continue
					}
					for _, v := range l.Vars {
						if v.Var.S == b.S {
							y.addCand(l, fmt.Sprintf("%s<%s", v.Name, b), term.Slt(v.Var, b))
						}
					}
				}
			})
		}
	}
}

// run settles the obligations met in an execution.
func (c *compaction) run(r *Report, y *Sys, name string) error {
	x := c.x
	y.Loops, y.Facts, y.Axioms, y.Obl, y.Calls = x.Loops, x.Facts, x.Axioms, x.Obligs, x.Called
	y.functions(r)
	if len(y.Outs) == 0 {
		r.fail(name, "cover", "some return is reachable", "none")
	}
	if len(y.Loops) > 0 {
		// what is needed of a loop that is not a call's is that its counters are
		// within what they are compared to
		args, facts, axioms := y.Args, y.Facts, y.Axioms
		y.Args, y.Axioms, y.Facts = nil, nil, small(facts, 12)
		y.numeric()
		y.compared()
		err := y.houdini(nil)
		if err == nil {
			y.prune()
			y.recheck(r, nil)
		}
		y.Args, y.Axioms, y.Facts = args, axioms, facts
		if err != nil {
			return err
		}
	}
	for _, ob := range y.Obl {
		switch ob.Kind {
		case "safety", "pre", "unsupported", "frame":
		default:
			continue
		}
		c.prove(name, ob.Kind, ob.Name, posStr(y.S.P.Fset, ob.Pos, y.S.Cfg.Repo), y.Axioms, y.Facts, y.invHyps(ob.Src), ob.Facts, ob.Guard, ob.Goal)
	}
	return nil
}

// recursive is the only function fn calls that calls itself.
func recursive(fn *ssa.Function) (r *ssa.Function) {
	calls := func(f *ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						m[g] = true
					}
				}
			}
		}
		return m
	}
	if fn == nil {
		return nil
	}
	for g := range calls(fn) {
		if calls(g)[g] {
			if r != nil {
				return nil
			}
			r = g
		}
	}
	return r
}

// compact proves that compaction keeps the value of every character.
func (s *Subject) compact(r *Report, named *types.Named) error {
	fn := s.method(genPkg, named.Obj().Name(), "Compact")
	build := recursive(fn)
	if fn == nil || build == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		return fmt.Errorf("no Compact that calls a function that calls itself, or with another signature")
	}
	c := s.newCompaction(build, 3)
	x := c.x
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	if err := c.treeIn(st, named); err != nil {
		return err
	}
	k := charOf(otherRune)
	c.g = term.Var("first", term.BV(64))
	x.Assume(scalar(otherRune))
	c.start(st)
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Args: []sym.Value{&sym.PtrV{Obj: c.tree, Nil: term.False}}, Inv: map[*sym.Loop][]*Cand{}}
	y.Outs = x.Run(fn, y.Args, nil, st)
	name, pos := fn.String(), posStr(s.P.Fset, fn.Pos(), s.Cfg.Repo)
	r.logf("%s: executed, %d obligations met", fn.Name(), len(x.Obligs))
	if err := c.run(r, y, name); err != nil {
		return err
	}
	r.logf("%s: invariants found", fn.Name())
	for i := range y.Outs {
		o := &y.Outs[i]
		res := o.Res[0]
		z := &sym.State{G: o.G, Mem: o.Mem, Src: o.Src}
		if p, ok := res.(*sym.PtrV); ok && p.Obj != nil && len(p.Path) == 0 {
			res = o.Mem[p.Obj]
		}
		w, err := viewOf(x, z, res)
		if err != nil {
			r.fail(name, "post", "the result is tables", err.Error())
			continue
		}
		post := func(what string, t *term.Term) {
			c.prove(name, "post", fmt.Sprintf("%s (return %d)", what, i+1), pos, y.Axioms, y.Facts, y.invHyps(o.Src), len(y.Facts), o.G, t)
		}
		post("the sizes of the tables", w.sizes())
		same := func(w *view) *term.Term { return term.Implies(k.ascii, term.Eq(w.prop(k.c), c.t.prop(k.c))) }
		var h []*term.Term
		if c.w0 != nil && len(c.calls) > 0 {
			c.prove(name, "pre", "an ASCII character has the tree's value when blocks are added", pos, y.Axioms, y.Facts, nil, c.calls[0].facts, term.True, same(c.w0))
			h = append(h, same(c.w0))
		}
		c.prove(name, "post", fmt.Sprintf("an ASCII character has the tree's value (return %d)", i+1), pos, y.Axioms, y.Facts, append(h, y.invHyps(o.Src)...), len(y.Facts), o.G, same(w))
		for l, in := range [][2]int64{{2, 32}, {32, 48}, {48, 53}} {
			// first bytes of two, three and four byte characters
			v, u := w.index(c.g), c.t.index(c.g)
			here := term.And(term.Sle(c64(in[0]), c.g), term.Slt(c.g, c64(in[1])))
			post(fmt.Sprintf("lookup of a character of %d bytes gives the tree's value", l+2), term.Implies(here, term.And(w.exists(l, v, c.p), term.Eq(w.result(l, v, c.p), c.t.source(l, u, c.p)))))
		}
	}
	c.settled(r)
	r.Functions[fn.String()] = "contract"
	done := map[level]bool{}
	todo := c.needs
	for len(todo) > 0 {
		next := map[level]bool{}
		for _, n := range []int{0, 1, 2} {
			for _, al := range []bool{true, false} {
				lv := level{n, al}
				if !todo[lv] || done[lv] {
					continue
				}
				if len(r.failed()) > 0 {
					r.Notes = append(r.Notes, fmt.Sprintf("%s: obligations failed; %d levels (%v) not tried", build.Name(), lv.n, lv.alias))
					return nil
				}
				done[lv] = true
				more, err := s.level(r, build, named, lv)
				if err != nil {
					return err
				}
				for m := range more {
					next[m] = true
				}
			}
		}
		todo = next
	}
	return nil
}
