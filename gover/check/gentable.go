package check

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

const genPkg = cpPkg + "/gentable"

// view is the two tables of a tree in some state.
type view struct {
	idx, props       *term.Term // arrays of 16 and of 8 bits
	idxOff, propsOff *term.Term
	idxLen, propsLen *term.Term
}

func w64(t *term.Term) *term.Term {
	if t.S.W == 64 {
		return t
	}
	return term.Zext(t, 64)
}

func (w *view) index(s *term.Term) *term.Term {
	return w64(term.Select(w.idx, term.Add(w.idxOff, s)))
}

func (w *view) prop(s *term.Term) *term.Term {
	return term.Select(w.props, term.Add(w.propsOff, s))
}

func shr(t *term.Term, n uint64) *term.Term { return term.Bin(term.OpLshr, t, term.Const(t.S.W, n)) }
func low6(t *term.Term) *term.Term          { return term.Bin(term.OpBAnd, t, term.Const(t.S.W, 63)) }
func slot(block, entry *term.Term) *term.Term {
	return term.Add(term.Bin(term.OpShl, block, c64(6)), entry)
}

// char is a character as the bytes of its encoding see it.
type char struct {
	c                *term.Term // 64 bits
	ascii, two, four *term.Term
	root             *term.Term // low six bits of the first byte
	a, b, last       *term.Term // of the third, second and last byte from the end
}

func charOf(c32 *term.Term) char {
	c := term.Zext(c32, 64)
	k := char{c: c, ascii: term.Ult(c, c64(0x80)), two: term.Ult(c, c64(0x800)), four: term.Not(term.Ult(c, c64(0x10000)))}
	k.root = term.Ite(k.two, shr(c, 6), term.Ite(k.four, term.Add(c64(48), shr(c, 18)), term.Add(c64(32), shr(c, 12))))
	k.a, k.b, k.last = low6(shr(c, 12)), low6(shr(c, 6)), low6(c)
	return k
}

func scalar(c32 *term.Term) *term.Term {
	c := term.Zext(c32, 64)
	return term.And(term.Ult(c, c64(0x110000)), term.Or(term.Ult(c, c64(0xd800)), term.Ult(c64(0xdfff), c)))
}

// walk is the way of a character's lookup: the slots of the index table it
// comes by, the numbers there, and what it ends at.
type walk struct {
	k          char
	s, v       [3]*term.Term // the last one used is the one of the property block
	used       [3]*term.Term
	last       *term.Term // the slot that has the property block
	block      *term.Term
	none       *term.Term // some number is zero
	value, sum *term.Term
}

func (w *view) walk(k char) walk {
	r := walk{k: k}
	r.s[0] = k.root
	r.v[0] = w.index(r.s[0])
	r.s[1] = slot(r.v[0], term.Ite(k.four, k.a, k.b))
	r.v[1] = w.index(r.s[1])
	r.s[2] = slot(r.v[1], k.b)
	r.v[2] = w.index(r.s[2])
	na := term.Not(k.ascii)
	r.used = [3]*term.Term{na, term.Not(k.two), k.four}
	r.last = term.Ite(k.two, r.s[0], term.Ite(k.four, r.s[2], r.s[1]))
	r.block = term.Ite(k.two, r.v[0], term.Ite(k.four, r.v[2], r.v[1]))
	z := func(i int) *term.Term { return term.And(r.used[i], term.Eq(r.v[i], c64(0))) }
	r.none = term.Or(z(0), z(1), z(2))
	r.value = term.Ite(k.ascii, w.prop(k.c), term.Ite(r.none, term.Const(8, 0), w.prop(slot(r.block, k.last))))
	return r
}

// shape are the ghost functions of the tree's invariant: the slot a block is
// referred to from, and how many more levels of index blocks are below an index
// block.
type shape struct {
	idxSlot, propSlot, below func(k *term.Term) *term.Term
}

func givenShape() shape {
	f := func(n string) func(k *term.Term) *term.Term {
		return func(k *term.Term) *term.Term { return term.App("tree."+n, term.BV(64), k) }
	}
	return shape{f("indexslot"), f("propertyslot"), f("below")}
}

// after is the shape when the blocks on the way of a character are there.
func (h shape) after(r walk) shape {
	on := func(g, k, b *term.Term, v *term.Term, rest *term.Term) *term.Term {
		return term.Ite(term.And(g, term.Eq(k, b)), v, rest)
	}
	return shape{
		idxSlot: func(k *term.Term) *term.Term {
			return on(r.used[1], k, r.v[0], r.s[0], on(r.used[2], k, r.v[1], r.s[1], h.idxSlot(k)))
		},
		propSlot: func(k *term.Term) *term.Term {
			return on(r.used[0], k, r.block, r.last, h.propSlot(k))
		},
		below: func(k *term.Term) *term.Term {
			return on(r.used[1], k, r.v[0], term.Ite(r.k.four, c64(1), c64(0)), on(r.used[2], k, r.v[1], c64(0), h.below(k)))
		},
	}
}

// sound is the invariant at one slot: what it refers to exists, is referred to
// from nowhere else and is of the right kind.
func (w *view) sound(h shape, s *term.Term) *term.Term {
	v := w.index(s)
	nI, nP := shr(w.idxLen, 6), shr(w.propsLen, 6)
	root := term.Ite(term.Slt(s, c64(32)), c64(0), term.Ite(term.Slt(s, c64(48)), c64(1), c64(2)))
	below := term.Ite(term.Slt(s, c64(64)), root, h.below(shr(s, 6)))
	prop := term.And(term.Sle(c64(2), v), term.Slt(v, nP), term.Eq(h.propSlot(v), s))
	index := term.And(term.Slt(v, nI), term.Eq(h.idxSlot(v), s), term.Eq(h.below(v), term.Sub(below, c64(1))), term.Sle(below, c64(2)))
	return term.Implies(term.And(term.Sle(c64(0), s), term.Slt(s, w.idxLen), term.Not(term.Eq(v, c64(0)))),
		term.Ite(term.Eq(below, c64(0)), prop, index))
}

// sizes is the invariant of the tables' sizes.
func (w *view) sizes() *term.Term {
	whole := func(n *term.Term) *term.Term { return term.Eq(low6(n), c64(0)) }
	return term.And(whole(w.idxLen), whole(w.propsLen), term.Sle(c64(64), w.idxLen), term.Sle(c64(128), w.propsLen),
		term.Eq(w.idxOff, c64(0)), term.Eq(w.propsOff, c64(0)))
}

// viewOf finds the tables in a structure: its slices of 16 and of 8 bit numbers.
func viewOf(x *sym.Exec, st *sym.State, v sym.Value) (*view, error) {
	s, ok := v.(*sym.StructV)
	if !ok {
		return nil, fmt.Errorf("the tables are not kept in a structure")
	}
	w := &view{}
	for _, f := range s.Fields {
		sl, ok := f.(*sym.SliceV)
		if !ok {
			continue
		}
		so, ok := sym.SortOf(sl.Elem)
		if !ok {
			continue
		}
		arr, ok := x.RegionOf(st, sl)
		if !ok {
			if sl.Obj != nil {
				return nil, fmt.Errorf("a table of unknown content")
			}
			arr = term.Fresh("none", term.Sort{W: so.W, Arr: true})
		}
		switch so.W {
		case 16:
			w.idx, w.idxOff, w.idxLen = arr, sl.Off, sl.Len
		case 8:
			w.props, w.propsOff, w.propsLen = arr, sl.Off, sl.Len
		}
	}
	if w.idx == nil || w.props == nil {
		return nil, fmt.Errorf("there are no tables of 16 and of 8 bit numbers")
	}
	return w, nil
}

// treeInput is an arbitrary tree that is being built; it is the caller's to change.
func (s *Subject) treeInput(x *sym.Exec, st *sym.State, t types.Type) (*sym.Obj, *view, error) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("%s is not a structure", t)
	}
	sv := &sym.StructV{}
	for i := 0; i < u.NumFields(); i++ {
		v := x.Input(st, u.Field(i).Name(), u.Field(i).Type())
		if sl, ok := v.(*sym.SliceV); ok {
			sl.Obj.Input = false
		}
		sv.Fields = append(sv.Fields, v)
	}
	o := x.World.NewObj("tree", t, nil)
	st.Mem[o] = sv
	w, err := viewOf(x, st, sv)
	return o, w, err
}

// fewBlocks: as every block is referred to from one slot only, and there is one
// for each 64 characters at most, the numbers of blocks fit into 16 bits.
func fewBlocks(w *view) *term.Term {
	return term.And(term.Sle(shr(w.idxLen, 6), c64(60000)), term.Sle(shr(w.propsLen, 6), c64(60000)))
}

// treeType is what newTreeInProgress makes.
func (s *Subject) tables(r *Report) error {
	mk := s.P.Func(genPkg, "newTreeInProgress")
	if mk == nil || mk.Signature.Results().Len() != 1 || len(mk.Params) != 0 {
		return fmt.Errorf("no newTreeInProgress() or with another signature")
	}
	pt, ok := mk.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return fmt.Errorf("newTreeInProgress returns no pointer")
	}
	r.assume("the numbers of blocks of a tree under construction fit into 16 bits: each block is referred to from one slot (proved) and there is one for every 64 characters at most (counting, not mechanised)")
	if err := s.newTree(r, mk); err != nil {
		return err
	}
	named, ok := pt.Elem().(*types.Named)
	if !ok {
		return fmt.Errorf("newTreeInProgress returns no named type")
	}
	for _, n := range []string{"Set", "BitwiseOr"} {
		if err := s.assignment(r, named.Obj().Name(), n, pt.Elem()); err != nil {
			return err
		}
	}
	r.orBounded("Compact", func(f *Report) error { return s.compact(f, named) },
		standIn{genPkg + ".treeInProgress.Compact", "the compacted tables give every character the value the tree gives it", "the native run's histories of assignments, every scalar value looked up in each"})
	r.orBounded("BuildRawPropertyTree", func(f *Report) error { return s.building(f, named) },
		standIn{genPkg + ".BuildRawPropertyTree", "the assignments are those of the data files", "the native run's histories of assignments, and the repository's Unicode files"})
	return nil
}

// orBounded has the proof of a function, or where its contract does not bind to
// the code a bounded check in its place.
func (r *Report) orBounded(what string, prove func(f *Report) error, b standIn) {
	f := r.fork()
	err := prove(f)
	if err == nil && f.unbound() != "" {
		err = fmt.Errorf("%s", f.unbound())
	}
	if err != nil {
		r.logf("the contract of %s does not bind: %v", what, err)
		r.Notes = append(r.Notes, "the contract of "+what+" does not bind: "+err.Error())
		r.standIns = append(r.standIns, b)
		return
	}
	r.join(f)
}

// newTree: every character has the value zero in a new tree.
func (s *Subject) newTree(r *Report, fn *ssa.Function) error {
	x := s.W.Exec()
	x.Feasible = prove.Feasible
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Inv: map[*sym.Loop][]*Cand{}}
	y.Outs = x.Run(fn, nil, nil, st)
	y.Loops, y.Facts, y.Obl, y.Calls = x.Loops, x.Facts, x.Obligs, x.Called
	y.functions(r)
	y.safety(r, "safety", "pre", "unsupported", "frame")
	var err error
	r.batch(func() { err = s.treeClauses(r, y, x, fn.Name(), nil, nil) })
	return err
}

// assignment: Set or BitwiseOr changes the value of one character.
func (s *Subject) assignment(r *Report, typ, name string, t types.Type) error {
	fn := s.method(genPkg, typ, name)
	if fn == nil || len(fn.Params) != 3 {
		return fmt.Errorf("no %s.%s, or with another signature", typ, name)
	}
	x := s.W.Exec()
	x.Feasible = prove.Feasible
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	o, w, err := s.treeInput(x, st, t)
	if err != nil {
		return err
	}
	y := &Sys{S: s, Fn: fn, Name: name, Inv: map[*sym.Loop][]*Cand{}}
	y.Args = []sym.Value{&sym.PtrV{Obj: o, Nil: term.False}, x.Input(st, "r", fn.Params[1].Type()), x.Input(st, "v", fn.Params[2].Type())}
	c, ok := y.Args[1].(*term.Term)
	if !ok || c.S != term.BV(32) {
		return fmt.Errorf("%s.%s has another signature", typ, name)
	}
	g := &treeGhost{pre: w, shape: givenShape(), obj: o, r: charOf(c)}
	x.Assume(w.sizes())
	x.Assume(fewBlocks(w))
	g.instances(x.Assume, w.walk(g.r))
	g.instances(x.Assume, w.walk(otherChar()))
	x.Assume(scalar(otherRune))
	con := s.Con.Lookup("textseg/internal/charprops/gentable", "treeInProgress."+name)
	if con == nil {
		return fmt.Errorf("no contract for %s", name)
	}
	for _, cl := range con.Clauses {
		if cl.Kind != "requires" {
			continue
		}
		e, err := g.env(s, y, x, con, &sym.Outcome{G: term.True, Mem: st.Mem})
		if err != nil {
			return err
		}
		t, err := e.Bool(cl.Expr)
		if err != nil {
			return err
		}
		x.Assume(t)
	}
	y.Outs = x.Run(fn, y.Args, nil, st)
	y.Loops, y.Facts, y.Obl, y.Calls = x.Loops, x.Facts, x.Obligs, x.Called
	y.functions(r)
	if len(y.Loops) > 0 {
		y.numeric()
		if err := y.houdini(nil); err != nil {
			return err
		}
		y.prune()
		y.recheck(r, nil)
	}
	y.safety(r, "safety", "pre", "unsupported", "frame")
	r.batch(func() { err = s.treeClauses(r, y, x, "treeInProgress."+name, con, g) })
	return err
}

var otherRune = term.Var("other", term.BV(32))

func otherChar() char { return charOf(otherRune) }

// treeGhost is what the contracts of a tree speak of.
type treeGhost struct {
	pre   *view
	shape shape
	obj   *sym.Obj
	r     char
}

// instances assumes the invariant at the slots of a way.
func (g *treeGhost) instances(assume func(t *term.Term), ws ...walk) {
	for _, w := range ws {
		for _, s := range w.s {
			assume(g.pre.sound(g.shape, s))
		}
	}
}

func (g *treeGhost) env(s *Subject, y *Sys, x *sym.Exec, con *contract.Func, o *sym.Outcome) (*contract.Env, error) {
	vars := map[string]contract.TV{}
	if len(con.Params) != len(y.Args) && !(len(con.Params) == 0) {
		return nil, fmt.Errorf("%s has another signature", y.Fn)
	}
	for k, p := range con.Params {
		vars[p] = contract.TV{V: y.Args[k], Typ: y.Fn.Params[k].Type()}
	}
	e := s.env(y.Fn.Pkg.Pkg, vars)
	post, err := viewOf(x, &sym.State{G: o.G, Mem: o.Mem}, o.Mem[g.obj])
	if err != nil {
		return nil, err
	}
	b := func(t *term.Term) (contract.TV, error) { return contract.TV{V: t, Typ: tBool}, nil }
	u8 := types.Typ[types.Uint8]
	def := func(n string, f func(as []contract.TV) (contract.TV, error)) {
		e.Extra[n] = func(e *contract.Env, as []contract.TV) (contract.TV, error) { return f(as) }
	}
	rune32 := func(a contract.TV) (*term.Term, error) {
		t, ok := a.V.(*term.Term)
		if !ok {
			return nil, fmt.Errorf("not a character")
		}
		if t.S.W > 32 {
			t = term.Extract(t, 0, 32)
		}
		return t, nil
	}
	def("scalar", func(as []contract.TV) (contract.TV, error) {
		t, err := rune32(as[0])
		if err != nil {
			return contract.TV{}, err
		}
		return b(scalar(t))
	})
	def("other", func(as []contract.TV) (contract.TV, error) {
		return contract.TV{V: otherRune, Typ: types.Typ[types.Int32]}, nil
	})
	def("value", func(as []contract.TV) (contract.TV, error) {
		t, err := rune32(as[0])
		if err != nil {
			return contract.TV{}, err
		}
		return contract.TV{V: post.walk(charOf(t)).value, Typ: u8}, nil
	})
	def("before", func(as []contract.TV) (contract.TV, error) {
		t, err := rune32(as[0])
		if err != nil {
			return contract.TV{}, err
		}
		return contract.TV{V: g.pre.walk(charOf(t)).value, Typ: u8}, nil
	})
	def("sound", func(as []contract.TV) (contract.TV, error) {
		q := term.Var("slot", term.BV(64))
		h := g.shape
		if g.pre != nil {
			h = h.after(post.walk(g.r))
		}
		return b(term.And(post.sizes(), post.sound(h, q)))
	})
	return e, nil
}

// treeClauses proves the clauses of a contract over trees at every return.
func (s *Subject) treeClauses(r *Report, y *Sys, x *sym.Exec, name string, con *contract.Func, g *treeGhost) error {
	if con == nil {
		if con = s.Con.Lookup("textseg/internal/charprops/gentable", name); con == nil {
			return fmt.Errorf("no contract for %s", name)
		}
	}
	fn := y.Fn
	if len(y.Outs) == 0 {
		r.fail(fn.String(), "cover", "some return is reachable", "none")
	}
	for _, cl := range con.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		for i := range y.Outs {
			o := &y.Outs[i]
			gg := g
			if gg == nil { // what is returned is the tree
				p, ok := o.Res[0].(*sym.PtrV)
				if !ok || p.Obj == nil {
					return fmt.Errorf("%s returns no tree", fn)
				}
				gg = &treeGhost{shape: givenShape(), obj: p.Obj}
			}
			e, err := gg.env(s, y, x, con, o)
			if err != nil {
				return err
			}
			t, err := e.Bool(cl.Expr)
			if err != nil {
				r.fail(fn.String(), "post", cl.Text, err.Error())
				continue
			}
			h := y.hyps(o.Src)
			if g != nil { // the invariant before, where the state after looks
				post, err := viewOf(x, &sym.State{G: o.G, Mem: o.Mem}, o.Mem[g.obj])
				if err != nil {
					return err
				}
				add := func(t *term.Term) { h = append(h, t) }
				g.instances(add, post.walk(g.r), post.walk(otherChar()))
				add(g.pre.sound(g.shape, term.Var("slot", term.BV(64))))
			}
			nm := cl.Text
			if len(y.Outs) > 1 {
				nm += fmt.Sprintf(" (return %d)", i+1)
			}
			r.prove(fn.String(), "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: h, Guard: o.G, Goal: t}, prove.Default)
		}
	}
	return nil
}

func init() {
	Checks["C14"] = func(s *Subject, r *Report) error {
		return s.tables(r)
	}
}
