package check

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

// making is the execution of BuildRawPropertyTree with the scanner, the tree, its
// compaction and the name functions by contract. The ghost function assigned(f,n)
// is the value the character other has when n entries of file f were assigned.
type making struct {
	s       *Subject
	x       *sym.Exec
	newScan *ssa.Function
	next    *ssa.Function
	first   map[*ssa.Function]bool // FirstField, FirstString
	all     map[*ssa.Function]bool // AllFields, Strings
	names   map[*ssa.Function]string
	newTree *ssa.Function
	set, or *ssa.Function
	compact *ssa.Function
	entry   *types.Struct
	eof     sym.Value
	tree    *sym.Obj
	tables  *sym.Obj // ghost: the value in the tables that were built
	made    sym.Value
	reads   []read
}

type read struct {
	file int
	n    *term.Term
}

// The files in the order of their assignments, by the last part of their names.
var dataFiles = []string{"GraphemeBreakProperty.txt", "emoji-data.txt", "DerivedCoreProperties.txt"}

func fileArg(f int) *term.Term { return c64(int64(f + 1)) }

func (b *making) of(name string, s term.Sort, f int, n ...*term.Term) *term.Term {
	return term.App("file."+name, s, append([]*term.Term{fileArg(f)}, n...)...)
}

func (b *making) entries(f int) *term.Term { return b.of("entries", term.BV(64), f) }
func (b *making) unread(f int) *term.Term  { return b.of("fails", term.Bool, f) }
func (b *making) missing(f int) *term.Term { return b.of("missing", term.Bool, f) }
func (b *making) assigned(f int, n *term.Term) *term.Term {
	return b.of("assigned", term.BV(8), f, n)
}

func (b *making) span(f int, n *term.Term) (start, end *term.Term) {
	return b.of("start", term.BV(32), f, n), b.of("end", term.BV(32), f, n)
}

func (b *making) fields(f int, n *term.Term) piece {
	return piece{b.of("fields", term.Arr(8), f, n), c64(0), b.of("fields.len", term.BV(64), f, n)}
}

// field is a field of the list at p, and count how many there are.
func (b *making) field(p piece, i *term.Term) *sym.StringV {
	at := func(what string, s term.Sort) *term.Term {
		return term.App("field."+what, s, p.arr, p.a, p.b, i)
	}
	n := at("len", term.BV(64))
	b.x.Axiom(term.And(term.Sle(c64(0), n), term.Sle(n, c64(1<<46))))
	return &sym.StringV{Arr: at("bytes", term.Arr(8)), Off: c64(0), Len: n}
}

func (b *making) count(p piece) *term.Term {
	n := term.App("fields.count", term.BV(64), p.arr, p.a, p.b)
	b.x.Axiom(term.And(term.Sle(c64(1), n), term.Sle(n, c64(1<<46))))
	return n
}

func (b *making) named(what string, s *sym.StringV) *term.Term {
	if s.Const != nil {
		return term.App(fmt.Sprintf("name.%s.%x", what, *s.Const), term.BV(8))
	}
	return term.App("name."+what, term.BV(8), s.Arr, s.Off, s.Len)
}

// step is the value of other after entry n of file f, when it was v.
func (b *making) step(f int, n, v *term.Term) *term.Term {
	p := b.fields(f, n)
	first := b.field(p, c64(0))
	start, end := b.span(f, n)
	here := term.And(term.Sle(start, otherRune), term.Slt(otherRune, end))
	switch f {
	case 0:
		v = term.Ite(here, b.named("LookupGCBProperty", first), v)
	case 1:
		e := b.named("LookupEmojiProperty", first)
		v = term.Ite(term.And(here, term.Not(term.Eq(e, term.Const(8, 0)))), e, v)
	case 2:
		c := "InCB"
		is, _ := sym.StrEq(first, &sym.StringV{Const: &c})
		v = term.Ite(term.And(here, term.Sle(c64(2), b.count(p)), is), term.Bin(term.OpBOr, v, b.named("LookupInCBProperty", b.field(p, c64(1)))), v)
	}
	return v
}

// known has the definition of assigned at hand for entry n of file f.
func (b *making) known(f int, n *term.Term) {
	b.x.Axiom(term.Implies(term.And(term.Sle(c64(0), n), term.Slt(n, b.entries(f))), term.Eq(b.assigned(f, term.Add(n, c64(1))), b.step(f, n, b.assigned(f, n)))))
	start, end := b.span(f, n)
	c := func(v uint64) *term.Term { return term.Const(32, v) }
	b.x.Axiom(term.And(term.Sle(c(0), start), term.Sle(start, c(0x10ffff)), term.Sle(c(0), end), term.Sle(end, c(0x110000)), term.Or(term.Sle(end, c(0xd800)), term.Sle(c(0xe000), start))))
	for g := range dataFiles {
		b.x.Axiom(term.And(term.Sle(c64(0), b.entries(g)), term.Sle(b.entries(g), c64(1<<46))))
	}
	p := b.fields(f, n)
	b.x.Axiom(term.And(term.Sle(c64(0), p.b), term.Sle(p.b, c64(1<<46))))
	for _, r := range b.reads {
		if r.file == f && r.n == n {
			return
		}
	}
	b.reads = append(b.reads, read{f, n})
}

// fileOf is the file a value was made from.
func fileOf(v sym.Value) (f int, o *sym.Obj) {
	f = -1
	switch u := v.(type) {
	case *sym.IfaceV:
		return fileOf(u.Val)
	case *sym.StructV:
		for _, x := range u.Fields {
			if f, o = fileOf(x); f >= 0 {
				return
			}
		}
	case *sym.PtrV:
		if u.Obj != nil && len(u.Path) == 0 {
			for i, n := range dataFiles {
				if strings.HasSuffix(u.Obj.Name, "of "+n) {
					return i, u.Obj
				}
			}
		}
	}
	return
}

func (b *making) hook(c *sym.Call) ([]sym.Outcome, bool) {
	x, st := c.X, c.St
	ret := func(vs ...sym.Value) ([]sym.Outcome, bool) {
		return []sym.Outcome{{G: st.G, Res: vs, Mem: st.Mem, Src: st.Src}}, true
	}
	bad := func(what string) ([]sym.Outcome, bool) {
		x.Unsupported(st, what, c.Pos)
		var vs []sym.Value
		for i := range c.Sig.Results().Len() {
			z, err := sym.Zero(c.Sig.Results().At(i).Type())
			if err != nil {
				z = &sym.OpaqueV{Name: "unknown"}
			}
			vs = append(vs, z)
		}
		return ret(vs...)
	}
	failure := func(isNil *term.Term) sym.Value {
		if isNil.IsTrue() {
			return &sym.IfaceV{Nil: term.True}
		}
		t := types.NewPointer(types.NewStruct(nil, nil))
		return &sym.IfaceV{Typ: t, Val: &sym.PtrV{Obj: x.World.NewObj("error", nil, nil), Nil: term.False}, Nil: isNil}
	}
	switch c.Name {
	case "path/filepath.Join", "path.Join":
		if s, ok := c.Args[0].(*sym.SliceV); ok && s.Len.IsConst() && s.Len.Val > 0 {
			v, ok := x.Elem(st, s, c64(int64(s.Len.Val)-1))
			if l, isStr := v.(*sym.StringV); ok && isStr && l.Const != nil {
				return ret(&sym.StringV{Arr: term.Var("path of "+*l.Const, term.Arr(8)), Off: c64(0), Len: term.Var("path.len", term.BV(64))})
			}
		}
		return bad("a path of unknown content")
	case "os.Open":
		if s, ok := c.Args[0].(*sym.StringV); ok && s.Arr != nil {
			for f, n := range dataFiles {
				if s.Arr != term.Var("path of "+n, term.Arr(8)) {
					continue
				}
				o := x.World.NewObj("file of "+n, nil, nil)
				return []sym.Outcome{
					{G: term.And(st.G, term.Not(b.missing(f))), Res: []sym.Value{&sym.PtrV{Obj: o, Nil: term.False}, failure(term.True)}, Mem: st.Mem, Src: st.Src},
					{G: term.And(st.G, b.missing(f)), Res: []sym.Value{&sym.PtrV{Nil: term.True}, failure(term.False)}, Mem: st.Mem, Src: st.Src},
				}, true
			}
		}
		return bad("another file is opened")
	case "(*os.File).Close":
		return ret(failure(term.True))
	case "fmt.Errorf", "errors.New":
		return ret(failure(term.False))
	case "errors.Is":
		if e, ok := sym.ValEq(c.Args[0], c.Args[1]); ok {
			return ret(e)
		}
		return bad("call of errors.Is")
	}
	if strings.HasPrefix(c.Name, "slices.Collect") && len(c.Args) == 1 {
		f, ok := c.Args[0].(*sym.FuncV)
		if !ok || f.Name != "fields" {
			return bad("call of slices.Collect")
		}
		p, ok := pieceOf(x, st, f.Bindings[0])
		if !ok {
			return bad("fields of unknown content")
		}
		a := &sym.LazyV{Get: func(i *term.Term) sym.Value { return b.field(p, i) }}
		o := x.World.NewObj("fields", nil, nil)
		st.Mem[o] = a
		n := b.count(p)
		return ret(&sym.SliceV{Obj: o, Off: c64(0), Len: n, Cap: n, Nil: term.False, Elem: types.Typ[types.String]})
	}
	if c.Fn == nil {
		return nil, false
	}
	if n := b.names[c.Fn]; n != "" {
		s, ok := c.Args[0].(*sym.StringV)
		if !ok {
			return bad("a name of unknown content")
		}
		return ret(b.named(n, s))
	}
	switch fn := c.Fn; {
	case fn == b.newScan:
		f, _ := fileOf(c.Args[0])
		if f < 0 {
			return bad("a scanner of an unknown reader")
		}
		o := x.World.NewObj("scanner of "+dataFiles[f], nil, nil)
		st.Mem[o] = c64(0)
		return ret(handle(fn.Signature.Results().At(0).Type(), o))
	case fn == b.next:
		f, o := fileOf(c.Args[0])
		if f < 0 {
			return bad("an unknown scanner")
		}
		n, ok := st.Mem[o].(*term.Term)
		if !ok {
			return bad("an unknown scanner")
		}
		b.known(f, n)
		e := &sym.StructV{}
		fo := x.World.NewObj("entry.fields", nil, nil)
		p := b.fields(f, n)
		zero, err := sym.Zero(fn.Signature.Results().At(0).Type())
		if err != nil {
			return bad("entries of an unknown type")
		}
		for i := range b.entry.NumFields() {
			start, end := b.span(f, n)
			switch b.entry.Field(i).Name() {
			case "Start":
				e.Fields = append(e.Fields, start)
			case "End":
				e.Fields = append(e.Fields, end)
			case "Fields":
				e.Fields = append(e.Fields, &sym.SliceV{Obj: fo, Off: c64(0), Len: p.b, Cap: p.b, Nil: term.False, Elem: tByte})
			default:
				return bad("entries of an unknown type")
			}
		}
		var outs []sym.Outcome
		way := func(g *term.Term, n *term.Term, e sym.Value, err sym.Value) {
			m := map[*sym.Obj]sym.Value{}
			for k, v := range st.Mem {
				m[k] = v
			}
			m[o] = n
			m[fo] = &sym.RegionV{Arr: p.arr}
			if g = term.And(st.G, g); !g.IsFalse() {
				outs = append(outs, sym.Outcome{G: g, Res: []sym.Value{e, err}, Mem: m, Src: st.Src})
			}
		}
		more := term.Slt(n, b.entries(f))
		way(more, term.Add(n, c64(1)), e, failure(term.True))
		way(term.And(term.Not(more), term.Not(b.unread(f))), n, zero, b.eof)
		way(term.And(term.Not(more), b.unread(f)), n, zero, failure(term.False))
		return outs, true
	case b.first[fn] || b.all[fn]:
		v := c.Args[0]
		if e, ok := v.(*sym.StructV); ok && len(e.Fields) == b.entry.NumFields() {
			for i, f := range e.Fields {
				if b.entry.Field(i).Name() == "Fields" {
					v = f
				}
			}
		}
		p, ok := pieceOf(x, st, v)
		if !ok {
			return bad("fields of unknown content")
		}
		if b.all[fn] {
			return ret(&sym.FuncV{Name: "fields", Bindings: []sym.Value{v}})
		}
		return ret(b.field(p, c64(0)))
	case fn == b.newTree:
		if b.tree != nil {
			return bad("two trees")
		}
		b.tree = x.World.NewObj("tree", nil, nil)
		st.Mem[b.tree] = term.Const(8, 0)
		return ret(&sym.PtrV{Obj: b.tree, Nil: term.False})
	case fn == b.set, fn == b.or, fn == b.compact:
		p, ok := c.Args[0].(*sym.PtrV)
		if !ok || p.Obj == nil || p.Obj != b.tree || len(p.Path) > 0 {
			return bad("an unknown tree")
		}
		old, ok := st.Mem[b.tree].(*term.Term)
		if !ok {
			return bad("an unknown tree")
		}
		if fn == b.compact {
			if b.made == nil {
				u, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Struct)
				if !ok {
					return bad("compacted tables of an unknown type")
				}
				m := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
				v := &sym.StructV{}
				for i := range u.NumFields() {
					v.Fields = append(v.Fields, x.Input(m, "compacted."+u.Field(i).Name(), u.Field(i).Type()))
				}
				b.made = v
			}
			st.Mem[b.tables] = old
			return ret(b.made)
		}
		r, ok1 := c.Args[1].(*term.Term)
		v, ok2 := c.Args[2].(*term.Term)
		if !ok1 || !ok2 || r.S != term.BV(32) || v.S != term.BV(8) {
			return bad("an assignment of another type")
		}
		x.Require(st, "what is assigned to is a Unicode scalar value", c.Pos, scalar(r))
		here := term.Eq(r, otherRune)
		if fn == b.set {
			// refused, by a panic
			x.Assume(term.Implies(st.G, term.Not(term.And(here, term.Eq(v, term.Const(8, 4)), term.Not(term.Eq(old, term.Const(8, 0)))))))
			st.Mem[b.tree] = term.Ite(here, v, old)
		} else {
			st.Mem[b.tree] = term.Ite(here, term.Bin(term.OpBOr, old, v), old)
		}
		return ret()
	}
	return nil, false
}

// handle is a value of type t that leads to o.
func handle(t types.Type, o *sym.Obj) sym.Value {
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := &sym.StructV{}
		done := false
		for i := range u.NumFields() {
			if _, isPtr := u.Field(i).Type().Underlying().(*types.Pointer); isPtr && !done {
				s.Fields = append(s.Fields, &sym.PtrV{Obj: o, Nil: term.False})
				done = true
				continue
			}
			z, err := sym.Zero(u.Field(i).Type())
			if err != nil {
				z = &sym.OpaqueV{Name: "unknown"}
			}
			s.Fields = append(s.Fields, z)
		}
		if done {
			return s
		}
	}
	return &sym.PtrV{Obj: o, Nil: term.False}
}

// building decides the contract of BuildRawPropertyTree.
func (s *Subject) building(r *Report, named *types.Named) error {
	fn := s.P.Func(genPkg, "BuildRawPropertyTree")
	con := s.Con.Lookup("textseg/internal/charprops/gentable", "BuildRawPropertyTree")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 || con == nil {
		return fmt.Errorf("no BuildRawPropertyTree(dir) (tables, error), or no contract for it")
	}
	x := s.W.Exec()
	x.Few = true
	x.Feasible = prove.Feasible
	b := &making{s: s, x: x, first: map[*ssa.Function]bool{}, all: map[*ssa.Function]bool{}, names: map[*ssa.Function]string{}}
	b.newScan, b.next = s.P.Func(ucdPkg, "NewScanner"), s.method(ucdPkg, "Scanner", "NextEntry")
	t := named.Obj().Name()
	b.newTree, b.set, b.or, b.compact = s.P.Func(genPkg, "newTreeInProgress"), s.method(genPkg, t, "Set"), s.method(genPkg, t, "BitwiseOr"), s.method(genPkg, t, "Compact")
	if b.newScan == nil || b.next == nil || b.set == nil || b.or == nil || b.compact == nil || b.next.Signature.Results().Len() != 2 {
		return fmt.Errorf("a function it calls is not there")
	}
	b.entry, _ = b.next.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	if b.entry == nil {
		return fmt.Errorf("entries are no structures")
	}
	for _, n := range [][2]string{{"Entry", "FirstField"}, {"Fields", "FirstString"}} {
		b.first[s.method(ucdPkg, n[0], n[1])] = true
	}
	for _, n := range [][2]string{{"Entry", "AllFields"}, {"Fields", "Strings"}} {
		b.all[s.method(ucdPkg, n[0], n[1])] = true
	}
	for _, n := range []string{"LookupGCBProperty", "LookupEmojiProperty", "LookupInCBProperty"} {
		b.names[s.P.Func(cpPkg, n)] = n
	}
	for _, m := range []map[*ssa.Function]bool{b.first, b.all} {
		delete(m, nil)
	}
	delete(b.names, nil)
	if p := s.P.SSA.ImportedPackage("io"); p != nil {
		if g, ok := p.Members["EOF"].(*ssa.Global); ok {
			b.eof = x.Global(g).Init
		}
	}
	if b.eof == nil {
		return fmt.Errorf("io.EOF is not known")
	}
	b.tables = x.World.NewObj("compacted", nil, nil)
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{b.tables: term.Const(8, 0)}}
	x.Hook = b.hook
	x.Axiom(term.Eq(b.assigned(0, c64(0)), term.Const(8, 0)))
	x.Axiom(term.Eq(b.assigned(1, c64(0)), b.assigned(0, b.entries(0))))
	x.Axiom(term.Eq(b.assigned(2, c64(0)), b.assigned(1, b.entries(1))))
	x.Axiom(scalar(otherRune))
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Inv: map[*sym.Loop][]*Cand{}}
	y.Args = []sym.Value{x.Input(st, "dir", fn.Params[0].Type())}
	y.Outs = x.Run(fn, y.Args, nil, st)
	y.Loops, y.Facts, y.Axioms, y.Obl, y.Calls = x.Loops, x.Facts, x.Axioms, x.Obligs, x.Called
	y.functions(r)
	for _, o := range x.Obligs {
		if o.Kind == "unsupported" {
			return fmt.Errorf("%s (%s)", o.Name, posStr(s.P.Fset, o.Pos, s.Cfg.Repo))
		}
	}
	if len(y.Outs) == 0 {
		r.fail(fn.String(), "cover", "some return is reachable", "none")
	}
	b.candidates(y)
	y.Args = nil
	if err := y.houdini(nil); err != nil {
		return err
	}
	y.recheck(r, nil)
	y.safety(r, "safety", "pre", "unsupported", "frame")

	all := term.True
	for f := range dataFiles {
		all = term.And(all, term.Not(b.missing(f)), term.Not(b.unread(f)))
	}
	r.batch(func() {
		for i := range y.Outs {
			o := &y.Outs[i]
			vars := map[string]contract.TV{}
			res := fn.Signature.Results()
			for k, p := range con.Results {
				vars[p] = contract.TV{V: o.Res[k], Typ: res.At(k).Type()}
			}
			e := s.env(fn.Pkg.Pkg, vars)
			def := func(n string, f func(as []contract.TV) (contract.TV, error)) {
				e.Extra[n] = func(e *contract.Env, as []contract.TV) (contract.TV, error) { return f(as) }
			}
			u8 := types.Typ[types.Uint8]
			def("allread", func([]contract.TV) (contract.TV, error) { return contract.TV{V: all, Typ: tBool}, nil })
			def("assigned", func([]contract.TV) (contract.TV, error) {
				return contract.TV{V: b.assigned(2, b.entries(2)), Typ: u8}, nil
			})
			def("compacted", func(as []contract.TV) (contract.TV, error) {
				v, ok := o.Mem[b.tables].(*term.Term)
				if !ok || b.made == nil {
					v = term.Fresh("other tables", term.BV(8))
				} else {
					v = term.Ite(sameTables(as[0].V, b.made), v, term.Fresh("other tables", term.BV(8)))
				}
				return contract.TV{V: v, Typ: u8}, nil
			})
			for _, cl := range con.Clauses {
				if cl.Kind != "ensures" {
					continue
				}
				nm := fmt.Sprintf("%s (return %d)", cl.Text, i+1)
				t, err := e.Bool(cl.Expr)
				if err != nil {
					r.fail(fn.String(), "post", nm, err.Error())
					continue
				}
				r.prove(fn.String(), "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
			}
		}
	})
	r.Functions[fn.String()] = "contract"
	r.assume("os.Open, filepath.Join and fmt.Errorf as documented; the data files assign nothing to surrogates")
	r.assume("BuildRawPropertyTree: NextEntry, FirstField and AllFields by the contracts of C15, the name functions by those of C16")
	return nil
}

// sameTables is when the tables v are those that were made.
func sameTables(v, made sym.Value) *term.Term {
	x, ok1 := v.(*sym.StructV)
	y, ok2 := made.(*sym.StructV)
	if !ok1 || !ok2 || len(x.Fields) != len(y.Fields) {
		return term.False
	}
	same := term.True
	for i := range x.Fields {
		a, ok1 := x.Fields[i].(*sym.SliceV)
		b, ok2 := y.Fields[i].(*sym.SliceV)
		if !ok1 || !ok2 || a.Obj != b.Obj {
			return term.False
		}
		same = term.And(same, term.Eq(a.Nil, b.Nil), term.Eq(a.Off, b.Off), term.Eq(a.Len, b.Len))
	}
	return same
}

// candidates are the invariants of its loops.
func (b *making) candidates(y *Sys) {
	for _, l := range y.Loops {
		for _, v := range l.Vars {
			x := v.Var
			switch {
			case strings.HasPrefix(v.Name, "mem.scanner of "):
				f, _ := fileOf(&sym.PtrV{Obj: &sym.Obj{Name: strings.TrimPrefix(v.Name, "mem.")}})
				if f < 0 {
					continue
				}
				y.addCand(l, "0<="+v.Name, term.Sle(c64(0), x))
				y.addCand(l, v.Name+"<=entries", term.Sle(x, b.entries(f)))
				for _, w := range l.Vars {
					if strings.HasPrefix(w.Name, "mem.tree") {
						y.addCand(l, w.Name+" is assigned("+v.Name+")", term.Eq(w.Var, b.assigned(f, x)))
					}
				}
			case x.S == term.BV(32) || x.S == term.BV(64):
				at := x
				if x.S.W == 64 {
					at = term.Extract(x, 0, 32)
					y.addCand(l, v.Name+" is a character", term.Eq(x, term.Sext(at, 64)))
				}
				for _, r := range b.reads {
					start, end := b.span(r.file, r.n)
					was := b.assigned(r.file, r.n)
					// a position, or how far it is from the start
					for _, w := range []struct {
						n string
						t *term.Term
					}{{v.Name, at}, {"start+" + v.Name, term.Add(start, at)}} {
						p := w.t
						if x.S.W == 64 && p != at {
							y.addCand(l, fmt.Sprintf("0<=%s", v.Name), term.Sle(term.Const(32, 0), at))
						}
						y.addCand(l, fmt.Sprintf("start<=%s", w.n), term.Sle(start, p))
						y.addCand(l, fmt.Sprintf("%s<=end", w.n), term.Or(term.Eq(p, start), term.Sle(p, end)))
						y.addCand(l, fmt.Sprintf("%s<end", w.n), term.Slt(p, end))
						y.addCand(l, fmt.Sprintf("start<=%s+1", w.n), term.Or(term.Eq(term.Add(p, term.Const(32, 1)), end), term.Sle(start, term.Add(p, term.Const(32, 1)))))
						for _, w := range l.Vars {
							if !strings.HasPrefix(w.Name, "mem.tree") {
								continue
							}
							// as after the step, had the entry ended or begun there
							step := b.step(r.file, r.n, was)
							for _, m := range []map[*term.Term]*term.Term{{end: p}, {start: p}, {start: term.Add(p, term.Const(32, 1))}} {
								y.addCand(l, fmt.Sprintf("%s is assigned so far, of entry %s", w.Name, r.n), term.Eq(w.Var, term.Subst(step, m)))
							}
						}
					}
				}
			}
		}
	}
}
