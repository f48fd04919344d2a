package check

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

const ucdPkg = cpPkg + "/ucdparse"

// ucd is the state of the assumed contract of a scanner of lines.
type ucd struct {
	*texts
	scanner *sym.Obj
	buf     *sym.Obj
	n       *term.Term // lines there are
	start   *term.Term // lines read before the call
	q, j    *term.Term
	enil    *term.Term
	eof     *sym.Obj
	seqGo   *sym.Obj // the state of a consumer of fields
	fields  piece
}

const (
	lnK = iota
	lnEnded
)

const (
	sqCur = iota
	sqStopped
	sqDone
)

func (u *ucd) line(k *term.Term) piece {
	return piece{term.App("line.bytes", term.Arr(8), k), c64(0), term.App("line.len", term.BV(64), k)}
}

// parts of line k: the interval before the comment, the first semicolon.
func (u *ucd) parts(k *term.Term) (ln piece, hash, semi *term.Term) {
	ln = u.line(k)
	u.assume(term.And(term.Sle(c64(0), ln.b), term.Sle(ln.b, c64(1<<46))))
	hash = u.find("#", ln.arr, ln.a, ln.b)
	semi = u.find(";", ln.arr, ln.a, hash)
	return
}

func (u *ucd) isData(k *term.Term) *term.Term {
	_, hash, semi := u.parts(k)
	return term.Slt(semi, hash)
}

// points are the code points of a data line: whether they are well-formed, the
// first and the last.
func (u *ucd) points(k *term.Term) (ok, first, last *term.Term) {
	ln, _, semi := u.parts(k)
	l, r := u.trim(ln.arr, ln.a, semi)
	dots := u.find("..", ln.arr, l, r)
	point := func(a, b *term.Term) (*term.Term, *term.Term) {
		ok, v := u.number(16, ln.arr, a, b, 32)
		return term.And(ok, term.Ule(v, term.Const(64, 0x10ffff))), v
	}
	ok1, v1 := point(l, dots)
	ok2, v2 := point(term.Add(dots, c64(2)), r)
	one := term.Eq(dots, r)
	return term.And(ok1, term.Or(one, ok2)), v1, term.Ite(one, v1, v2)
}

func (u *ucd) hook(c *sym.Call) ([]sym.Outcome, bool) {
	x, st := c.X, c.St
	ret := func(vs ...sym.Value) ([]sym.Outcome, bool) {
		return []sym.Outcome{{G: st.G, Res: vs, Mem: st.Mem, Src: st.Src}}, true
	}
	bad := func(what string) ([]sym.Outcome, bool) {
		x.Unsupported(st, what, c.Pos)
		return nil, false
	}
	if outs, ok := u.texts.hook(c); ok {
		return outs, ok
	}
	switch c.Name {
	case "bufio.NewScanner":
		if o, ok := c.Args[0].(*sym.OpaqueV); !ok || o.Name != "r" || u.scanner != nil {
			return bad("a scanner of an unknown reader")
		}
		u.scanner = x.World.NewObj("scanner", nil, nil)
		u.buf = x.World.NewObj("scanner.buf", nil, nil)
		u.buf.Volatile = true
		u.buf.Init = &sym.RegionV{Arr: term.Fresh("scanner.buf", term.Arr(8))}
		st.Mem[u.scanner] = &sym.StructV{Fields: []sym.Value{c64(0), term.False}}
		return ret(&sym.PtrV{Obj: u.scanner, Nil: term.False})
	case "yield":
		if u.seqGo == nil {
			return bad("yield")
		}
		s := st.Mem[u.seqGo].(*sym.StructV)
		cur, stopped, done := s.Fields[sqCur].(*term.Term), s.Fields[sqStopped].(*term.Term), s.Fields[sqDone].(*term.Term)
		x.Require(st, "no field is yielded after the consumer stopped", c.Pos, term.Not(stopped))
		x.Require(st, "no field is yielded after the last one", c.Pos, term.Not(done))
		p, ok := pieceOf(x, st, c.Args[0])
		if !ok {
			return bad("a field of unknown content")
		}
		end := u.find(";", u.fields.arr, cur, u.fields.b)
		l, r := u.trim(u.fields.arr, cur, end)
		x.Require(st, "what is yielded is the next field, trimmed", c.Pos, same(p, piece{u.fields.arr, l, r}, u.j))
		more := term.Fresh("more", term.Bool)
		st.Mem[u.seqGo] = &sym.StructV{Fields: []sym.Value{term.Ite(term.Eq(end, u.fields.b), u.fields.b, term.Add(end, c64(1))), term.Not(more), term.Eq(end, u.fields.b)}}
		return ret(more)
	}
	if strings.HasPrefix(c.Name, "(*bufio.Scanner).") {
		p, ok := c.Args[0].(*sym.PtrV)
		if !ok || p.Obj == nil || p.Obj != u.scanner || len(p.Path) > 0 {
			return bad("an unknown scanner")
		}
		s := st.Mem[p.Obj].(*sym.StructV)
		k, ended := s.Fields[lnK].(*term.Term), s.Fields[lnEnded].(*term.Term)
		ln := term.Ite(term.Or(ended, term.Eq(k, c64(0))), c64(0), u.line(term.Sub(k, c64(1))).b)
		switch strings.TrimPrefix(c.Name, "(*bufio.Scanner).") {
		case "Buffer":
			return ret()
		case "Split":
			if f, ok := c.Args[1].(*sym.FuncV); !ok || f.Fn == nil || f.Fn.String() != "bufio.ScanLines" {
				return bad("another split function")
			}
			return ret()
		case "Scan":
			more := term.Slt(k, u.n)
			u.parts(k)
			st.Mem[p.Obj] = &sym.StructV{Fields: []sym.Value{term.Ite(more, term.Add(k, c64(1)), k), term.Not(more)}}
			st.Mem[u.buf] = &sym.RegionV{Arr: u.line(k).arr}
			return ret(more)
		case "Bytes":
			return ret(&sym.SliceV{Obj: u.buf, Off: c64(0), Len: ln, Cap: ln, Nil: term.And(term.Eq(ln, c64(0)), term.Fresh("token.nil", term.Bool)), Elem: tByte})
		case "Text":
			r := u.buf.Init.(*sym.RegionV)
			if m, ok := st.Mem[u.buf].(*sym.RegionV); ok {
				r = m
			}
			return ret(&sym.StringV{Arr: r.Arr, Off: c64(0), Len: ln})
		case "Err":
			return ret(&sym.IfaceV{Typ: sym.Unknown, Val: &sym.OpaqueV{Name: "scanner error"}, Nil: term.Or(term.Not(ended), u.enil)})
		}
		return bad("call of " + c.Name)
	}
	return nil, false
}

// env gives the contract language what is known of the lines.
func (u *ucd) env(e *contract.Env, o *sym.Outcome, x *sym.Exec) {
	b := func(t *term.Term) (contract.TV, error) { return contract.TV{V: t, Typ: tBool}, nil }
	i := func(t *term.Term) (contract.TV, error) { return contract.TV{V: t, Typ: tInt}, nil }
	def := func(n string, f func(as []contract.TV) (contract.TV, error)) {
		e.Extra[n] = func(e *contract.Env, as []contract.TV) (contract.TV, error) { return f(as) }
	}
	var k, ended *term.Term
	if s, ok := o.Mem[u.scanner].(*sym.StructV); ok {
		k, ended = s.Fields[lnK].(*term.Term), s.Fields[lnEnded].(*term.Term)
	}
	def("q", func(as []contract.TV) (contract.TV, error) { return i(u.q) })
	def("before", func(as []contract.TV) (contract.TV, error) { return i(u.start) })
	def("lines", func(as []contract.TV) (contract.TV, error) { return i(u.n) })
	def("scanned", func(as []contract.TV) (contract.TV, error) { return i(k) })
	def("isdata", func(as []contract.TV) (contract.TV, error) { return b(u.isData(intArg(as[0]))) })
	def("wellformed", func(as []contract.TV) (contract.TV, error) {
		ok, _, _ := u.points(intArg(as[0]))
		return b(ok)
	})
	def("first", func(as []contract.TV) (contract.TV, error) {
		_, v, _ := u.points(intArg(as[0]))
		return i(v)
	})
	def("last", func(as []contract.TV) (contract.TV, error) {
		_, _, v := u.points(intArg(as[0]))
		return i(v)
	})
	def("fieldsof", func(as []contract.TV) (contract.TV, error) {
		sl, err := sliceArg(as[0])
		if err != nil {
			return contract.TV{}, err
		}
		if sl.Obj != nil && sl.Obj.Volatile {
			return b(term.False)
		}
		p, ok := pieceOf(x, &sym.State{G: o.G, Mem: o.Mem}, sl)
		ln, hash, semi := u.parts(intArg(as[1]))
		from := term.Add(semi, c64(1))
		l, r := u.trim(ln.arr, from, hash)
		if !ok { // nil
			p = piece{ln.arr, c64(0), c64(0)}
		}
		// white space around all of them does not matter
		var or []*term.Term
		for _, a := range []*term.Term{from, l} {
			for _, b := range []*term.Term{hash, r} {
				or = append(or, same(p, piece{ln.arr, a, b}, u.j))
			}
		}
		return b(term.Or(or...))
	})
	def("endoflines", func(as []contract.TV) (contract.TV, error) {
		v, ok := as[0].V.(*sym.IfaceV)
		if !ok {
			return contract.TV{}, fmt.Errorf("not an error")
		}
		switch d := v.Val.(type) {
		case *sym.OpaqueV:
			if d.Name == "scanner error" {
				return b(term.And(ended, term.Not(v.Nil), term.Not(u.enil)))
			}
		case *sym.PtrV:
			if d.Obj != nil && d.Obj == u.eof {
				return b(term.And(ended, term.Not(v.Nil), u.enil))
			}
		}
		return b(term.False)
	})
	def("looseerror", func(as []contract.TV) (contract.TV, error) {
		v, ok := as[0].V.(*sym.IfaceV)
		if !ok {
			return contract.TV{}, fmt.Errorf("not an error")
		}
		d, ok := v.Val.(*sym.OpaqueV)
		return b(term.And(term.Not(v.Nil), term.BoolC(ok && d.Name == "new error")))
	})
	def("text", func(as []contract.TV) (contract.TV, error) {
		p, ok := pieceOf(x, &sym.State{G: o.G, Mem: o.Mem}, as[0].V)
		if !ok {
			return contract.TV{}, fmt.Errorf("unknown text")
		}
		end := u.find(";", u.fields.arr, u.fields.a, u.fields.b)
		l, r := u.trim(u.fields.arr, u.fields.a, end)
		return b(same(p, piece{u.fields.arr, l, r}, u.j))
	})
}

func (s *Subject) newUCD() (*ucd, *sym.Exec, *sym.State) {
	x := s.W.Exec()
	u := &ucd{texts: newTexts(x.Axiom), n: term.Var("lines", term.BV(64)), start: term.Var("before", term.BV(64)),
		q: term.Var("q", term.BV(64)), j: term.Var("j", term.BV(64)), enil: term.Var("scannererr.nil", term.Bool)}
	x.Hook = u.hook
	x.Few = true
	x.GhostJ = u.j
	x.Feasible = prove.Feasible
	x.Assume(term.And(term.Sle(c64(0), u.start), term.Sle(u.start, u.n), term.Sle(u.n, c64(1<<46))))
	if p := s.P.SSA.ImportedPackage("io"); p != nil {
		if g, ok := p.Members["EOF"].(*ssa.Global); ok {
			if iv, ok := x.Global(g).Init.(*sym.IfaceV); ok {
				if d, ok := iv.Val.(*sym.PtrV); ok {
					u.eof = d.Obj
				}
			}
		}
	}
	return u, x, &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
}

// flags relates the flags a loop keeps to those of the ghost state.
func (y *Sys) flags(ghost string) {
	for _, l := range y.Loops {
		for _, v := range l.Vars {
			for _, w := range l.Vars {
				if v.Var.S == term.Bool && w.Var.S == term.Bool && strings.HasPrefix(w.Name, ghost) && !strings.HasPrefix(v.Name, ghost) {
					y.addCand(l, v.Name+"=="+w.Name, term.Eq(v.Var, w.Var))
					y.addCand(l, v.Name+"!="+w.Name, term.Not(term.Eq(v.Var, w.Var)))
					y.addCand(l, w.Name+" => "+v.Name, term.Implies(w.Var, v.Var))
					y.addCand(l, w.Name+" => !"+v.Name, term.Implies(w.Var, term.Not(v.Var)))
				}
			}
		}
	}
}

// method finds a method of a type of the package, on the value or the pointer.
func (s *Subject) method(pkg, typ, name string) *ssa.Function {
	p := s.P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o, ok := p.Types.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		if types.NewMethodSet(t).Lookup(p.Types, name) != nil {
			return s.P.SSA.LookupMethod(t, p.Types, name)
		}
	}
	return nil
}

// parser decides C15.
func (s *Subject) parser(r *Report) error {
	r.assume("bufio.Scanner: the documented behaviour; it yields the lines of the reader, each valid until the next is scanned")
	r.assume("bytes and strings: Cut, Index, IndexByte, Contains and TrimSpace as documented (positions of first occurrences; trimming is idempotent)")
	r.assume("strconv.ParseUint(s, 16, n) accepts exactly the hexadecimal numbers below 2^n and gives their value")
	r.assume("fmt.Errorf and errors.New return an error that is not nil and not io.EOF")
	r.assume("white space around all fields of a line together is removed when each field is trimmed: not mechanised")
	if err := s.nextEntry(r); err != nil {
		return err
	}
	for _, d := range []struct{ typ, name string }{{"Fields", "Strings"}, {"Entry", "AllFields"}} {
		if err := s.fieldSeq(r, d.typ, d.name); err != nil {
			return err
		}
	}
	for _, d := range []struct{ typ, name string }{{"Fields", "FirstString"}, {"Entry", "FirstField"}} {
		if err := s.firstField(r, d.typ, d.name); err != nil {
			return err
		}
	}
	return nil
}

// prove the clauses of a contract at every return.
func (s *Subject) clauses(r *Report, y *Sys, x *sym.Exec, u *ucd, path, name string) error {
	con := s.Con.Lookup(path, name)
	if con == nil {
		return fmt.Errorf("no contract for %s", name)
	}
	fn := y.Fn
	if len(y.Outs) == 0 {
		r.fail(fn.String(), "cover", "some return is reachable", "none")
	}
	for _, cl := range con.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		for i, o := range y.Outs {
			vars := map[string]contract.TV{}
			if len(con.Results) != len(o.Res) {
				return fmt.Errorf("%s has another signature", name)
			}
			for k, p := range con.Results {
				vars[p] = contract.TV{V: o.Res[k], Typ: fn.Signature.Results().At(k).Type()}
			}
			e := s.env(fn.Pkg.Pkg, vars)
			u.env(e, &o, x)
			t, err := e.Bool(cl.Expr)
			if err != nil {
				r.fail(fn.String(), "post", cl.Text, err.Error())
				continue
			}
			nm := cl.Text
			if len(y.Outs) > 1 {
				nm += fmt.Sprintf(" (return %d)", i+1)
			}
			y.Facts, y.Axioms = x.Facts, x.Axioms
			r.prove(fn.String(), "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
		}
	}
	return nil
}

func (y *Sys) functions(r *Report, assumed ...string) {
	for n, k := range y.Calls {
		if n == y.Fn.String() || k == 0 {
			continue
		}
		r.Functions[n] = "inlined"
		for _, a := range assumed {
			if strings.HasPrefix(n, a) {
				r.Functions[n] = "assumed contract"
			}
		}
	}
	r.Functions[y.Fn.String()] = "contract"
}

var ucdAssumed = []string{"(*bufio.Scanner)", "bufio.NewScanner", "bytes.Cut", "bytes.Index", "bytes.Contains", "bytes.TrimSpace", "strings.Cut", "strings.Index", "strings.Contains", "strings.TrimSpace", "strconv.ParseUint", "fmt.Errorf", "errors.New", "yield"}

func (s *Subject) nextEntry(r *Report) error {
	u, x, st := s.newUCD()
	mk := s.P.Func(ucdPkg, "NewScanner")
	next := s.method(ucdPkg, "Scanner", "NextEntry")
	if mk == nil || next == nil || len(mk.Params) != 1 || len(next.Params) != 1 {
		return fmt.Errorf("no NewScanner or Scanner.NextEntry, or with another signature")
	}
	outs := x.Run(mk, []sym.Value{x.Input(st, "r", mk.Params[0].Type())}, nil, st)
	if len(outs) != 1 || u.scanner == nil {
		return fmt.Errorf("NewScanner: %d ways to return", len(outs))
	}
	r.Functions[mk.String()] = "inlined"
	st.Mem, st.G = outs[0].Mem, outs[0].G
	recv := outs[0].Res[0]
	if _, isPtr := next.Params[0].Type().Underlying().(*types.Pointer); isPtr {
		if _, already := recv.(*sym.PtrV); !already {
			o := x.World.NewObj("scanner value", nil, nil)
			st.Mem[o] = recv
			recv = &sym.PtrV{Obj: o, Nil: term.False}
		}
	}
	// any number of lines has been read, and whatever else the calls left
	for o, v := range st.Mem {
		if o == u.scanner {
			continue
		}
		st.Mem[o] = sym.MapLeaves(v, func(t *term.Term) *term.Term { return term.Fresh("left", t.S) })
	}
	ended := term.Var("ended", term.Bool)
	x.Assume(term.Implies(ended, term.Eq(u.start, u.n)))
	st.Mem[u.scanner] = &sym.StructV{Fields: []sym.Value{u.start, ended}}
	y := &Sys{S: s, Fn: next, Name: "NextEntry", Inv: map[*sym.Loop][]*Cand{}, Args: []sym.Value{recv}}
	y.More = []Cand{{Name: "lines", T: u.n}, {Name: "before", T: u.start}}
	y.Outs = x.Run(next, []sym.Value{recv}, nil, st)
	skipped := func(k *term.Term) *term.Term {
		return term.Implies(term.And(term.Sle(u.start, u.q), term.Slt(u.q, k)), term.Not(u.isData(u.q)))
	}
	u.isData(u.q)
	y.Loops, y.Facts, y.Axioms, y.Obl, y.Calls = x.Loops, x.Facts, x.Axioms, x.Obligs, x.Called
	y.functions(r, ucdAssumed...)
	y.numeric()
	y.flags("mem.scanner.")
	for _, l := range y.Loops {
		for _, v := range l.Vars {
			if v.Name == "mem.scanner.0" {
				y.addCand(l, "line q was skipped", skipped(v.Var))
				y.addCand(l, "line q was skipped or is the last", skipped(term.Sub(v.Var, c64(1))))
			}
		}
	}
	y.Facts, y.Axioms = x.Facts, x.Axioms
	if err := y.houdini(nil); err != nil {
		return err
	}
	y.prune()
	y.recheck(r, nil)
	y.safety(r, "safety", "pre", "unsupported", "frame")
	y.reachable(r)
	y.terminates(r)
	var err error
	r.batch(func() { err = s.clauses(r, y, x, u, "textseg/internal/charprops/ucdparse", "Scanner.NextEntry") })
	return err
}

// fieldsInput is an arbitrary value of the type that holds fields.
func (s *Subject) fieldsInput(x *sym.Exec, st *sym.State, u *ucd, fn *ssa.Function) (sym.Value, *sym.SliceV, error) {
	t := fn.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var sl *sym.SliceV
	var v sym.Value
	switch d := t.Underlying().(type) {
	case *types.Slice:
		sl, _ = x.Input(st, "fields", t).(*sym.SliceV)
		v = sl
	case *types.Struct:
		sv := &sym.StructV{}
		for i := 0; i < d.NumFields(); i++ {
			f := d.Field(i)
			fv := x.Input(st, map[bool]string{true: "fields", false: f.Name()}[f.Name() == "Fields"], f.Type())
			if f.Name() == "Fields" {
				sl, _ = fv.(*sym.SliceV)
			}
			sv.Fields = append(sv.Fields, fv)
		}
		v = sv
	}
	if sl == nil {
		return nil, nil, fmt.Errorf("%s: the fields are not kept as bytes", fn)
	}
	u.fields = piece{sl.Obj.Init.(*sym.RegionV).Arr, sl.Off, term.Add(sl.Off, sl.Len)}
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		o := x.World.NewObj("receiver", nil, nil)
		st.Mem[o] = v
		v = &sym.PtrV{Obj: o, Nil: term.False}
	}
	return v, sl, nil
}

func (s *Subject) firstField(r *Report, typ, name string) error {
	fn := s.method(ucdPkg, typ, name)
	if fn == nil || len(fn.Params) != 1 {
		return fmt.Errorf("no %s.%s", typ, name)
	}
	u, x, st := s.newUCD()
	v, _, err := s.fieldsInput(x, st, u, fn)
	if err != nil {
		return err
	}
	y := &Sys{S: s, Fn: fn, Name: name, Inv: map[*sym.Loop][]*Cand{}, Args: []sym.Value{v}}
	y.Outs = x.Run(fn, y.Args, nil, st)
	y.Loops, y.Facts, y.Axioms, y.Obl, y.Calls = x.Loops, x.Facts, x.Axioms, x.Obligs, x.Called
	y.functions(r, ucdAssumed...)
	if len(y.Loops) > 0 {
		y.numeric()
		if err := y.houdini(nil); err != nil {
			return err
		}
		y.recheck(r, nil)
	}
	y.safety(r, "safety", "pre", "unsupported", "frame")
	r.batch(func() { err = s.clauses(r, y, x, u, "textseg/internal/charprops/ucdparse", typ+"."+name) })
	return err
}

// fieldSeq: the sequence yields the fields in order, up to where its consumer
// stops, and can be gone through again.
func (s *Subject) fieldSeq(r *Report, typ, name string) error {
	fn := s.method(ucdPkg, typ, name)
	if fn == nil || len(fn.Params) != 1 {
		return fmt.Errorf("no %s.%s", typ, name)
	}
	u, x, st := s.newUCD()
	v, sl, err := s.fieldsInput(x, st, u, fn)
	if err != nil {
		return err
	}
	outs := x.Run(fn, []sym.Value{v}, nil, st)
	if len(outs) != 1 {
		r.fail(fn.String(), "tool", "it returns one sequence", fmt.Sprintf("%d ways to return", len(outs)))
		return nil
	}
	f, ok := outs[0].Res[0].(*sym.FuncV)
	if !ok || f.Fn == nil || len(f.Fn.Params) != 1 {
		r.fail(fn.String(), "tool", "it returns a sequence", "of an unknown kind")
		return nil
	}
	u.seqGo = x.World.NewObj("consumer", nil, nil)
	st = &sym.State{G: outs[0].G, Mem: outs[0].Mem, Src: outs[0].Src}
	kept := map[*sym.Obj]sym.Value{}
	for o, v := range st.Mem {
		kept[o] = v
	}
	st.Mem[u.seqGo] = &sym.StructV{Fields: []sym.Value{sl.Off, term.False, term.False}}
	y := &Sys{S: s, Fn: f.Fn, Name: name, Inv: map[*sym.Loop][]*Cand{}, Args: []sym.Value{&sym.FuncV{Name: "yield"}}}
	y.More = []Cand{{Name: "len(fields)", T: sl.Len}}
	y.Outs = x.Run(f.Fn, y.Args, f.Bindings, st)
	y.Loops, y.Facts, y.Axioms, y.Obl, y.Calls = x.Loops, x.Facts, x.Axioms, x.Obligs, x.Called
	y.functions(r, ucdAssumed...)
	r.Functions[fn.String()] = "contract"
	y.numeric()
	y.flags("mem.consumer.")
	if err := y.houdini(nil); err != nil {
		return err
	}
	y.prune()
	y.recheck(r, nil)
	y.safety(r, "safety", "pre", "unsupported", "frame")
	y.terminates(r)
	if len(y.Outs) == 0 {
		r.fail(f.Fn.String(), "cover", "it can end", "no way to return")
	}
	r.batch(func() {
		for i, o := range y.Outs {
			g := o.Mem[u.seqGo].(*sym.StructV)
			r.prove(f.Fn.String(), "post", fmt.Sprintf("all fields were yielded unless the consumer stopped (return %d)", i+1), "", prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: term.Or(g.Fields[sqStopped].(*term.Term), g.Fields[sqDone].(*term.Term))}, prove.Default)
			for m, v := range kept {
				if eq, ok := sym.ValEq(v, o.Mem[m]); !ok || !eq.IsTrue() {
					if !sym.SameValue(v, o.Mem[m]) {
						r.fail(f.Fn.String(), "frame", "going through the sequence changes nothing it starts from", "writes "+m.String())
					}
				}
			}
		}
	})
	return nil
}

func init() {
	Checks["C15"] = func(s *Subject, r *Report) error { return s.parser(r) }
}
