package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/term"
)

// val evaluates an operand.
func (f *frame) val(st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return f.x.constant(c)
	case *ssa.Function:
		return &FuncV{Fn: c}
	case *ssa.Builtin:
		return &FuncV{Builtin: c, Name: c.Name()}
	case *ssa.Global:
		return &PtrV{Obj: f.x.Global(c), Nil: term.False}
	}
	if r, ok := st.Regs[v]; ok {
		return r
	}
	return &OpaqueV{Name: "undefined " + v.Name()}
}

func (x *Exec) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		z, err := Zero(t)
		if err != nil {
			return &OpaqueV{Name: "zero " + t.String()}
		}
		return z
	}
	if s, ok := SortOf(t); ok {
		if s.IsBool() {
			return term.BoolC(constant.BoolVal(c.Value))
		}
		i, _ := constInt(c.Value)
		return term.Const(s.W, uint64(i))
	}
	if isString(t) {
		s := constant.StringVal(c.Value)
		return &StringV{Const: &s}
	}
	return &OpaqueV{Name: "const " + c.String()}
}

func (f *frame) block(b *ssa.BasicBlock, st *State) []*edgeState {
	s := st.fork()
	return f.from(b, 0, s)
}

func slotOf(from, to *ssa.BasicBlock, succ int) int {
	// which of to's predecessors is this edge
	n := 0
	for i, s := range from.Succs {
		if s == to {
			if i == succ {
				break
			}
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

func (f *frame) from(b *ssa.BasicBlock, i int, st *State) []*edgeState {
	x := f.x
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.lib != nil && (x.steps > x.lib.steps || x.steps%64 == 0 && time.Now().After(x.lib.until)) {
			panic(x.lib)
		}
		if x.steps > x.budget {
			x.Unsupported(st, "execution is too long", b.Instrs[i].Pos())
			return nil
		}
		ins := b.Instrs[i]
		switch in := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c, ok := f.val(st, in.Cond).(*term.Term)
			if !ok {
				x.Unsupported(st, "branch on an unknown condition", in.Pos())
				c = term.Fresh("cond", term.Bool)
			}
			if g := st.G; !c.IsConst() {
				// decided by the path already?
				if term.And(g, c).IsFalse() {
					c = term.False
				} else if term.And(g, term.Not(c)).IsFalse() {
					c = term.True
				}
			}
			if !c.IsConst() {
				if f.open == nil {
					f.open = map[*ssa.BasicBlock]bool{}
				}
				f.open[b] = true
			}
			var r []*edgeState
			if !c.IsFalse() {
				s := st
				if !c.IsTrue() {
					s = st.fork()
					s.G = term.And(st.G, c)
				}
				r = append(r, &edgeState{from: b, to: b.Succs[0], slot: slotOf(b, b.Succs[0], 0), st: s})
			}
			if !c.IsTrue() {
				s := st
				if !c.IsFalse() {
					s = st.fork()
					s.G = term.And(st.G, term.Not(c))
				}
				r = append(r, &edgeState{from: b, to: b.Succs[1], slot: slotOf(b, b.Succs[1], 1), st: s})
			}
			return r
		case *ssa.Jump:
			return []*edgeState{{from: b, to: b.Succs[0], slot: slotOf(b, b.Succs[0], 0), st: st}}
		case *ssa.Return:
			o := &Outcome{G: st.G, Mem: st.Mem, Src: st.Src}
			for _, r := range in.Results {
				o.Res = append(o.Res, f.val(st, r))
			}
			f.rets = append(f.rets, o)
			return nil
		case *ssa.Panic:
			x.oblig(st, "safety", "panic", in.Pos(), term.False)
			return nil
		case *ssa.Call:
			outs, done := f.call(st, in.Common(), in.Pos(), in)
			if !done {
				return nil
			}
			if len(outs) == 0 {
				return nil
			}
			var r []*edgeState
			for k, o := range outs {
				s := st
				if k < len(outs)-1 {
					s = st.fork()
				}
				s.G, s.Src = o.G, o.Src
				s.Mem = o.Mem
				if len(o.Res) == 1 {
					s.Regs[in] = o.Res[0]
				} else {
					s.Regs[in] = &TupleV{o.Res}
				}
				if len(outs) > 1 {
					// copy memory so that the branches do not share
					s = s.fork()
					r = append(r, f.from(b, i+1, s)...)
					continue
				}
			}
			if len(outs) > 1 {
				return r
			}
			// single outcome: own the memory
			m := make(map[*Obj]Value, len(st.Mem))
			for k, v := range st.Mem {
				m[k] = v
			}
			st.Mem = m
		case *ssa.Store:
			p, ok := f.val(st, in.Addr).(*PtrV)
			if !ok {
				x.Unsupported(st, "store through an unknown pointer", in.Pos())
				continue
			}
			x.store(st, p, f.val(st, in.Val), in.Pos())
		case *ssa.RunDefers:
			f.runDefers(st, in)
		case *ssa.Defer:
			if f.c.inner[b] != f.c.root {
				x.Unsupported(st, "defer in a loop", in.Pos())
				continue
			}
			f.deferCall(st, in)
		case *ssa.Go:
			x.Unsupported(st, "go statement", in.Pos())
		case *ssa.Send:
			x.Unsupported(st, "channel send", in.Pos())
		case *ssa.MapUpdate:
			f.mapUpdate(st, in)
		case ssa.Value:
			st.Regs[in] = f.instr(st, in)
		default:
			x.Unsupported(st, fmt.Sprintf("%T", ins), ins.Pos())
		}
	}
	return nil
}

// deferred is a deferred call: whether it was deferred, and the values it needs
// of those known where it was.
type deferred struct {
	at       *ssa.Defer
	set      *Obj
	needs    []ssa.Value
	operands *Obj
}

func (f *frame) deferCall(st *State, in *ssa.Defer) {
	var d *deferred
	for _, e := range f.defs {
		if e.at == in {
			d = e
		}
	}
	if d == nil {
		d = &deferred{at: in, set: f.x.World.NewObj("deferred", nil, nil), operands: f.x.World.NewObj("deferred.operands", nil, nil)}
		d.set.Init = term.False
		for _, v := range append([]ssa.Value{in.Call.Value}, in.Call.Args...) {
			switch v.(type) {
			case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			default:
				d.needs = append(d.needs, v)
			}
		}
		f.defs = append(f.defs, d)
	}
	t := &TupleV{}
	for _, v := range d.needs {
		t.Elems = append(t.Elems, f.val(st, v))
	}
	st.Mem[d.set], st.Mem[d.operands] = term.True, t
}

func (f *frame) runDefers(st *State, in *ssa.RunDefers) {
	x := f.x
	for k := len(f.defs) - 1; k >= 0; k-- {
		d := f.defs[k]
		set, ok := st.Mem[d.set].(*term.Term)
		if !ok || set.IsFalse() {
			continue
		}
		ops := st.Mem[d.operands].(*TupleV)
		delete(st.Mem, d.set)
		delete(st.Mem, d.operands)
		s := &State{G: term.And(st.G, set), Src: st.Src, Regs: map[ssa.Value]Value{}, Mem: map[*Obj]Value{}}
		for o, v := range st.Mem {
			s.Mem[o] = v
		}
		for v, y := range st.Regs {
			s.Regs[v] = y
		}
		for i, v := range d.needs {
			s.Regs[v] = ops.Elems[i]
		}
		outs, done := f.call(s, d.at.Common(), d.at.Pos(), nil)
		if !done || len(outs) != 1 || outs[0].Src != st.Src && !set.IsTrue() {
			x.Unsupported(st, "deferred call", in.Pos())
			return
		}
		if set.IsTrue() {
			st.G, st.Mem, st.Src = outs[0].G, outs[0].Mem, outs[0].Src
			continue
		}
		m, ok := mergeMem(set, outs[0].Mem, st.Mem)
		if !ok {
			x.Unsupported(st, "deferred call", in.Pos())
			return
		}
		st.G, st.Mem = term.Or(outs[0].G, term.And(st.G, term.Not(set))), m
	}
}

func (f *frame) unknown(st *State, what string, v ssa.Value) Value {
	f.x.Unsupported(st, what, v.Pos())
	return f.x.havocVal("unknown", v.Type())
}

// toInt64 widens an integer value to a 64-bit index.
func toInt64(t *term.Term, typ types.Type) *term.Term {
	w, signed, _ := bits(typ)
	if w == 64 || t.S.W == 64 {
		return t
	}
	if signed {
		return term.Sext(t, 64)
	}
	return term.Zext(t, 64)
}

func (f *frame) instr(st *State, v ssa.Value) Value {
	x := f.x
	switch in := v.(type) {
	case *ssa.BinOp:
		return f.binop(st, in)
	case *ssa.UnOp:
		a := f.val(st, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := a.(*PtrV)
			if !ok {
				return f.unknown(st, "load through an unknown pointer", v)
			}
			return x.load(st, p, in.Type(), in.Pos())
		case token.NOT:
			if t, ok := a.(*term.Term); ok {
				return term.Not(t)
			}
		case token.SUB:
			if t, ok := a.(*term.Term); ok {
				return term.Neg(t)
			}
		case token.XOR:
			if t, ok := a.(*term.Term); ok {
				return term.Bin(term.OpBXor, t, term.Const(t.S.W, ^uint64(0)))
			}
		}
		return f.unknown(st, "operator "+in.Op.String(), v)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		z, err := Zero(t)
		if err != nil {
			z = &OpaqueV{Name: "zero " + t.String()}
		}
		n := in.Comment
		if n == "" {
			n = "new"
		}
		o := x.World.NewObj(n, t, nil)
		st.Mem[o] = z
		return &PtrV{Obj: o, Nil: term.False}
	case *ssa.FieldAddr:
		p, ok := f.val(st, in.X).(*PtrV)
		if !ok {
			return f.unknown(st, "field of an unknown pointer", v)
		}
		x.oblig(st, "safety", "nil pointer dereference", in.Pos(), term.Not(p.Nil))
		return &PtrV{Obj: p.Obj, Nil: term.False, Path: extend(p.Path, PathElem{Field: in.Field})}
	case *ssa.Field:
		s, ok := f.val(st, in.X).(*StructV)
		if !ok {
			return f.unknown(st, "field of an unknown struct", v)
		}
		return s.Fields[in.Field]
	case *ssa.IndexAddr:
		i, ok := f.val(st, in.Index).(*term.Term)
		if !ok {
			return f.unknown(st, "unknown index", v)
		}
		i = toInt64(i, in.Index.Type())
		switch a := f.val(st, in.X).(type) {
		case *SliceV:
			x.oblig(st, "safety", "index out of range", in.Pos(), term.And(term.Sle(i64(0), i), term.Slt(i, a.Len)))
			if a.Obj == nil {
				return &PtrV{Nil: term.False, Obj: nil}
			}
			return &PtrV{Obj: a.Obj, Nil: term.False, Path: extend(a.Path, PathElem{Idx: term.Add(a.Off, i)})}
		case *PtrV:
			at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				break
			}
			x.oblig(st, "safety", "nil pointer dereference", in.Pos(), term.Not(a.Nil))
			x.oblig(st, "safety", "index out of range", in.Pos(), term.And(term.Sle(i64(0), i), term.Slt(i, i64(int(at.Len())))))
			return &PtrV{Obj: a.Obj, Nil: term.False, Path: extend(a.Path, PathElem{Idx: i})}
		}
		return f.unknown(st, "index of an unknown value", v)
	case *ssa.Index:
		i, ok := f.val(st, in.Index).(*term.Term)
		if !ok {
			return f.unknown(st, "unknown index", v)
		}
		i = toInt64(i, in.Index.Type())
		switch a := f.val(st, in.X).(type) {
		case *ArrayV:
			x.oblig(st, "safety", "index out of range", in.Pos(), term.And(term.Sle(i64(0), i), term.Slt(i, i64(len(a.Elems)))))
			if r, ok := x.get(a, []PathElem{{Idx: i}}); ok {
				return r
			}
		case *StringV:
			return f.strIndex(st, a, i, in.Pos())
		}
		return f.unknown(st, "index of an unknown value", v)
	case *ssa.Lookup:
		switch a := f.val(st, in.X).(type) {
		case *StringV:
			i, ok := f.val(st, in.Index).(*term.Term)
			if ok {
				return f.strIndex(st, a, toInt64(i, in.Index.Type()), in.Pos())
			}
		case *MapRef:
			if r, ok := f.mapLookup(st, a, in); ok {
				return r
			}
		}
		return f.unknown(st, "map lookup", v)
	case *ssa.Slice:
		return f.slice(st, in)
	case *ssa.Extract:
		if t, ok := f.val(st, in.Tuple).(*TupleV); ok {
			return t.Elems[in.Index]
		}
		return f.unknown(st, "tuple", v)
	case *ssa.ChangeType:
		return f.val(st, in.X)
	case *ssa.Convert:
		return f.convert(st, in)
	case *ssa.MakeInterface:
		return &IfaceV{Nil: term.False, Typ: in.X.Type(), Val: f.val(st, in.X)}
	case *ssa.ChangeInterface:
		return f.val(st, in.X)
	case *ssa.TypeAssert:
		return f.typeAssert(st, in)
	case *ssa.MakeClosure:
		r := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			r.Bindings = append(r.Bindings, f.val(st, b))
		}
		return r
	case *ssa.MakeSlice:
		n, ok1 := f.val(st, in.Len).(*term.Term)
		c, ok2 := f.val(st, in.Cap).(*term.Term)
		if !ok1 || !ok2 {
			return f.unknown(st, "make of unknown size", v)
		}
		n, c = toInt64(n, in.Len.Type()), toInt64(c, in.Cap.Type())
		elem := in.Type().Underlying().(*types.Slice).Elem()
		if isSeq(in.Type()) {
			x.oblig(st, "safety", "make: size out of range", in.Pos(), term.And(term.Sle(i64(0), n), term.Sle(n, c), term.Sle(c, i64(1<<46))))
			s := zeroSeq(term.False, x.nextVer(st))
			s.Len = n
			return s
		}
		x.oblig(st, "safety", "make: size out of range", in.Pos(), term.And(term.Sle(i64(0), n), term.Sle(n, c), term.Sle(c, i64(1<<46))))
		var init Value
		if c.IsConst() && c.Val <= 1<<20 {
			z, err := Zero(types.NewArray(elem, int64(c.Val)))
			if err != nil {
				return f.unknown(st, "make", v)
			}
			init = z
		} else if s, ok := SortOf(elem); ok {
			init = &RegionV{term.Same(term.Const(s.W, 0))}
		} else {
			return f.unknown(st, "make of unknown size", v)
		}
		o := x.World.NewObj("make", nil, nil)
		st.Mem[o] = init
		return &SliceV{Obj: o, Off: i64(0), Len: n, Cap: c, Nil: term.False, Elem: elem}
	case *ssa.MakeMap:
		o := x.World.NewObj("map", in.Type(), nil)
		st.Mem[o] = &MapV{Nil: term.False}
		return &MapRef{Obj: o}
	case *ssa.SliceToArrayPointer:
		return f.unknown(st, "slice to array conversion", v)
	}
	return f.unknown(st, fmt.Sprintf("%T", v), v)
}

func extend(p []PathElem, e PathElem) []PathElem {
	return append(append(make([]PathElem, 0, len(p)+1), p...), e)
}

func strLen(s *StringV) *term.Term {
	if s.Const != nil {
		return i64(len(*s.Const))
	}
	return s.Len
}

// strByte is byte i of s, for 0 <= i < len.
func strByte(s *StringV, i *term.Term) (*term.Term, bool) {
	if s.Const != nil {
		if i.IsConst() && i.Val < uint64(len(*s.Const)) {
			return term.Const(8, uint64((*s.Const)[i.Val])), true
		}
		if len(*s.Const) == 0 || len(*s.Const) > 512 {
			return nil, false
		}
		r := term.Const(8, uint64((*s.Const)[0]))
		for k := 1; k < len(*s.Const); k++ {
			r = term.Ite(term.Eq(i, i64(k)), term.Const(8, uint64((*s.Const)[k])), r)
		}
		return r, true
	}
	return term.Select(s.Arr, term.Add(s.Off, i)), true
}

func (f *frame) strIndex(st *State, a *StringV, i *term.Term, pos token.Pos) Value {
	f.x.oblig(st, "safety", "index out of range", pos, term.And(term.Sle(i64(0), i), term.Slt(i, strLen(a))))
	if r, ok := strByte(a, i); ok {
		return r
	}
	return term.Fresh("strbyte", term.BV(8))
}

// StrEq compares strings when one of them is constant, or both are the same.
func StrEq(a, b *StringV) (*term.Term, bool) {
	if a.Const != nil && b.Const != nil {
		return term.BoolC(*a.Const == *b.Const), true
	}
	if a.Const == nil && b.Const != nil {
		a, b = b, a
	}
	if a.Const == nil {
		if a.Arr == b.Arr && a.Off == b.Off {
			return term.Eq(a.Len, b.Len), true
		}
		return nil, false
	}
	cs := []*term.Term{term.Eq(b.Len, i64(len(*a.Const)))}
	if len(*a.Const) > 128 {
		return nil, false
	}
	for i := 0; i < len(*a.Const); i++ {
		t, ok := strByte(b, i64(i))
		if !ok {
			return nil, false
		}
		cs = append(cs, term.Eq(t, term.Const(8, uint64((*a.Const)[i]))))
	}
	return term.And(cs...), true
}

// ValEq is Go's == on two values.
func ValEq(a, b Value) (*term.Term, bool) {
	switch x := a.(type) {
	case *term.Term:
		y, ok := b.(*term.Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		return term.Eq(x, y), true
	case *StringV:
		if y, ok := b.(*StringV); ok {
			return StrEq(x, y)
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.Fields) != len(y.Fields) {
			return nil, false
		}
		return eqList(x.Fields, y.Fields)
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.Elems) != len(y.Elems) {
			return nil, false
		}
		return eqList(x.Elems, y.Elems)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		if y.Nil.IsTrue() {
			return x.Nil, true
		}
		if x.Nil.IsTrue() {
			return y.Nil, true
		}
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok {
			return nil, false
		}
		if y.Nil.IsTrue() {
			return x.Nil, true
		}
		if x.Nil.IsTrue() {
			return y.Nil, true
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if y.Nil.IsTrue() {
			return x.Nil, true
		}
		if x.Nil.IsTrue() {
			return y.Nil, true
		}
		if x.Obj != y.Obj && x.Obj != nil && y.Obj != nil {
			return term.And(x.Nil, y.Nil), true
		}
		if x.Obj == y.Obj && samePath(x.Path, y.Path) {
			return term.Or(term.And(x.Nil, y.Nil), term.And(term.Not(x.Nil), term.Not(y.Nil))), true
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		if y.Nil.IsTrue() {
			return x.Nil, true
		}
		if x.Nil.IsTrue() {
			return y.Nil, true
		}
		if _, ok := x.Val.(*OpaqueV); ok {
			return nil, false
		}
		if _, ok := y.Val.(*OpaqueV); ok {
			return nil, false
		}
		if x.Typ != nil && y.Typ != nil {
			if !types.Identical(x.Typ, y.Typ) {
				return term.And(x.Nil, y.Nil), true
			}
			e, ok := ValEq(x.Val, y.Val)
			if !ok {
				return nil, false
			}
			return term.Or(term.And(x.Nil, y.Nil), term.And(term.Not(x.Nil), term.Not(y.Nil), e)), true
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			xn := x.Fn == nil && x.Builtin == nil && x.Name == ""
			yn := y.Fn == nil && y.Builtin == nil && y.Name == ""
			if xn || yn {
				return term.BoolC(xn && yn), true
			}
		}
	case *MapRef:
		if y, ok := b.(*MapRef); ok && (x.Obj == nil || y.Obj == nil) {
			return term.BoolC(x.Obj == y.Obj), true
		}
	}
	return nil, false
}

func eqList(a, b []Value) (*term.Term, bool) {
	var r []*term.Term
	for i := range a {
		e, ok := ValEq(a[i], b[i])
		if !ok {
			return nil, false
		}
		r = append(r, e)
	}
	return term.And(r...), true
}

func (f *frame) binop(st *State, in *ssa.BinOp) Value {
	x := f.x
	a, b := f.val(st, in.X), f.val(st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		r, ok := ValEq(a, b)
		if !ok {
			return f.unknown(st, fmt.Sprintf("comparison of %s", in.X.Type()), in)
		}
		if in.Op == token.NEQ {
			r = term.Not(r)
		}
		return r
	}
	if sa, ok := a.(*StringV); ok {
		sb, ok2 := b.(*StringV)
		if ok2 && sa.Const != nil && sb.Const != nil {
			switch in.Op {
			case token.ADD:
				s := *sa.Const + *sb.Const
				return &StringV{Const: &s}
			case token.LSS:
				return term.BoolC(*sa.Const < *sb.Const)
			case token.GTR:
				return term.BoolC(*sa.Const > *sb.Const)
			case token.LEQ:
				return term.BoolC(*sa.Const <= *sb.Const)
			case token.GEQ:
				return term.BoolC(*sa.Const >= *sb.Const)
			}
		}
		return f.unknown(st, "string operator "+in.Op.String(), in)
	}
	ta, ok1 := a.(*term.Term)
	tb, ok2 := b.(*term.Term)
	if !ok1 || !ok2 {
		return f.unknown(st, "operator "+in.Op.String(), in)
	}
	w, signed, _ := bits(in.X.Type())
	switch in.Op {
	case token.ADD:
		return term.Add(ta, tb)
	case token.SUB:
		return term.Sub(ta, tb)
	case token.MUL:
		return term.Mul(ta, tb)
	case token.QUO, token.REM:
		x.oblig(st, "safety", "division by zero", in.Pos(), term.Not(term.Eq(tb, term.Const(w, 0))))
		op := map[bool]term.Op{true: term.OpSdiv, false: term.OpUdiv}[signed]
		if in.Op == token.REM {
			op = map[bool]term.Op{true: term.OpSrem, false: term.OpUrem}[signed]
		}
		return term.Bin(op, ta, tb)
	case token.AND:
		if w == 0 {
			return term.And(ta, tb)
		}
		return term.Bin(term.OpBAnd, ta, tb)
	case token.OR:
		if w == 0 {
			return term.Or(ta, tb)
		}
		return term.Bin(term.OpBOr, ta, tb)
	case token.XOR:
		return term.Bin(term.OpBXor, ta, tb)
	case token.AND_NOT:
		return term.Bin(term.OpBAnd, ta, term.Bin(term.OpBXor, tb, term.Const(w, ^uint64(0))))
	case token.SHL, token.SHR:
		wy, sy, _ := bits(in.Y.Type())
		if sy {
			x.oblig(st, "safety", "negative shift amount", in.Pos(), term.Sle(term.Const(wy, 0), tb))
		}
		// shift amount brought to the width of the operand, saturating
		var amt *term.Term
		big := term.False
		if wy > w {
			big = term.Not(term.Ult(tb, term.Const(wy, uint64(w))))
			amt = term.Extract(tb, 0, w)
		} else {
			amt = term.Zext(tb, w)
		}
		var r, over *term.Term
		switch {
		case in.Op == token.SHL:
			r, over = term.Bin(term.OpShl, ta, amt), term.Const(w, 0)
		case signed:
			r = term.Bin(term.OpAshr, ta, amt)
			over = term.Bin(term.OpAshr, ta, term.Const(w, uint64(w-1)))
		default:
			r, over = term.Bin(term.OpLshr, ta, amt), term.Const(w, 0)
		}
		return term.Ite(big, over, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		l, r := ta, tb
		if in.Op == token.GTR || in.Op == token.GEQ {
			l, r = r, l
		}
		strict := in.Op == token.LSS || in.Op == token.GTR
		switch {
		case signed && strict:
			return term.Slt(l, r)
		case signed:
			return term.Sle(l, r)
		case strict:
			return term.Ult(l, r)
		default:
			return term.Ule(l, r)
		}
	}
	return f.unknown(st, "operator "+in.Op.String(), in)
}

func (f *frame) convert(st *State, in *ssa.Convert) Value {
	a := f.val(st, in.X)
	if t, ok := a.(*term.Term); ok {
		ws, signed, ok1 := bits(in.X.Type())
		wd, _, ok2 := bits(in.Type())
		if ok1 && ok2 && ws > 0 && wd > 0 {
			switch {
			case wd == ws:
				return t
			case wd < ws:
				return term.Extract(t, 0, wd)
			case signed:
				return term.Sext(t, wd)
			default:
				return term.Zext(t, wd)
			}
		}
	}
	if s, ok := a.(*StringV); ok {
		if isString(in.Type()) {
			return s
		}
		if sl, ok := in.Type().Underlying().(*types.Slice); ok {
			if w, _, ok := bits(sl.Elem()); ok && w == 8 {
				o := f.x.World.NewObj("bytes", nil, nil)
				n := strLen(s)
				if s.Const != nil {
					z, err := Zero(types.NewArray(sl.Elem(), int64(len(*s.Const))))
					if err == nil {
						arr := z.(*ArrayV)
						for i := range arr.Elems {
							arr.Elems[i] = term.Const(8, uint64((*s.Const)[i]))
						}
						st.Mem[o] = arr
						return &SliceV{Obj: o, Off: i64(0), Len: n, Cap: n, Nil: term.False, Elem: sl.Elem()}
					}
				}
				st.Mem[o] = &RegionV{s.Arr}
				return &SliceV{Obj: o, Off: s.Off, Len: n, Cap: n, Nil: term.False, Elem: sl.Elem()}
			}
		}
	}
	if s, ok := a.(*SliceV); ok && isString(in.Type()) {
		if s.Obj == nil {
			e := ""
			return &StringV{Const: &e}
		}
		if r, ok := f.x.regionOf(st, s); ok {
			return &StringV{Arr: r, Off: s.Off, Len: s.Len}
		}
	}
	return f.unknown(st, fmt.Sprintf("conversion from %s to %s", in.X.Type(), in.Type()), in)
}

// regionOf is the scalar array a slice lies in.
func (x *Exec) RegionOf(st *State, s *SliceV) (*term.Term, bool) { return x.regionOf(st, s) }

func (x *Exec) regionOf(st *State, s *SliceV) (*term.Term, bool) {
	if s.Obj == nil {
		return nil, false
	}
	v, ok := x.get(readMem(st, s.Obj), s.Path)
	if !ok {
		return nil, false
	}
	switch a := v.(type) {
	case *RegionV:
		return a.Arr, true
	case *ArrayV:
		if len(a.Elems) == 0 || len(a.Elems) > 256 {
			return nil, false
		}
		var so term.Sort
		for _, e := range a.Elems {
			t, ok := e.(*term.Term)
			if !ok {
				return nil, false
			}
			so = t.S
		}
		same := len(a.Elems) > 0
		for _, e := range a.Elems {
			same = same && e == a.Elems[0]
		}
		if t, ok := a.Elems[0].(*term.Term); same && ok && t.IsConst() {
			return term.Same(t), true
		}
		r := term.Fresh("arr", term.Sort{W: so.W, Arr: true})
		for i, e := range a.Elems {
			r = term.Store(r, i64(i), e.(*term.Term))
		}
		return r, true
	}
	return nil, false
}

func (f *frame) slice(st *State, in *ssa.Slice) Value {
	x := f.x
	get := func(v ssa.Value, def *term.Term) *term.Term {
		if v == nil {
			return def
		}
		t, ok := f.val(st, v).(*term.Term)
		if !ok {
			x.Unsupported(st, "unknown slice bound", in.Pos())
			return def
		}
		return toInt64(t, v.Type())
	}
	z := i64(0)
	switch a := f.val(st, in.X).(type) {
	case *SliceV:
		lo, hi, mx := get(in.Low, z), get(in.High, a.Len), get(in.Max, a.Cap)
		x.oblig(st, "safety", "slice bounds out of range", in.Pos(), term.And(term.Sle(z, lo), term.Sle(lo, hi), term.Sle(hi, mx), term.Sle(mx, a.Cap)))
		return &SliceV{Obj: a.Obj, Path: a.Path, Elem: a.Elem, Nil: a.Nil, Off: term.Add(a.Off, lo), Len: term.Sub(hi, lo), Cap: term.Sub(mx, lo)}
	case *PtrV:
		at, ok := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		n := i64(int(at.Len()))
		lo, hi, mx := get(in.Low, z), get(in.High, n), get(in.Max, n)
		x.oblig(st, "safety", "nil pointer dereference", in.Pos(), term.Not(a.Nil))
		x.oblig(st, "safety", "slice bounds out of range", in.Pos(), term.And(term.Sle(z, lo), term.Sle(lo, hi), term.Sle(hi, mx), term.Sle(mx, n)))
		return &SliceV{Obj: a.Obj, Path: a.Path, Elem: at.Elem(), Nil: term.False, Off: lo, Len: term.Sub(hi, lo), Cap: term.Sub(mx, lo)}
	case *StringV:
		n := strLen(a)
		lo, hi := get(in.Low, z), get(in.High, n)
		x.oblig(st, "safety", "slice bounds out of range", in.Pos(), term.And(term.Sle(z, lo), term.Sle(lo, hi), term.Sle(hi, n)))
		if a.Const != nil {
			if lo.IsConst() && hi.IsConst() && lo.Val <= hi.Val && hi.Val <= uint64(len(*a.Const)) {
				s := (*a.Const)[lo.Val:hi.Val]
				return &StringV{Const: &s}
			}
			break
		}
		return &StringV{Arr: a.Arr, Off: term.Add(a.Off, lo), Len: term.Sub(hi, lo)}
	}
	return f.unknown(st, "slice of an unknown value", in)
}

// nextVer numbers a sequence that has an array of its own.
func (x *Exec) nextVer(st *State) *term.Term {
	o := x.SeqObj()
	v := term.Add(readMem(st, o).(*term.Term), i64(1))
	st.Mem[o] = v
	return v
}

// appendSeq appends byte slices to a sequence.
func (x *Exec) appendSeq(st *State, d *SeqV, src Value, pos token.Pos) Value {
	fail := func(why string) Value {
		x.Unsupported(st, "append: "+why, pos)
		return d
	}
	s, ok := src.(*SliceV)
	if !ok || !s.Len.IsConst() || s.Len.Val > 64 || x.GhostQ == nil || s.Obj == nil && s.Len.Val > 0 {
		return fail("of unknown slices")
	}
	o := x.SeqObj()
	if s.Len.Val == 0 {
		return d
	}
	cur := readMem(st, o).(*term.Term)
	x.oblig(st, "unsupported", "append to a sequence that shares its array with another", pos, term.Or(d.Nil, term.Eq(d.Ver, cur)))
	r := *d
	r.Nil = term.False
	r.Ver = x.nextVer(st)
	for i := 0; i < int(s.Len.Val); i++ {
		v, ok := x.get(readMem(st, s.Obj), extend(s.Path, PathElem{Idx: term.Add(s.Off, i64(i))}))
		if !ok {
			return fail("element")
		}
		e, ok := v.(*SliceV)
		if !ok {
			return fail("element")
		}
		ln, by, vol := e.Len, term.Const(8, 0), term.False
		if e.Obj != nil {
			arr, ok := x.regionOf(st, e)
			if !ok {
				return fail("element of unknown content")
			}
			by = term.Select(arr, term.Add(e.Off, x.GhostJ))
			vol = term.BoolC(e.Obj.Volatile)
			if !e.Obj.Volatile {
				x.freeze(e.Obj)
			}
		}
		here := term.Eq(r.Len, x.GhostQ)
		r.ELen, r.EByte, r.EVol = term.Ite(here, ln, r.ELen), term.Ite(here, by, r.EByte), term.Ite(here, vol, r.EVol)
		r.Len = term.Add(r.Len, i64(1))
	}
	return &r
}

func (f *frame) typeAssert(st *State, in *ssa.TypeAssert) Value {
	x := f.x
	a, ok := f.val(st, in.X).(*IfaceV)
	if !ok || (a.Typ == nil && !a.Nil.IsTrue()) {
		return f.unknown(st, "type assertion", in)
	}
	if _, ok := a.Val.(*OpaqueV); ok && a.Typ == Unknown {
		return f.unknown(st, "type assertion", in)
	}
	match := false
	var res Value
	if a.Typ != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(a.Typ, it)
			res = a
		} else {
			match = types.Identical(a.Typ, in.AssertedType)
			res = a.Val
		}
	}
	okT := term.BoolC(match)
	if match {
		okT = term.Not(a.Nil)
	}
	z, err := Zero(in.AssertedType)
	if err != nil {
		z = &OpaqueV{Name: "zero"}
	}
	if !match {
		res = z
	}
	if in.CommaOk {
		if match && !a.Nil.IsFalse() {
			m, ok := merge(okT, res, z)
			if !ok {
				return f.unknown(st, "type assertion", in)
			}
			res = m
		}
		return &TupleV{[]Value{res, okT}}
	}
	x.oblig(st, "safety", "type assertion fails", in.Pos(), okT)
	return res
}

func (f *frame) mapLookup(st *State, m *MapRef, in *ssa.Lookup) (Value, bool) {
	mt := in.X.Type().Underlying().(*types.Map)
	z, err := Zero(mt.Elem())
	if err != nil {
		return nil, false
	}
	if x := f.x; x.Maps != nil && m.Obj != nil && !x.initMode {
		if v, found, ok := x.Maps.Lookup(st, m, f.val(st, in.Index), mt.Elem(), in.Pos()); ok {
			if in.CommaOk {
				return &TupleV{[]Value{v, found}}, true
			}
			r, ok := merge(found, v, z)
			return r, ok
		}
	}
	r, found := z, term.False
	if m.Obj != nil {
		mv, ok := readMem(st, m.Obj).(*MapV)
		if !ok {
			return nil, false
		}
		key := f.val(st, in.Index)
		for i := range mv.Keys {
			e, ok := ValEq(mv.Keys[i], key)
			if !ok {
				return nil, false
			}
			if r, ok = merge(e, mv.Vals[i], r); !ok {
				return nil, false
			}
			found = term.Or(found, e)
		}
	}
	if in.CommaOk {
		return &TupleV{[]Value{r, found}}, true
	}
	return r, true
}

func (f *frame) mapUpdate(st *State, in *ssa.MapUpdate) {
	x := f.x
	m, ok := f.val(st, in.Map).(*MapRef)
	if !ok || m.Obj == nil {
		x.Unsupported(st, "map update", in.Pos())
		return
	}
	if (m.Obj.Const || m.Obj.Input) && !x.initMode {
		x.oblig(st, "frame", "write to "+m.Obj.Name, in.Pos(), term.False)
	}
	if x.Maps != nil && !x.initMode && x.Maps.Update(st, m, f.val(st, in.Key), f.val(st, in.Value), in.Pos()) {
		return
	}
	mv, ok := readMem(st, m.Obj).(*MapV)
	if !ok {
		x.Unsupported(st, "map update", in.Pos())
		return
	}
	k, v := f.val(st, in.Key), f.val(st, in.Value)
	n := &MapV{Nil: term.False}
	hit := false
	for i := range mv.Keys {
		e, ok := ValEq(mv.Keys[i], k)
		if !ok || !e.IsConst() {
			x.Unsupported(st, "map update with a symbolic key", in.Pos())
			return
		}
		n.Keys = append(n.Keys, mv.Keys[i])
		if e.IsTrue() {
			n.Vals = append(n.Vals, v)
			hit = true
		} else {
			n.Vals = append(n.Vals, mv.Vals[i])
		}
	}
	if !hit {
		n.Keys, n.Vals = append(n.Keys, k), append(n.Vals, v)
	}
	st.Mem[m.Obj] = n
}

// call runs a call and gives its outcomes; done=false ends the path.
func (f *frame) call(st *State, c *ssa.CallCommon, pos token.Pos, at *ssa.Call) ([]Outcome, bool) {
	x := f.x
	var args []Value
	var fn *ssa.Function
	var bindings []Value
	name := ""
	if c.IsInvoke() {
		recv := f.val(st, c.Value)
		iv, ok := recv.(*IfaceV)
		if ok {
			x.oblig(st, "safety", "method call on a nil interface", pos, term.Not(iv.Nil))
		}
		if ok && iv.Typ == Unknown {
			args = append(args, iv)
		} else if ok && iv.Typ != nil {
			fn = x.P.SSA.LookupMethod(iv.Typ, c.Method.Pkg(), c.Method.Name())
			args = append(args, iv.Val)
		} else {
			args = append(args, recv)
		}
		name = c.Method.FullName()
	} else {
		switch v := f.val(st, c.Value).(type) {
		case *FuncV:
			if v.Builtin != nil {
				var as []Value
				for _, a := range c.Args {
					as = append(as, f.val(st, a))
				}
				r, ok := f.builtin(st, v.Builtin.Name(), c, as, pos)
				if !ok {
					return nil, false
				}
				return []Outcome{{G: st.G, Res: r, Mem: st.Mem, Src: st.Src}}, true
			}
			fn, bindings, name = v.Fn, v.Bindings, v.Name
		default:
			name = "dynamic call"
		}
	}
	for _, a := range c.Args {
		args = append(args, f.val(st, a))
	}
	if fn != nil {
		name = fn.String()
	}
	if x.Hook != nil && !x.initMode {
		outs, ok := x.Hook(&Call{X: x, St: st, Fn: fn, Name: name, Args: args, Pos: pos, Sig: c.Signature()})
		if ok {
			x.Called[name]++
			return outs, true
		}
	}
	if fn == nil || fn.Blocks == nil || (x.initMode && fn.Name() != "init" && !initOK(fn)) || (fn.Name() == "init" && fn.Synthetic != "" && x.initMode) {
		if !(fn != nil && fn.Name() == "init" && fn.Synthetic != "") {
			x.Unsupported(st, "call of "+name, pos)
		}
		var r []Value
		res := c.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			r = append(r, x.havocVal("result", res.At(i).Type()))
		}
		return []Outcome{{G: st.G, Res: r, Mem: st.Mem, Src: st.Src}}, true
	}
	if x.lib == nil && !x.initMode && library(fn) && !library(f.fn) {
		if x.World.Unread[name] {
			return f.unread(st, fn, name, args, pos), true
		}
		s0, ns, nf := f.snap(), len(x.stack), len(x.fns)
		x.lib = &libRun{steps: x.steps + 20000, until: time.Now().Add(15 * time.Second)}
		outs, ok := f.bounded(st, fn, args, bindings, at)
		x.lib = nil
		if ok {
			return outs, true
		}
		f.restore(s0)
		x.stack, x.fns = x.stack[:ns], x.fns[:nf]
		return f.unread(st, fn, name, args, pos), true
	}
	x.stack = append(x.stack, fmt.Sprintf("%s@%d", f.fn.Name(), instrIndex(at)))
	outs := x.Run(fn, args, bindings, st)
	x.stack = x.stack[:len(x.stack)-1]
	return outs, true
}

// libRun limits the execution of a function of the standard library.
type libRun struct {
	steps int
	until time.Time
}

// library reports whether a function is part of the standard library.
func library(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return false
	}
	root, _, _ := strings.Cut(fn.Pkg.Pkg.Path(), "/")
	return !strings.Contains(root, ".")
}

func (f *frame) bounded(st *State, fn *ssa.Function, args, bindings []Value, at *ssa.Call) (outs []Outcome, ok bool) {
	x := f.x
	lib := x.lib
	defer func() {
		if r := recover(); r != nil {
			if r != any(lib) {
				panic(r)
			}
			outs, ok = nil, false
		}
	}()
	x.stack = append(x.stack, fmt.Sprintf("%s@%d", f.fn.Name(), instrIndex(at)))
	outs = x.Run(fn, args, bindings, st)
	x.stack = x.stack[:len(x.stack)-1]
	return outs, true
}

// unread is the outcome of a library function that is too long to execute: of a
// pure one, an uninterpreted function of its arguments.
func (f *frame) unread(st *State, fn *ssa.Function, name string, args []Value, pos token.Pos) []Outcome {
	x := f.x
	x.World.Unread[fn.String()] = true
	res := fn.Signature.Results()
	basic := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
	}
	pure := fn.Signature.Recv() == nil
	var ts []*term.Term
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		pure = pure && basic(fn.Signature.Params().At(i).Type())
	}
	for i := 0; i < res.Len(); i++ {
		pure = pure && basic(res.At(i).Type())
	}
	for _, a := range args {
		switch v := a.(type) {
		case *term.Term:
			ts = append(ts, v)
		case *StringV:
			if v.Const != nil {
				name += fmt.Sprintf("(%x)", *v.Const)
				break
			}
			ts = append(ts, v.Arr, v.Off, v.Len)
		default:
			pure = false
		}
	}
	if !pure {
		x.Unsupported(st, "call of "+name+" (too long)", pos)
	}
	var r []Value
	for i := 0; i < res.Len(); i++ {
		v := x.havocVal("result", res.At(i).Type())
		if t, ok := v.(*term.Term); ok && pure && len(ts) > 0 {
			v = term.App(fmt.Sprintf("%s.%d", name, i), t.S, ts...)
		}
		r = append(r, v)
	}
	return []Outcome{{G: st.G, Res: r, Mem: st.Mem, Src: st.Src}}
}

// initOK limits what package initialisers may call to the program's own code.
func initOK(fn *ssa.Function) bool {
	return true
}

func instrIndex(c *ssa.Call) int {
	if c == nil {
		return -1
	}
	for i, in := range c.Block().Instrs {
		if in == c {
			return c.Block().Index*1000 + i
		}
	}
	return -1
}

func (f *frame) builtin(st *State, name string, c *ssa.CallCommon, as []Value, pos token.Pos) ([]Value, bool) {
	x := f.x
	bad := func() ([]Value, bool) {
		x.Unsupported(st, "builtin "+name, pos)
		var r []Value
		if res := c.Signature().Results(); res != nil {
			for i := 0; i < res.Len(); i++ {
				r = append(r, x.havocVal(name, res.At(i).Type()))
			}
		}
		return r, true
	}
	switch name {
	case "len", "cap":
		switch a := as[0].(type) {
		case *SliceV:
			if name == "len" {
				return []Value{a.Len}, true
			}
			return []Value{a.Cap}, true
		case *StringV:
			return []Value{strLen(a)}, true
		case *SeqV:
			if name == "len" {
				return []Value{a.Len}, true
			}
		case *ArrayV:
			return []Value{i64(len(a.Elems))}, true
		case *PtrV:
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok {
					return []Value{i64(int(arr.Len()))}, true
				}
			}
		case *MapRef:
			if a.Obj == nil {
				return []Value{i64(0)}, true
			}
			if mv, ok := readMem(st, a.Obj).(*MapV); ok {
				return []Value{i64(len(mv.Keys))}, true
			}
		}
		return bad()
	case "min", "max":
		w, signed, ok := bits(c.Args[0].Type())
		if !ok || w == 0 {
			return bad()
		}
		r := as[0].(*term.Term)
		for _, a := range as[1:] {
			t := a.(*term.Term)
			lt := term.Ult(t, r)
			if signed {
				lt = term.Slt(t, r)
			}
			if name == "min" {
				r = term.Ite(lt, t, r)
			} else {
				r = term.Ite(lt, r, t)
			}
		}
		return []Value{r}, true
	case "panic":
		x.oblig(st, "safety", "panic", pos, term.False)
		return nil, false
	case "print", "println":
		return nil, true
	case "append":
		return f.appendB(st, c, as, pos)
	case "copy":
		d, ok1 := as[0].(*SliceV)
		s, ok2 := as[1].(*SliceV)
		if !ok1 || !ok2 || d.Obj == nil {
			return bad()
		}
		n := term.Ite(term.Slt(d.Len, s.Len), d.Len, s.Len)
		if d.Obj.Input || d.Obj.Const {
			x.oblig(st, "frame", "write to "+d.Obj.Name, pos, term.Eq(n, i64(0)))
		}
		if !n.IsConst() || n.Val > 4096 {
			if reg, ok := readMem(st, d.Obj).(*RegionV); ok && len(d.Path) == 0 {
				x.writes(st, d.Obj, pos)
				a := term.Fresh("copy", reg.Arr.S)
				if x.GhostJ != nil {
					if src, ok := x.regionOf(st, s); ok {
						in := term.And(term.Sle(i64(0), x.GhostJ), term.Slt(x.GhostJ, n))
						x.Assume(term.Implies(in, term.Eq(term.Select(a, term.Add(d.Off, x.GhostJ)), term.Select(src, term.Add(s.Off, x.GhostJ)))))
					}
				}
				st.Mem[d.Obj] = &RegionV{a}
				return []Value{n}, true
			}
			return bad()
		}
		x.writes(st, d.Obj, pos)
		// read everything first: the regions may overlap
		var vals []Value
		for i := 0; i < int(n.Val); i++ {
			v, ok := x.get(readMem(st, s.Obj), extend(s.Path, PathElem{Idx: term.Add(s.Off, i64(i))}))
			if !ok {
				return bad()
			}
			vals = append(vals, v)
		}
		for i, v := range vals {
			nv, ok := x.set(readMem(st, d.Obj), extend(d.Path, PathElem{Idx: term.Add(d.Off, i64(i))}), v)
			if !ok {
				return bad()
			}
			st.Mem[d.Obj] = nv
		}
		return []Value{n}, true
	case "ssa:wrapnilchk":
		if p, ok := as[0].(*PtrV); ok {
			x.oblig(st, "safety", "nil pointer dereference", pos, term.Not(p.Nil))
		}
		return []Value{as[0]}, true
	}
	return bad()
}

// appendB models append: into the same array when it has room, else a copy.
func (f *frame) appendB(st *State, c *ssa.CallCommon, as []Value, pos token.Pos) ([]Value, bool) {
	x := f.x
	fail := func(why string) ([]Value, bool) {
		x.Unsupported(st, "append: "+why, pos)
		return []Value{x.havocVal("append", c.Args[0].Type())}, true
	}
	if d, ok := as[0].(*SeqV); ok {
		return []Value{x.appendSeq(st, d, as[1], pos)}, true
	}
	d, ok := as[0].(*SliceV)
	if !ok {
		return fail("destination")
	}
	var n *term.Term
	var at func(i int) (Value, bool)
	switch s := as[1].(type) {
	case *SliceV:
		n = s.Len
		at = func(i int) (Value, bool) {
			if s.Obj == nil {
				return nil, false
			}
			return x.get(readMem(st, s.Obj), extend(s.Path, PathElem{Idx: term.Add(s.Off, i64(i))}))
		}
	case *StringV:
		n = strLen(s)
		at = func(i int) (Value, bool) { return strByteV(s, i) }
	default:
		return fail("source")
	}
	if n.IsConst() && n.Val == 0 {
		return []Value{d}, true
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	room := term.Sle(term.Add(d.Len, n), d.Cap)
	if d.Len.IsConst() && n.IsConst() && (room.IsFalse() || x.initMode) && d.Len.Val+n.Val <= 1<<16 {
		tot := int(d.Len.Val + n.Val)
		arr := &ArrayV{Elems: make([]Value, tot)}
		for i := 0; i < tot; i++ {
			var v Value
			var ok bool
			if i < int(d.Len.Val) {
				v, ok = x.get(readMem(st, d.Obj), extend(d.Path, PathElem{Idx: term.Add(d.Off, i64(i))}))
			} else {
				v, ok = at(i - int(d.Len.Val))
			}
			if !ok {
				return fail("element")
			}
			arr.Elems[i] = v
		}
		o := x.World.NewObj("append", nil, nil)
		st.Mem[o] = arr
		cp := i64(tot)
		if !x.initMode {
			cp = term.Fresh("append.cap", term.BV(64))
			x.Assume(term.And(term.Sle(i64(tot), cp), term.Sle(cp, i64(1<<46))))
		}
		return []Value{&SliceV{Obj: o, Off: i64(0), Len: i64(tot), Cap: cp, Nil: term.False, Elem: elem}}, true
	}
	noRoom := d.Cap.IsConst() && d.Cap.Val == 0 || d.Nil.IsTrue()
	own := d.Obj != nil && !d.Obj.Input && !d.Obj.Const && !d.Obj.Volatile && len(d.Path) == 0
	if d.Len.IsConst() && d.Len.Val == 0 && (noRoom || own) {
		// a copy: the same content elsewhere. If it is in d's array after all,
		// that must not be used otherwise any more.
		if !noRoom {
			if sv, ok := as[1].(*SliceV); ok && sv.Obj == d.Obj {
				return fail("to itself")
			}
			x.writes(st, d.Obj, pos)
			x.freeze(d.Obj)
			st.Mem[d.Obj] = &OpaqueV{Name: "appended to"}
		}
		switch s := as[1].(type) {
		case *SliceV:
			if s.Obj == nil {
				return []Value{d}, true
			}
			if arr, ok := x.regionOf(st, s); ok {
				return []Value{x.copyOf(st, arr, s.Off, n, term.And(d.Nil, term.Eq(n, i64(0))), elem)}, true
			}
		case *StringV:
			if s.Const == nil {
				return []Value{x.copyOf(st, s.Arr, s.Off, n, term.And(d.Nil, term.Eq(n, i64(0))), elem)}, true
			}
		}
	}
	if r, ok := x.appendRegion(st, d, as[1], n, room, elem, own, noRoom, pos); ok {
		return []Value{r}, true
	}
	// writes to the destination's array when there is room
	if d.Obj != nil && (d.Obj.Input || d.Obj.Const) && !room.IsFalse() {
		x.oblig(st, "frame", "append may write to "+d.Obj.Name, pos, term.Or(term.Not(room), term.Eq(n, i64(0))))
	}
	return fail("of unknown length")
}

// appendRegion appends to an array of unknown length: in place where it is
// certain that there is room, else to a new array, after which the old one must
// not be used any more.
func (x *Exec) appendRegion(st *State, d *SliceV, src Value, n, room *term.Term, elem types.Type, own, noRoom bool, pos token.Pos) (Value, bool) {
	so, ok := SortOf(elem)
	if !ok || !own && !noRoom && d.Obj != nil {
		return nil, false
	}
	var a, b, off *term.Term
	if d.Obj == nil {
		a = term.Fresh("none", term.Sort{W: so.W, Arr: true})
	} else if a, ok = x.regionOf(st, d); !ok {
		return nil, false
	}
	switch s := src.(type) {
	case *SliceV:
		if b, ok = x.regionOf(st, s); !ok {
			return nil, false
		}
		off = s.Off
	case *StringV:
		if s.Const != nil {
			return nil, false
		}
		b, off = s.Arr, s.Off
	default:
		return nil, false
	}
	end := term.Add(d.Off, d.Len)
	arr := term.Mix(a, b, end, term.Add(end, n), off)
	if own && x.Feasible != nil && !x.Feasible(x, term.And(st.G, term.Not(room))) {
		x.writes(st, d.Obj, pos)
		st.Mem[d.Obj] = &RegionV{arr}
		return &SliceV{Obj: d.Obj, Off: d.Off, Len: term.Add(d.Len, n), Cap: d.Cap, Nil: d.Nil, Elem: elem}, true
	}
	if !noRoom && d.Obj != nil {
		x.writes(st, d.Obj, pos)
		st.Mem[d.Obj] = &OpaqueV{Name: "appended to"}
	}
	o := x.World.NewObj("append", nil, nil)
	st.Mem[o] = &RegionV{arr}
	cp := term.Fresh("append.cap", term.BV(64))
	x.Assume(term.And(term.Sle(term.Add(d.Len, n), cp), term.Sle(cp, i64(1<<46))))
	return &SliceV{Obj: o, Off: d.Off, Len: term.Add(d.Len, n), Cap: cp, Nil: term.And(d.Nil, term.Eq(n, i64(0))), Elem: elem}, true
}

// copyOf is a new slice with the content of part of an array.
func (x *Exec) copyOf(st *State, arr, off, n, isNil *term.Term, elem types.Type) *SliceV {
	o := x.World.NewObj("append", nil, nil)
	st.Mem[o] = &RegionV{arr}
	cp := term.Fresh("append.cap", term.BV(64))
	x.Assume(term.And(term.Sle(n, cp), term.Sle(cp, i64(1<<46)), term.Implies(isNil, term.Eq(cp, i64(0)))))
	return &SliceV{Obj: o, Off: off, Len: n, Cap: cp, Nil: isNil, Elem: elem}
}

func strByteV(s *StringV, i int) (Value, bool) {
	t, ok := strByte(s, i64(i))
	return t, ok
}
