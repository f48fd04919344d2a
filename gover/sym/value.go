// Package sym executes go/ssa functions symbolically. Paths are merged where
// they join, loops are unrolled or cut at their heads, and everything that
// could go wrong becomes a proof obligation.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gover/term"
)

// Value is a symbolic Go value: *term.Term for booleans and integers, or one
// of the types below.
type Value any

// Obj is a region of memory.
type Obj struct {
	ID    int
	Name  string
	Const bool // package-level or otherwise not to be written
	Input bool // belongs to the caller
	// Volatile memory is overwritten by others at some later time.
	Volatile bool
	Init     Value
	Typ      types.Type
}

func (o *Obj) String() string {
	if o == nil {
		return "nil"
	}
	return fmt.Sprintf("%s#%d", o.Name, o.ID)
}

type PathElem struct {
	Field int
	Idx   *term.Term // nil for a field
}

type PtrV struct {
	Obj  *Obj
	Path []PathElem
	Nil  *term.Term
}

type SliceV struct {
	Obj           *Obj // nil: certainly nil slice
	Path          []PathElem
	Off, Len, Cap *term.Term
	Nil           *term.Term
	Elem          types.Type
}

// RegionV is the content of a region of scalars.
type RegionV struct{ Arr *term.Term }

// StringV is a string: a constant, or Len bytes of Arr from Off.
type StringV struct {
	Const    *string
	Arr      *term.Term
	Off, Len *term.Term
}

// SeqV is a slice of byte slices of which one element is followed: the one at
// the index World.GhostQ, and of that one its length, the byte at World.GhostJ
// and whether it lies in memory that may be overwritten behind its back.
// Ver orders appends: only the newest sequence may be appended to, so that no
// two sequences share an array where they differ.
type SeqV struct {
	Len, Nil, Ver     *term.Term
	ELen, EByte, EVol *term.Term
}

func (s *SeqV) leaves() []*term.Term {
	return []*term.Term{s.Len, s.Nil, s.Ver, s.ELen, s.EByte, s.EVol}
}

var seqLeafNames = []string{"len", "nil", "ver", "elem.len", "elem.byte", "elem.volatile"}

func seqOf(l []*term.Term) *SeqV {
	return &SeqV{Len: l[0], Nil: l[1], Ver: l[2], ELen: l[3], EByte: l[4], EVol: l[5]}
}

// Sequences says that slices of byte slices are to be SeqV.
var Sequences bool

func isSeq(t types.Type) bool {
	if !Sequences {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, _, ok := bits(e.Elem())
	return ok && w == 8
}

func zeroSeq(isNil *term.Term, ver *term.Term) *SeqV {
	z := i64(0)
	return &SeqV{Len: z, Nil: isNil, Ver: ver, ELen: z, EByte: term.Const(8, 0), EVol: term.False}
}

type StructV struct{ Fields []Value }
type ArrayV struct {
	Elems []Value
	table string // name of the constant table with this content
	owned bool   // may be updated in place while a package is initialised
}

// LazyV is an array that is only read, of any length.
type LazyV struct{ Get func(i *term.Term) Value }
type TupleV struct{ Elems []Value }
type IfaceV struct {
	Nil *term.Term
	Typ types.Type
	Val Value
}

// Unknown is the dynamic type of an interface value nothing is known about.
var Unknown types.Type = types.NewNamed(types.NewTypeName(0, nil, "unknown", nil), types.NewStruct(nil, nil), nil)

type FuncV struct {
	Fn       *ssa.Function
	Bindings []Value
	Builtin  *ssa.Builtin
	Name     string // for an abstract function value
}
type MapV struct {
	Keys []Value
	Vals []Value
	Nil  *term.Term
}
type MapRef struct{ Obj *Obj }

// OpaqueV is a value nothing is known about but its identity.
type OpaqueV struct{ Name string }

func bits(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func SortOf(t types.Type) (term.Sort, bool) {
	w, _, ok := bits(t)
	if !ok {
		return term.Sort{}, false
	}
	if w == 0 {
		return term.Bool, true
	}
	return term.BV(w), true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func i64(v int) *term.Term { return term.Const(64, uint64(int64(v))) }

// Zero is the zero value of a type.
func Zero(t types.Type) (Value, error) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, ok := SortOf(t); ok {
			if s.IsBool() {
				return term.False, nil
			}
			return term.Const(s.W, 0), nil
		}
		if isString(t) {
			e := ""
			return &StringV{Const: &e}, nil
		}
		if u.Kind() == types.UntypedNil {
			return &PtrV{Nil: term.True}, nil
		}
	case *types.Slice:
		if isSeq(t) {
			return zeroSeq(term.True, i64(0)), nil
		}
		return nilSlice(u.Elem()), nil
	case *types.Pointer:
		return &PtrV{Nil: term.True}, nil
	case *types.Interface:
		return &IfaceV{Nil: term.True}, nil
	case *types.Signature:
		return &FuncV{}, nil
	case *types.Map:
		return &MapRef{}, nil
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			z, err := Zero(u.Field(i).Type())
			if err != nil {
				z = &OpaqueV{Name: "zero " + u.Field(i).Type().String()}
			}
			s.Fields = append(s.Fields, z)
		}
		return s, nil
	case *types.Array:
		if u.Len() > 1<<20 {
			return nil, fmt.Errorf("array of %d elements", u.Len())
		}
		z, err := Zero(u.Elem())
		if err != nil {
			return nil, err
		}
		a := &ArrayV{Elems: make([]Value, u.Len())}
		for i := range a.Elems {
			a.Elems[i] = z
		}
		return a, nil
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			z, err := Zero(u.At(i).Type())
			if err != nil {
				return nil, err
			}
			tv.Elems = append(tv.Elems, z)
		}
		return tv, nil
	}
	return nil, fmt.Errorf("zero value of %s", t)
}

func nilSlice(elem types.Type) *SliceV {
	z := i64(0)
	return &SliceV{Off: z, Len: z, Cap: z, Nil: term.True, Elem: elem}
}

// Fresh makes an arbitrary value of a type made of scalars.
func FreshVal(name string, t types.Type) (Value, error) {
	if s, ok := SortOf(t); ok {
		return term.Fresh(name, s), nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			v, err := FreshVal(name+"."+u.Field(i).Name(), u.Field(i).Type())
			if err != nil {
				return nil, err
			}
			s.Fields = append(s.Fields, v)
		}
		return s, nil
	case *types.Array:
		if u.Len() > 1024 {
			return nil, fmt.Errorf("array too long")
		}
		a := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			v, err := FreshVal(fmt.Sprintf("%s[%d]", name, i), u.Elem())
			if err != nil {
				return nil, err
			}
			a.Elems = append(a.Elems, v)
		}
		return a, nil
	}
	if isString(t) {
		n := term.Fresh(name+".len", term.BV(64))
		return &StringV{Arr: term.Fresh(name+".bytes", term.Arr(8)), Off: i64(0), Len: n}, nil
	}
	return nil, fmt.Errorf("arbitrary value of %s", t)
}

func samePath(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// merge joins two values under c (true: a).
func merge(c *term.Term, a, b Value) (Value, bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *term.Term:
		y, ok := b.(*term.Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		return term.Ite(c, x, y), true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		o, path := x.Obj, x.Path
		if x.Obj == nil {
			o, path = y.Obj, y.Path
		} else if y.Obj != nil && (y.Obj != x.Obj || !samePath(x.Path, y.Path)) {
			return nil, false
		}
		return &SliceV{Obj: o, Path: path, Elem: x.Elem,
			Off: term.Ite(c, x.Off, y.Off), Len: term.Ite(c, x.Len, y.Len),
			Cap: term.Ite(c, x.Cap, y.Cap), Nil: term.Ite(c, x.Nil, y.Nil)}, true
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok {
			return nil, false
		}
		lx, ly := x.leaves(), y.leaves()
		for i := range lx {
			lx[i] = term.Ite(c, lx[i], ly[i])
		}
		return seqOf(lx), true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if x.Obj == nil || y.Obj == nil {
			o, p := x.Obj, x.Path
			if o == nil {
				o, p = y.Obj, y.Path
			}
			return &PtrV{Obj: o, Path: p, Nil: term.Ite(c, x.Nil, y.Nil)}, true
		}
		if x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return nil, false
		}
		r := &PtrV{Obj: x.Obj, Nil: term.Ite(c, x.Nil, y.Nil)}
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if (p.Idx == nil) != (q.Idx == nil) {
				return nil, false
			}
			if p.Idx == nil {
				if p.Field != q.Field {
					return nil, false
				}
				r.Path = append(r.Path, p)
			} else {
				r.Path = append(r.Path, PathElem{Idx: term.Ite(c, p.Idx, q.Idx)})
			}
		}
		return r, true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.Fields) != len(y.Fields) {
			return nil, false
		}
		fs, ok := mergeList(c, x.Fields, y.Fields)
		return &StructV{fs}, ok
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.Elems) != len(y.Elems) {
			return nil, false
		}
		fs, ok := mergeList(c, x.Elems, y.Elems)
		return &TupleV{fs}, ok
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.Elems) != len(y.Elems) {
			return nil, false
		}
		fs, ok := mergeList(c, x.Elems, y.Elems)
		return &ArrayV{Elems: fs}, ok
	case *RegionV:
		y, ok := b.(*RegionV)
		if !ok {
			return nil, false
		}
		return &RegionV{term.Ite(c, x.Arr, y.Arr)}, true
	case *StringV:
		y, ok := b.(*StringV)
		if !ok {
			return nil, false
		}
		if x.Const != nil && y.Const != nil {
			if *x.Const == *y.Const {
				return x, true
			}
			return nil, false
		}
		if x.Const == nil && y.Const == nil && x.Arr == y.Arr {
			return &StringV{Arr: x.Arr, Off: term.Ite(c, x.Off, y.Off), Len: term.Ite(c, x.Len, y.Len)}, true
		}
		return nil, false
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		switch {
		case x.Typ == nil:
			return &IfaceV{Nil: term.Ite(c, x.Nil, y.Nil), Typ: y.Typ, Val: y.Val}, true
		case y.Typ == nil:
			return &IfaceV{Nil: term.Ite(c, x.Nil, y.Nil), Typ: x.Typ, Val: x.Val}, true
		case types.Identical(x.Typ, y.Typ):
			v, ok := merge(c, x.Val, y.Val)
			return &IfaceV{Nil: term.Ite(c, x.Nil, y.Nil), Typ: x.Typ, Val: v}, ok
		}
		return nil, false
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || x.Builtin != y.Builtin || x.Name != y.Name || len(x.Bindings) != len(y.Bindings) {
			return nil, false
		}
		bs, ok := mergeList(c, x.Bindings, y.Bindings)
		return &FuncV{Fn: x.Fn, Builtin: x.Builtin, Name: x.Name, Bindings: bs}, ok
	case *MapRef:
		y, ok := b.(*MapRef)
		return x, ok && x.Obj == y.Obj
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return x, ok && x.Name == y.Name
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.Keys) != len(y.Keys) {
			return nil, false
		}
		ks, ok1 := mergeList(c, x.Keys, y.Keys)
		vs, ok2 := mergeList(c, x.Vals, y.Vals)
		return &MapV{Keys: ks, Vals: vs}, ok1 && ok2
	}
	return nil, false
}

func mergeList(c *term.Term, a, b []Value) ([]Value, bool) {
	r := make([]Value, len(a))
	for i := range a {
		v, ok := merge(c, a[i], b[i])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

// Leaves lists the scalar terms of a value in a fixed order, with names.
func Leaves(name string, v Value, f func(name string, t *term.Term)) {
	switch x := v.(type) {
	case *term.Term:
		f(name, x)
	case *SliceV:
		f(name+".off", x.Off)
		f(name+".len", x.Len)
		f(name+".cap", x.Cap)
		f(name+".nil", x.Nil)
	case *SeqV:
		for i, t := range x.leaves() {
			f(name+".seq."+seqLeafNames[i], t)
		}
	case *StringV:
		if x.Const == nil {
			f(name+".off", x.Off)
			f(name+".len", x.Len)
		}
	case *StructV:
		for i, e := range x.Fields {
			Leaves(fmt.Sprintf("%s.%d", name, i), e, f)
		}
	case *ArrayV:
		for i, e := range x.Elems {
			Leaves(fmt.Sprintf("%s[%d]", name, i), e, f)
		}
	case *TupleV:
		for i, e := range x.Elems {
			Leaves(fmt.Sprintf("%s.%d", name, i), e, f)
		}
	case *IfaceV:
		f(name+".nil", x.Nil)
		if x.Val != nil {
			Leaves(name+".val", x.Val, f)
		}
	case *PtrV:
		f(name+".nil", x.Nil)
		for i, p := range x.Path {
			if p.Idx != nil {
				f(fmt.Sprintf("%s.path%d", name, i), p.Idx)
			}
		}
	case *RegionV:
		f(name+".content", x.Arr)
	}
}

// mapLeaves rebuilds a value with its scalar leaves replaced.
func MapLeaves(v Value, f func(t *term.Term) *term.Term) Value {
	switch x := v.(type) {
	case *term.Term:
		return f(x)
	case *SliceV:
		y := *x
		y.Off, y.Len, y.Cap, y.Nil = f(x.Off), f(x.Len), f(x.Cap), f(x.Nil)
		return &y
	case *SeqV:
		l := x.leaves()
		for i := range l {
			l[i] = f(l[i])
		}
		return seqOf(l)
	case *StringV:
		if x.Const != nil {
			return x
		}
		return &StringV{Arr: x.Arr, Off: f(x.Off), Len: f(x.Len)}
	case *StructV:
		y := &StructV{}
		for _, e := range x.Fields {
			y.Fields = append(y.Fields, MapLeaves(e, f))
		}
		return y
	case *ArrayV:
		y := &ArrayV{}
		for _, e := range x.Elems {
			y.Elems = append(y.Elems, MapLeaves(e, f))
		}
		return y
	case *TupleV:
		y := &TupleV{}
		for _, e := range x.Elems {
			y.Elems = append(y.Elems, MapLeaves(e, f))
		}
		return y
	case *IfaceV:
		y := *x
		y.Nil = f(x.Nil)
		if x.Val != nil {
			y.Val = MapLeaves(x.Val, f)
		}
		return &y
	case *PtrV:
		y := &PtrV{Obj: x.Obj, Nil: f(x.Nil)}
		for _, p := range x.Path {
			if p.Idx != nil {
				p.Idx = f(p.Idx)
			}
			y.Path = append(y.Path, p)
		}
		return y
	case *RegionV:
		return &RegionV{f(x.Arr)}
	}
	return v
}

// sameShape says whether two values differ in scalar leaves only.
func sameShape(a, b Value) bool {
	switch x := a.(type) {
	case *term.Term:
		y, ok := b.(*term.Term)
		return ok && x.S == y.S
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path)
	case *SeqV:
		_, ok := b.(*SeqV)
		return ok
	case *StringV:
		y, ok := b.(*StringV)
		if !ok {
			return false
		}
		if x.Const != nil || y.Const != nil {
			return x.Const != nil && y.Const != nil && *x.Const == *y.Const
		}
		return x.Arr == y.Arr
	case *StructV:
		y, ok := b.(*StructV)
		return ok && shapeList(x.Fields, y.Fields)
	case *ArrayV:
		y, ok := b.(*ArrayV)
		return ok && shapeList(x.Elems, y.Elems)
	case *TupleV:
		y, ok := b.(*TupleV)
		return ok && shapeList(x.Elems, y.Elems)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || (x.Typ == nil) != (y.Typ == nil) {
			return false
		}
		if x.Typ == nil {
			return true
		}
		return types.Identical(x.Typ, y.Typ) && sameShape(x.Val, y.Val)
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if (x.Path[i].Idx == nil) != (y.Path[i].Idx == nil) || x.Path[i].Field != y.Path[i].Field {
				return false
			}
		}
		return true
	case *RegionV:
		_, ok := b.(*RegionV)
		return ok
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.Fn == y.Fn && x.Name == y.Name && shapeList(x.Bindings, y.Bindings)
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return ok && x.Name == y.Name
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.Obj == y.Obj
	}
	return a == b
}

func shapeList(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameShape(a[i], b[i]) {
			return false
		}
	}
	return true
}
