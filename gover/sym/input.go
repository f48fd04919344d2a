package sym

import (
	"go/types"

	"gover/term"
)

// Input makes an arbitrary argument belonging to the caller.
func (x *Exec) Input(st *State, name string, t types.Type) Value {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if s, ok := SortOf(sl.Elem()); ok {
			o := x.World.NewObj(name, t, nil)
			o.Input = true
			o.Init = &RegionV{term.Var(name+".bytes", term.Sort{W: s.W, Arr: true})}
			n := term.Var(name+".len", term.BV(64))
			c := term.Var(name+".cap", term.BV(64))
			nl := term.Var(name+".nil", term.Bool)
			off := i64(0)
			x.Assume(term.Sle(i64(0), n))
			x.Assume(term.Sle(n, c))
			x.Assume(term.Sle(c, i64(1<<46)))
			x.Assume(term.Implies(nl, term.Eq(c, i64(0))))
			return &SliceV{Obj: o, Off: off, Len: n, Cap: c, Nil: nl, Elem: sl.Elem()}
		}
	}
	if s, ok := SortOf(t); ok {
		return term.Var(name, s)
	}
	if isString(t) {
		n := term.Var(name+".len", term.BV(64))
		x.Assume(term.Sle(i64(0), n))
		x.Assume(term.Sle(n, i64(1<<46)))
		return &StringV{Arr: term.Var(name+".bytes", term.Arr(8)), Off: i64(0), Len: n}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return &FuncV{Name: name}
	}
	return &OpaqueV{Name: name}
}
