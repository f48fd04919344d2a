package check

import (
	"fmt"

	"gover/sym"
	"gover/term"
)

// texts gives the library's searching and trimming functions their meaning:
// uninterpreted functions of a byte array and an interval of it, with the
// documented properties as axioms, instantiated for every use.
type texts struct {
	assume func(t *term.Term)
	seen   map[*term.Term]bool
	finds  []find
	trims  []trim
}

type find struct {
	pat       string
	arr, a, b *term.Term
	p         *term.Term // the first position in [a,b] of pat in [a,b), or b
}

type trim struct{ arr, a, b, l, r *term.Term }

func newTexts(assume func(t *term.Term)) *texts {
	return &texts{assume: assume, seen: map[*term.Term]bool{}}
}

// find is the position of the first pat in [a,b) of arr, b if there is none.
func (t *texts) find(pat string, arr, a, b *term.Term) *term.Term {
	p := term.App(fmt.Sprintf("text.first.%x", pat), term.BV(64), arr, a, b)
	if t.seen[p] {
		return p
	}
	t.seen[p] = true
	n := c64(int64(len(pat)))
	there := []*term.Term{term.Sle(term.Add(p, n), b)}
	for i := range pat {
		there = append(there, term.Eq(term.Select(arr, term.Add(p, c64(int64(i)))), term.Const(8, uint64(pat[i]))))
	}
	t.assume(term.Implies(term.Sle(a, b), term.And(term.Sle(a, p), term.Sle(p, b), term.Implies(term.Not(term.Eq(p, b)), term.And(there...)))))
	f := find{pat, arr, a, b, p}
	for _, g := range t.finds {
		if g.pat == pat && g.arr == arr {
			t.assume(before(f, g))
			t.assume(before(g, f))
		}
	}
	t.finds = append(t.finds, f)
	return p
}

// before: where g found something within f's interval, f found it or an earlier one.
func before(f, g find) *term.Term {
	n := c64(int64(len(f.pat)))
	return term.Implies(term.And(term.Sle(f.a, f.b), term.Sle(g.a, g.b), term.Not(term.Eq(g.p, g.b)), term.Sle(f.a, g.p), term.Sle(term.Add(g.p, n), f.b)), term.Sle(f.p, g.p))
}

// trim is the interval left of [a,b) when surrounding white space is removed.
func (t *texts) trim(arr, a, b *term.Term) (l, r *term.Term) {
	l = term.App("text.trim.left", term.BV(64), arr, a, b)
	r = term.App("text.trim.right", term.BV(64), arr, a, b)
	if t.seen[l] {
		return
	}
	t.seen[l] = true
	t.assume(term.Implies(term.Sle(a, b), term.And(term.Sle(a, l), term.Sle(l, r), term.Sle(r, b))))
	n := trim{arr, a, b, l, r}
	for _, m := range t.trims {
		if m.arr == arr {
			t.assume(again(n, m))
			t.assume(again(m, n))
		}
	}
	t.trims = append(t.trims, n)
	return
}

// again: trimming what is trimmed, at one end or both, gives the same.
func again(n, m trim) *term.Term {
	return term.Implies(term.And(term.Sle(m.a, m.b), term.Not(term.Eq(m.l, m.r)), term.Or(term.Eq(n.a, m.a), term.Eq(n.a, m.l)), term.Or(term.Eq(n.b, m.b), term.Eq(n.b, m.r))),
		term.And(term.Eq(n.l, m.l), term.Eq(n.r, m.r)))
}

// number is whether [a,b) is a number to a base that fits, and which.
func (t *texts) number(base int64, arr, a, b *term.Term, bits int64) (ok, val *term.Term) {
	nm := fmt.Sprintf("text.number%d.", base)
	ok = term.And(term.App(nm+"syntax", term.Bool, arr, a, b), term.Not(term.App(nm+"big", term.Bool, arr, a, b)))
	val = term.App(nm+"value", term.BV(64), arr, a, b)
	if bits > 0 && bits < 64 {
		ok = term.And(ok, term.Ult(val, term.Const(64, 1<<uint(bits))))
	}
	return
}

// piece is an interval of a byte array.
type piece struct{ arr, a, b *term.Term }

func (p piece) len() *term.Term { return term.Sub(p.b, p.a) }

// pieceOf is where a slice or string lies.
func pieceOf(x *sym.Exec, st *sym.State, v sym.Value) (piece, bool) {
	switch s := v.(type) {
	case *sym.SliceV:
		if arr, ok := x.RegionOf(st, s); ok {
			return piece{arr, s.Off, term.Add(s.Off, s.Len)}, true
		}
	case *sym.StringV:
		if s.Const == nil {
			return piece{s.Arr, s.Off, term.Add(s.Off, s.Len)}, true
		}
		arr := term.Var("const.string."+fmt.Sprintf("%x", *s.Const), term.Arr(8))
		for i := range *s.Const {
			x.Axiom(term.Eq(term.Select(arr, c64(int64(i))), term.Const(8, uint64((*s.Const)[i]))))
		}
		return piece{arr, c64(0), c64(int64(len(*s.Const)))}, true
	}
	return piece{}, false
}

// constText is a slice or string of known content.
func constText(x *sym.Exec, st *sym.State, v sym.Value) (string, bool) {
	if s, ok := v.(*sym.StringV); ok && s.Const != nil {
		return *s.Const, true
	}
	if t, ok := v.(*term.Term); ok && t.IsConst() { // a byte or rune
		if t.Val >= 128 {
			return "", false
		}
		return string(rune(t.Val)), true
	}
	p, ok := pieceOf(x, st, v)
	if !ok {
		return "", false
	}
	n := p.len()
	if !n.IsConst() || n.Val > 16 {
		return "", false
	}
	var b []byte
	for i := uint64(0); i < n.Val; i++ {
		c := term.Select(p.arr, term.Add(p.a, term.Const(64, i)))
		if !c.IsConst() {
			return "", false
		}
		b = append(b, byte(c.Val))
	}
	return string(b), true
}

// sub is the part [a,b) of the array a slice or string lies in, or nothing.
func sub(v sym.Value, a, b, isNil *term.Term) sym.Value {
	switch s := v.(type) {
	case *sym.SliceV:
		return &sym.SliceV{Obj: s.Obj, Path: s.Path, Elem: s.Elem, Off: a, Len: term.Sub(b, a), Cap: term.Sub(term.Add(s.Off, s.Cap), a), Nil: isNil}
	case *sym.StringV:
		return &sym.StringV{Arr: s.Arr, Off: a, Len: term.Sub(b, a)}
	}
	return nil
}

// same: two pieces have the same length, and byte j the same.
func same(p, q piece, j *term.Term) *term.Term {
	return term.And(term.Eq(p.len(), q.len()), term.Implies(term.And(term.Sle(c64(0), j), term.Slt(j, p.len())),
		term.Eq(term.Select(p.arr, term.Add(p.a, j)), term.Select(q.arr, term.Add(q.a, j)))))
}

// hook gives calls of the bytes, strings and strconv packages their contracts.
func (t *texts) hook(c *sym.Call) ([]sym.Outcome, bool) {
	x, st := c.X, c.St
	ret := func(vs ...sym.Value) ([]sym.Outcome, bool) {
		return []sym.Outcome{{G: st.G, Res: vs, Mem: st.Mem, Src: st.Src}}, true
	}
	unread := func(what string) ([]sym.Outcome, bool) {
		x.Unsupported(st, what, c.Pos)
		return nil, false
	}
	errV := func(isNil *term.Term) sym.Value {
		return &sym.IfaceV{Typ: sym.Unknown, Val: &sym.OpaqueV{Name: "new error"}, Nil: isNil}
	}
	switch c.Name {
	case "bytes.Cut", "strings.Cut", "bytes.Index", "strings.Index", "bytes.IndexByte", "strings.IndexByte", "strings.IndexRune", "bytes.IndexRune", "bytes.Contains", "strings.Contains":
		p, ok := pieceOf(x, st, c.Args[0])
		pat, ok2 := constText(x, st, c.Args[1])
		if s, isStr := c.Args[0].(*sym.StringV); !ok || !ok2 || pat == "" || isStr && s.Const != nil {
			return unread("call of " + c.Name)
		}
		at := t.find(pat, p.arr, p.a, p.b)
		none := term.Eq(at, p.b)
		switch c.Name {
		case "bytes.Cut", "strings.Cut":
			nl := term.False
			if s, ok := c.Args[0].(*sym.SliceV); ok {
				nl = s.Nil
			}
			rest := term.Ite(none, p.b, term.Add(at, c64(int64(len(pat)))))
			return ret(sub(c.Args[0], p.a, at, nl), sub(c.Args[0], rest, p.b, term.Or(nl, none)), term.Not(none))
		case "bytes.Contains", "strings.Contains":
			return ret(term.Not(none))
		}
		return ret(term.Ite(none, c64(-1), term.Sub(at, p.a)))
	case "bytes.TrimSpace", "strings.TrimSpace":
		p, ok := pieceOf(x, st, c.Args[0])
		if s, isStr := c.Args[0].(*sym.StringV); !ok || isStr && s.Const != nil {
			return unread("call of " + c.Name)
		}
		l, r := t.trim(p.arr, p.a, p.b)
		return ret(sub(c.Args[0], l, r, term.Eq(l, r)))
	case "strconv.ParseUint":
		p, ok := pieceOf(x, st, c.Args[0])
		base, ok1 := c.Args[1].(*term.Term)
		bits, ok2 := c.Args[2].(*term.Term)
		if !ok || !ok1 || !ok2 || !base.IsConst() || !bits.IsConst() {
			return unread("call of " + c.Name)
		}
		n := int64(bits.Val)
		good, v := t.number(int64(base.Val), p.arr, p.a, p.b, n)
		return ret(term.Ite(good, v, term.Fresh("unparsed", term.BV(64))), errV(good))
	case "fmt.Errorf", "errors.New":
		return ret(errV(term.False))
	}
	return nil, false
}
