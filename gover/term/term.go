// Package term is a hash-consed term language of booleans, bit-vectors (up to
// 64 bits), arrays from 64-bit indices to bit-vectors, and uninterpreted
// functions, with a light simplifier, an SMT-LIB printer and an evaluator.
package term

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Sort struct {
	W   int // width of a bit-vector; 0 for Bool
	Arr bool
	// for arrays: index is always 64 bits, W is the element width
}

var Bool = Sort{}

func BV(w int) Sort         { return Sort{W: w} }
func Arr(w int) Sort        { return Sort{W: w, Arr: true} }
func (s Sort) IsBool() bool { return s.W == 0 && !s.Arr }

func (s Sort) String() string {
	switch {
	case s.Arr:
		return fmt.Sprintf("(Array (_ BitVec 64) %s)", elemSort(s.W))
	case s.W == 0:
		return "Bool"
	default:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
}

func elemSort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpLin // sum of Coef[i]*Args[i] + Val
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // Lo=Val, width from sort
	OpZext
	OpSext
	OpConcat
	OpSelect
	OpStore
	OpTable // constant table Name indexed by Args[0]
	OpApp   // uninterpreted function
	OpForall
)

type Term struct {
	Op   Op
	S    Sort
	Args []*Term
	Coef []uint64
	Val  uint64
	Name string
	ID   int
	// Size of the dag is not tracked.
}

var (
	table  = map[string]*Term{}
	nextID int
	// Tables holds the contents of constant tables by name.
	Tables = map[string]*TableDef{}
	True   = mk(&Term{Op: OpConst, S: Bool, Val: 1})
	False  = mk(&Term{Op: OpConst, S: Bool, Val: 0})
)

type TableDef struct {
	Name string
	W    int
	Vals []uint64
}

func mk(t *Term) *Term {
	var b strings.Builder
	var buf [20]byte
	w := func(x uint64) {
		n := len(buf)
		for {
			n--
			buf[n] = "0123456789abcdef"[x&15]
			x >>= 4
			if x == 0 {
				break
			}
		}
		b.Write(buf[n:])
		b.WriteByte(',')
	}
	b.WriteByte(byte(t.Op) + 32)
	w(uint64(t.S.W))
	if t.S.Arr {
		b.WriteByte('A')
	}
	w(t.Val)
	b.WriteString(t.Name)
	b.WriteByte('|')
	for _, a := range t.Args {
		w(uint64(a.ID))
	}
	for _, c := range t.Coef {
		w(c)
	}
	k := b.String()
	if o, ok := table[k]; ok {
		return o
	}
	nextID++
	t.ID = nextID
	table[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func SignExt(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func Const(w int, v uint64) *Term {
	return mk(&Term{Op: OpConst, S: BV(w), Val: v & mask(w)})
}
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Var(name string, s Sort) *Term { return mk(&Term{Op: OpVar, S: s, Name: name}) }

var freshN int

func Fresh(name string, s Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s!%d", name, freshN), s)
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == OpNot:
		return a.Args[0]
	}
	return mk(&Term{Op: OpNot, S: Bool, Args: []*Term{a}})
}

func flat(op Op, as []*Term, out map[*Term]bool, list *[]*Term) {
	for _, a := range as {
		if a.Op == op {
			flat(op, a.Args, out, list)
			continue
		}
		if !out[a] {
			out[a] = true
			*list = append(*list, a)
		}
	}
}

func And(as ...*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	flat(OpAnd, as, set, &l)
	var r []*Term
	for _, a := range l {
		if a == False {
			return False
		}
		if a == True {
			continue
		}
		if set[Not(a)] {
			return False
		}
		r = append(r, a)
	}
	// absorb: drop (or ... x ...) when x present; shrink (or ... (not x) ...)
	for i := 0; i < len(r); i++ {
		a := r[i]
		if a.Op != OpOr {
			continue
		}
		drop := false
		changed := false
		var rest []*Term
		for _, d := range a.Args {
			if set[d] {
				drop = true
				break
			}
			if set[Not(d)] {
				changed = true
				continue
			}
			rest = append(rest, d)
		}
		if drop {
			r = append(r[:i:i], r[i+1:]...)
			i--
		} else if changed {
			n := append(append([]*Term{}, r[:i]...), r[i+1:]...)
			n = append(n, Or(rest...))
			return And(n...)
		}
	}
	if len(r) == 0 {
		return True
	}
	if len(r) == 1 {
		return r[0]
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return mk(&Term{Op: OpAnd, S: Bool, Args: r})
}

func conj(a *Term) []*Term {
	if a.Op == OpAnd {
		return a.Args
	}
	return []*Term{a}
}

func Or(as ...*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	flat(OpOr, as, set, &l)
	var r []*Term
	for _, a := range l {
		if a == True {
			return True
		}
		if a == False {
			continue
		}
		if set[Not(a)] {
			return True
		}
		r = append(r, a)
	}
	if len(r) == 0 {
		return False
	}
	if len(r) == 1 {
		return r[0]
	}
	// factor common conjuncts
	common := map[*Term]bool{}
	for _, c := range conj(r[0]) {
		common[c] = true
	}
	for _, a := range r[1:] {
		here := map[*Term]bool{}
		for _, c := range conj(a) {
			here[c] = true
		}
		for c := range common {
			if !here[c] {
				delete(common, c)
			}
		}
	}
	if len(common) > 0 {
		var cs []*Term
		for c := range common {
			cs = append(cs, c)
		}
		var rests []*Term
		for _, a := range r {
			var rest []*Term
			for _, c := range conj(a) {
				if !common[c] {
					rest = append(rest, c)
				}
			}
			rests = append(rests, And(rest...))
		}
		return And(append(cs, Or(rests...))...)
	}
	// or(a, and(not a, b)) -> or(a, b)
	for i, a := range r {
		if a.Op != OpAnd {
			continue
		}
		var rest []*Term
		ch := false
		for _, c := range a.Args {
			if set[Not(c)] {
				ch = true
				continue
			}
			rest = append(rest, c)
		}
		if ch {
			n := append(append([]*Term{}, r[:i]...), r[i+1:]...)
			return Or(append(n, And(rest...))...)
		}
		for _, c := range a.Args {
			if set[c] { // absorbed
				n := append(append([]*Term{}, r[:i]...), r[i+1:]...)
				return Or(n...)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return mk(&Term{Op: OpOr, S: Bool, Args: r})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %v %v", a.S, b.S))
	}
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	case c.Op == OpNot:
		return Ite(c.Args[0], b, a)
	}
	if a.S.IsBool() {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.Op == OpIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if b.Op == OpIte && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	return mk(&Term{Op: OpIte, S: a.S, Args: []*Term{c, a, b}})
}

func isIteConst(t *Term, depth int) bool {
	if t.Op == OpConst {
		return true
	}
	if t.Op != OpIte || depth == 0 {
		return false
	}
	return isIteConst(t.Args[1], depth-1) && isIteConst(t.Args[2], depth-1)
}

func Eq(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %v %v: %v = %v", a.S, b.S, a, b))
	}
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return BoolC(a.Val == b.Val)
	}
	if a.S.IsBool() {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		case a == Not(b):
			return False
		}
	}
	if b.IsConst() && !a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if isIteConst(b, 12) {
			return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
		}
		switch b.Op {
		case OpIte:
			if b.Args[1].IsConst() || b.Args[2].IsConst() {
				return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
			}
		case OpZext:
			in := b.Args[0]
			if a.Val > mask(in.S.W) {
				return False
			}
			return Eq(Const(in.S.W, a.Val), in)
		}
	}
	if !a.S.IsBool() && !a.S.Arr && a.S.W > 1 && (a.Op == OpLin || b.Op == OpLin) {
		// normalise: cancel common addends
		d := Sub(a, b)
		if d.IsConst() {
			return BoolC(d.Val == 0)
		}
		if d.Op == OpLin && len(d.Args) == 1 && d.Coef[0] == 1 {
			x, y := d.Args[0], Const(a.S.W, -d.Val)
			return mkEq(x, y)
		}
		if d.Op == OpLin && len(d.Args) == 1 && d.Coef[0] == mask(a.S.W) {
			return mkEq(d.Args[0], Const(a.S.W, d.Val))
		}
		if d.Op == OpLin {
			// put positive-coefficient addends left, negative right
			var l, r []*Term
			l0, r0 := uint64(0), uint64(0)
			for i, x := range d.Args {
				c := d.Coef[i]
				if int64(SignExt(c, a.S.W)) > 0 {
					l = append(l, lin1(x, c))
				} else {
					r = append(r, lin1(x, -c))
				}
			}
			if int64(SignExt(d.Val, a.S.W)) >= 0 {
				l0 = d.Val
			} else {
				r0 = -d.Val
			}
			w := a.S.W
			return mkEq(Add(append(l, Const(w, l0))...), Add(append(r, Const(w, r0))...))
		}
	}
	return mkEq(a, b)
}

func lin1(x *Term, c uint64) *Term { return linear(x.S.W, map[*Term]uint64{x: c}, 0) }

func mkEq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: OpEq, S: Bool, Args: []*Term{a, b}})
}

func addLin(t *Term, k uint64, m map[*Term]uint64, c *uint64) {
	switch t.Op {
	case OpConst:
		*c += k * t.Val
	case OpLin:
		for i, a := range t.Args {
			m[a] += k * t.Coef[i]
		}
		*c += k * t.Val
	default:
		m[t] += k
	}
}

func linear(w int, m map[*Term]uint64, c uint64) *Term {
	var ts []*Term
	for t, k := range m {
		if k&mask(w) != 0 {
			ts = append(ts, t)
		}
	}
	c &= mask(w)
	if len(ts) == 0 {
		return Const(w, c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && m[ts[0]]&mask(w) == 1 && c == 0 {
		return ts[0]
	}
	co := make([]uint64, len(ts))
	for i, t := range ts {
		co[i] = m[t] & mask(w)
	}
	return mk(&Term{Op: OpLin, S: BV(w), Args: ts, Coef: co, Val: c})
}

func Add(as ...*Term) *Term {
	m := map[*Term]uint64{}
	var c uint64
	w := as[0].S.W
	for _, a := range as {
		if a.S.W != w {
			panic("add widths")
		}
		addLin(a, 1, m, &c)
	}
	return linear(w, m, c)
}

func Sub(a, b *Term) *Term {
	m := map[*Term]uint64{}
	var c uint64
	addLin(a, 1, m, &c)
	addLin(b, ^uint64(0), m, &c)
	return linear(a.S.W, m, c)
}
func Neg(a *Term) *Term { return Sub(Const(a.S.W, 0), a) }

func Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		m := map[*Term]uint64{}
		var c uint64
		addLin(b, a.Val, m, &c)
		return linear(a.S.W, m, c)
	}
	return bin(OpMul, a, b)
}

func bin(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("bin %d sorts %v %v", op, a.S, b.S))
	}
	if a.IsConst() && b.IsConst() {
		v, ok := evalBin(op, a.S.W, a.Val, b.Val)
		if ok {
			return Const(a.S.W, v)
		}
	}
	return mk(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}

func evalBin(op Op, w int, x, y uint64) (uint64, bool) {
	sx, sy := SignExt(x, w), SignExt(y, w)
	var v uint64
	switch op {
	case OpMul:
		v = x * y
	case OpUdiv:
		if y == 0 {
			v = mask(w)
		} else {
			v = x / y
		}
	case OpUrem:
		if y == 0 {
			v = x
		} else {
			v = x % y
		}
	case OpSdiv:
		if y == 0 {
			if sx < 0 {
				v = 1
			} else {
				v = mask(w)
			}
		} else if sy == -1 {
			v = uint64(-sx)
		} else {
			v = uint64(sx / sy)
		}
	case OpSrem:
		if y == 0 {
			v = x
		} else if sy == -1 {
			v = 0
		} else {
			v = uint64(sx % sy)
		}
	case OpBAnd:
		v = x & y
	case OpBOr:
		v = x | y
	case OpBXor:
		v = x ^ y
	case OpShl:
		if y >= uint64(w) {
			v = 0
		} else {
			v = x << y
		}
	case OpLshr:
		if y >= uint64(w) {
			v = 0
		} else {
			v = x >> y
		}
	case OpAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		v = uint64(sx >> y)
	default:
		return 0, false
	}
	return v & mask(w), true
}

func Bin(op Op, a, b *Term) *Term {
	w := a.S.W
	switch op {
	case OpMul:
		return Mul(a, b)
	case OpBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == mask(w) {
				return a
			}
			if a.Op == OpBAnd && a.Args[1].IsConst() {
				return Bin(OpBAnd, a.Args[0], Const(w, a.Args[1].Val&b.Val))
			}
			if isIteConst(a, 12) && !a.IsConst() {
				return Ite(a.Args[0], Bin(op, a.Args[1], b), Bin(op, a.Args[2], b))
			}
		}
	case OpBOr, OpBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
	case OpShl:
		if b.IsConst() {
			if b.Val >= uint64(w) {
				return Const(w, 0)
			}
			return Mul(Const(w, 1<<b.Val), a)
		}
	case OpLshr, OpAshr:
		if b.IsConst() && b.Val == 0 {
			return a
		}
	}
	return bin(op, a, b)
}

func Cmp(op Op, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("cmp sorts %v %v", a.S, b.S))
	}
	w := a.S.W
	if a == b {
		return BoolC(op == OpUle || op == OpSle)
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OpUlt:
			return BoolC(a.Val < b.Val)
		case OpUle:
			return BoolC(a.Val <= b.Val)
		case OpSlt:
			return BoolC(SignExt(a.Val, w) < SignExt(b.Val, w))
		case OpSle:
			return BoolC(SignExt(a.Val, w) <= SignExt(b.Val, w))
		}
	}
	if b.IsConst() && isIteConst(a, 12) {
		return Ite(a.Args[0], Cmp(op, a.Args[1], b), Cmp(op, a.Args[2], b))
	}
	if a.IsConst() && isIteConst(b, 12) {
		return Ite(b.Args[0], Cmp(op, a, b.Args[1]), Cmp(op, a, b.Args[2]))
	}
	switch op {
	case OpUle:
		return Not(Cmp(OpUlt, b, a))
	case OpSle:
		return Not(Cmp(OpSlt, b, a))
	case OpUlt:
		if b.IsConst() && b.Val == 0 {
			return False
		}
	}
	// unsigned compare of zero-extended value with a constant
	if op == OpUlt || op == OpSlt {
		if b.IsConst() && a.Op == OpZext && a.Args[0].S.W < w {
			if op == OpUlt || SignExt(b.Val, w) >= 0 {
				if b.Val > mask(a.Args[0].S.W) {
					return True
				}
				return Cmp(OpUlt, a.Args[0], Const(a.Args[0].S.W, b.Val))
			}
			return False
		}
		if a.IsConst() && b.Op == OpZext && b.Args[0].S.W < w {
			if op == OpUlt || SignExt(a.Val, w) >= 0 {
				if a.Val >= mask(b.Args[0].S.W) {
					return False
				}
				return Cmp(OpUlt, Const(b.Args[0].S.W, a.Val), b.Args[0])
			}
			return True
		}
	}
	return mk(&Term{Op: op, S: Bool, Args: []*Term{a, b}})
}

func Ult(a, b *Term) *Term { return Cmp(OpUlt, a, b) }
func Ule(a, b *Term) *Term { return Cmp(OpUle, a, b) }
func Slt(a, b *Term) *Term { return Cmp(OpSlt, a, b) }
func Sle(a, b *Term) *Term { return Cmp(OpSle, a, b) }

func Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.S.W {
		return a
	}
	if a.IsConst() {
		return Const(w, a.Val>>uint(lo))
	}
	if isIteConst(a, 12) {
		return Ite(a.Args[0], Extract(a.Args[1], lo, w), Extract(a.Args[2], lo, w))
	}
	if a.Op == OpZext {
		in := a.Args[0]
		if lo == 0 && w <= in.S.W {
			return Extract(in, 0, w)
		}
		if lo == 0 && w > in.S.W {
			return Zext(in, w)
		}
		if lo >= in.S.W {
			return Const(w, 0)
		}
	}
	return mk(&Term{Op: OpExtract, S: BV(w), Args: []*Term{a}, Val: uint64(lo)})
}

func Zext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.IsConst() {
		return Const(w, a.Val)
	}
	if a.Op == OpZext {
		return Zext(a.Args[0], w)
	}
	if isIteConst(a, 12) {
		return Ite(a.Args[0], Zext(a.Args[1], w), Zext(a.Args[2], w))
	}
	return mk(&Term{Op: OpZext, S: BV(w), Args: []*Term{a}})
}

func Sext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.IsConst() {
		return Const(w, uint64(SignExt(a.Val, a.S.W)))
	}
	if a.Op == OpZext {
		return Zext(a.Args[0], w)
	}
	return mk(&Term{Op: OpSext, S: BV(w), Args: []*Term{a}})
}

func Concat(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.S.W+b.S.W, a.Val<<uint(b.S.W)|b.Val)
	}
	return mk(&Term{Op: OpConcat, S: BV(a.S.W + b.S.W), Args: []*Term{a, b}})
}

func Select(a, i *Term) *Term {
	if a.Op == OpStore {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			return Select(a.Args[0], i)
		}
	}
	if a.Op == OpIte || a.Op == OpApp && a.Name == mixName || a.Op == OpStore && mixed(a) {
		k := [2]*Term{a, i}
		r := selMemo[k]
		if r != nil {
			return r
		}
		switch a.Op {
		case OpIte:
			r = Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		case OpStore:
			r = Ite(Eq(a.Args[1], i), a.Args[2], Select(a.Args[0], i))
		default:
			lo, hi := a.Args[2], a.Args[3]
			in := And(Sle(lo, i), Slt(i, hi))
			switch {
			case in.IsTrue():
				r = Select(a.Args[1], Add(Sub(i, lo), a.Args[4]))
			case in.IsFalse():
				r = Select(a.Args[0], i)
			default:
				r = Ite(in, Select(a.Args[1], Add(Sub(i, lo), a.Args[4])), Select(a.Args[0], i))
			}
		}
		selMemo[k] = r
		return r
	}
	if a.Op == OpApp && a.Name == sameName {
		return a.Args[0]
	}
	s := BV(a.S.W)
	if a.S.W == 0 {
		s = Bool
	}
	return mk(&Term{Op: OpSelect, S: s, Args: []*Term{a, i}})
}

const (
	mixName  = "region.mix"
	sameName = "region.same"
)

var (
	selMemo = map[[2]*Term]*Term{}
	mixMemo = map[*Term]bool{}
)

// Mix is array a with b[off:off+hi-lo] at lo up to hi.
func Mix(a, b, lo, hi, off *Term) *Term { return App(mixName, a.S, a, b, lo, hi, off) }

// Same is an array that holds v everywhere.
func Same(v *Term) *Term { return App(sameName, Arr(v.S.W), v) }

// mixed: an array under the stores is a Mix.
func mixed(a *Term) bool {
	switch {
	case a.Op == OpApp:
		return a.Name == mixName || a.Name == sameName
	case a.Op != OpStore && a.Op != OpIte:
		return false
	}
	r, ok := mixMemo[a]
	if ok {
		return r
	}
	if a.Op == OpStore {
		r = mixed(a.Args[0])
	} else {
		r = mixed(a.Args[1]) || mixed(a.Args[2])
	}
	mixMemo[a] = r
	return r
}

func Store(a, i, v *Term) *Term {
	if a.Op == OpStore && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk(&Term{Op: OpStore, S: a.S, Args: []*Term{a, i, v}})
}

// Table is an entry of a constant table.
func Table(name string, i *Term) *Term {
	d := Tables[name]
	if i.IsConst() && i.Val < uint64(len(d.Vals)) {
		if d.W == 0 {
			return BoolC(d.Vals[i.Val] != 0)
		}
		return Const(d.W, d.Vals[i.Val])
	}
	s := BV(d.W)
	if d.W == 0 {
		s = Bool
	}
	return mk(&Term{Op: OpTable, S: s, Name: name, Args: []*Term{i}})
}

// App applies an uninterpreted function.
func App(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{Op: OpApp, S: s, Name: name, Args: args})
}

// Forall quantifies v (a variable) over body.
func Forall(vs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	return mk(&Term{Op: OpForall, S: Bool, Args: append([]*Term{body}, vs...)})
}

// Subst replaces variables (or any sub-terms) by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return NewSubst(m).Do(t)
}

type Substitution struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func NewSubst(m map[*Term]*Term) *Substitution {
	return &Substitution{m, map[*Term]*Term{}}
}

func (s *Substitution) Do(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		as[i] = s.Do(a)
		same = same && as[i] == a
	}
	r := t
	if !same {
		r = Rebuild(t, as)
	}
	s.memo[t] = r
	return r
}

// Rebuild makes a term like t with other arguments, simplifying.
func Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OpNot:
		return Not(as[0])
	case OpAnd:
		return And(as...)
	case OpOr:
		return Or(as...)
	case OpIte:
		return Ite(as[0], as[1], as[2])
	case OpEq:
		return Eq(as[0], as[1])
	case OpLin:
		m := map[*Term]uint64{}
		c := t.Val
		for i, a := range as {
			addLin(a, t.Coef[i], m, &c)
		}
		return linear(t.S.W, m, c)
	case OpMul, OpUdiv, OpUrem, OpSdiv, OpSrem, OpBAnd, OpBOr, OpBXor, OpShl, OpLshr, OpAshr:
		return Bin(t.Op, as[0], as[1])
	case OpUlt, OpUle, OpSlt, OpSle:
		return Cmp(t.Op, as[0], as[1])
	case OpExtract:
		return Extract(as[0], int(t.Val), t.S.W)
	case OpZext:
		return Zext(as[0], t.S.W)
	case OpSext:
		return Sext(as[0], t.S.W)
	case OpConcat:
		return Concat(as[0], as[1])
	case OpSelect:
		return Select(as[0], as[1])
	case OpStore:
		return Store(as[0], as[1], as[2])
	case OpTable:
		return Table(t.Name, as[0])
	case OpApp:
		return App(t.Name, t.S, as...)
	case OpForall:
		return Forall(as[1:], as[0])
	}
	panic("rebuild")
}

// Walk visits every distinct sub-term once, children first.
func Walk(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

func Size(ts ...*Term) int {
	n := 0
	Walk(ts, func(*Term) { n++ })
	return n
}

func (t *Term) String() string {
	s := t.str(6)
	return s
}

func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		if t.S.IsBool() {
			return fmt.Sprint(t.Val == 1)
		}
		return fmt.Sprintf("%d", SignExt(t.Val, t.S.W))
	case OpVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(%s", opName[t.Op])
	if t.Name != "" {
		b.WriteString(" " + t.Name)
	}
	for i, a := range t.Args {
		b.WriteByte(' ')
		if t.Op == OpLin && t.Coef[i] != 1 {
			fmt.Fprintf(&b, "%d*", SignExt(t.Coef[i], t.S.W))
		}
		b.WriteString(a.str(d - 1))
	}
	if t.Op == OpLin && t.Val != 0 {
		fmt.Fprintf(&b, " %d", SignExt(t.Val, t.S.W))
	}
	b.WriteByte(')')
	return b.String()
}

var opName = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpLin: "+",
	OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpExtract: "extract", OpZext: "zext", OpSext: "sext",
	OpConcat: "concat", OpSelect: "select", OpStore: "store", OpTable: "table", OpApp: "app", OpForall: "forall"}

var _ = bits.Len64
