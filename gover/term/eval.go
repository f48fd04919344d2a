package term

// Env gives values to variables, arrays and uninterpreted functions.
type Env struct {
	Vars map[*Term]uint64
	Arr  func(arr *Term, idx uint64) uint64
	Fun  func(t *Term, args []uint64) uint64
}

// Prog is a term compiled for repeated evaluation.
type Prog struct {
	order []*Term
	pos   map[*Term]int
	args  [][]int
	vals  []uint64
	outs  []int
}

func Compile(outs ...*Term) *Prog {
	p := &Prog{pos: map[*Term]int{}}
	Walk(outs, func(t *Term) {
		if t.S.Arr && t.Op == OpVar {
			return
		}
		p.pos[t] = len(p.order)
		p.order = append(p.order, t)
	})
	p.vals = make([]uint64, len(p.order))
	p.args = make([][]int, len(p.order))
	for i, t := range p.order {
		as := make([]int, len(t.Args))
		for j, a := range t.Args {
			if q, ok := p.pos[a]; ok {
				as[j] = q
			} else {
				as[j] = -1
			}
		}
		p.args[i] = as
	}
	for _, o := range outs {
		p.outs = append(p.outs, p.pos[o])
	}
	return p
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Run evaluates and returns the value of output i via p.Out(i).
func (p *Prog) Run(e *Env) {
	v := p.vals
	for i, t := range p.order {
		a := p.args[i]
		var r uint64
		switch t.Op {
		case OpConst:
			r = t.Val
		case OpVar:
			r = e.Vars[t]
		case OpNot:
			r = 1 - v[a[0]]
		case OpAnd:
			r = 1
			for _, x := range a {
				if v[x] == 0 {
					r = 0
					break
				}
			}
		case OpOr:
			for _, x := range a {
				if v[x] != 0 {
					r = 1
					break
				}
			}
		case OpIte:
			if v[a[0]] != 0 {
				r = v[a[1]]
			} else {
				r = v[a[2]]
			}
		case OpEq:
			r = b2u(v[a[0]] == v[a[1]])
		case OpLin:
			r = t.Val
			for j, x := range a {
				r += t.Coef[j] * v[x]
			}
			r &= mask(t.S.W)
		case OpUlt:
			r = b2u(v[a[0]] < v[a[1]])
		case OpUle:
			r = b2u(v[a[0]] <= v[a[1]])
		case OpSlt:
			w := t.Args[0].S.W
			r = b2u(SignExt(v[a[0]], w) < SignExt(v[a[1]], w))
		case OpSle:
			w := t.Args[0].S.W
			r = b2u(SignExt(v[a[0]], w) <= SignExt(v[a[1]], w))
		case OpExtract:
			r = v[a[0]] >> t.Val & mask(t.S.W)
		case OpZext:
			r = v[a[0]]
		case OpSext:
			r = uint64(SignExt(v[a[0]], t.Args[0].S.W)) & mask(t.S.W)
		case OpConcat:
			r = v[a[0]]<<uint(t.Args[1].S.W) | v[a[1]]
		case OpSelect:
			arr := t.Args[0]
			idx := v[a[1]]
			for arr.Op == OpStore {
				if v[p.pos[arr.Args[1]]] == idx {
					break
				}
				arr = arr.Args[0]
			}
			if arr.Op == OpStore {
				r = v[p.pos[arr.Args[2]]]
			} else if arr.Op == OpVar {
				r = e.Arr(arr, idx)
			} else {
				panic("eval: array term")
			}
		case OpStore:
		case OpTable:
			d := Tables[t.Name]
			if v[a[0]] < uint64(len(d.Vals)) {
				r = d.Vals[v[a[0]]]
			}
		case OpApp:
			as := make([]uint64, len(a))
			for j, x := range a {
				as[j] = v[x]
			}
			r = e.Fun(t, as)
		case OpForall:
			panic("eval: quantifier")
		default:
			r, _ = evalBin(t.Op, t.S.W, v[a[0]], v[a[1]])
		}
		v[i] = r
	}
}

func (p *Prog) Out(i int) uint64 { return p.vals[p.outs[i]] }
