package check

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/spec"
	"gover/sym"
	"gover/term"
)

// lookupSum is what is known of LookupFirstChar.
type lookupSum struct {
	fn     *ssa.Function
	con    *contract.Func
	y      *Sys
	props  *term.Term // result terms over the argument
	length *term.Term
	done   *term.Term              // guards of all outcomes
	pairs  map[uint8]map[uint8]int // class -> stored value -> a scalar value showing it
	byCP   []uint16                // stored value of each scalar value, 0x100 for none
	canon  []*Item
}

func (s *Subject) lookupFn() *ssa.Function { return s.P.Func(cpPkg, "LookupFirstChar") }

// lookup summarises LookupFirstChar from its source.
func (s *Subject) lookup() (*lookupSum, error) {
	fn := s.lookupFn()
	if fn == nil {
		return nil, fmt.Errorf("no LookupFirstChar")
	}
	if l := s.lookups[fn]; l != nil {
		return l, nil
	}
	l := &lookupSum{fn: fn, con: s.Con.Lookup("textseg/internal/charprops", "LookupFirstChar")}
	if l.con == nil {
		return nil, fmt.Errorf("no contract for LookupFirstChar")
	}
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		return nil, fmt.Errorf("LookupFirstChar has another signature")
	}
	l.y = s.execFn(fn, []string{"p"}, nil)
	if len(l.y.Outs) == 0 {
		return nil, fmt.Errorf("LookupFirstChar never returns")
	}
	var gs []*term.Term
	for i := len(l.y.Outs) - 1; i >= 0; i-- {
		o := l.y.Outs[i]
		pr, ok1 := o.Res[0].(*term.Term)
		ln, ok2 := o.Res[1].(*term.Term)
		if !ok1 || !ok2 || pr.S != term.BV(8) || ln.S != term.BV(64) {
			return nil, fmt.Errorf("LookupFirstChar does not return (byte, int)")
		}
		gs = append(gs, o.G)
		if l.props == nil {
			l.props, l.length = pr, ln
			continue
		}
		l.props, l.length = term.Ite(o.G, pr, l.props), term.Ite(o.G, ln, l.length)
	}
	l.done = term.Or(gs...)
	s.lookups[fn] = l
	return l, nil
}

func encode(c int) []byte { return []byte(string(rune(c))) }

// tabulate evaluates the summary on every scalar value.
func (s *Subject) tabulate(l *lookupSum) error {
	if l.byCP != nil {
		return nil
	}
	if len(l.y.Loops) > 0 {
		return fmt.Errorf("LookupFirstChar has an unbounded loop")
	}
	arg := l.y.Args[0].(*sym.SliceV)
	arr, _ := content(arg)
	p := term.Compile(l.props, l.length, l.done)
	var cur []byte
	env := &term.Env{Vars: map[*term.Term]uint64{}, Arr: func(a *term.Term, i uint64) uint64 {
		if a == arr && i < uint64(len(cur)) {
			return uint64(cur[i])
		}
		return 0
	}}
	for _, t := range []*term.Term{arg.Nil} {
		env.Vars[t] = 0
	}
	l.byCP = make([]uint16, 0x110000)
	l.pairs = map[uint8]map[uint8]int{}
	for c := range l.byCP {
		if !isScalar(c) {
			l.byCP[c] = 0x100
			continue
		}
		cur = encode(c)
		env.Vars[arg.Len] = uint64(len(cur))
		env.Vars[arg.Cap] = uint64(len(cur))
		p.Run(env)
		v := uint16(p.Out(0))
		if p.Out(2) == 0 || p.Out(1) != uint64(len(cur)) {
			v = 0x100
		}
		l.byCP[c] = v
		if v < 0x100 {
			m := l.pairs[s.classes[c]]
			if m == nil {
				m = map[uint8]int{}
				l.pairs[s.classes[c]] = m
			}
			if _, ok := m[uint8(v)]; !ok {
				m[uint8(v)] = c
			}
		}
	}
	return nil
}

// canonical proves that the results on a valid character depend on its bytes
// alone, so that evaluating each character by itself covers every buffer.
func (s *Subject) canonical(r *Report, l *lookupSum) {
	arg := l.y.Args[0].(*sym.SliceV)
	arr, _ := content(arg)
	b := bytesAt(arg, c64(0))
	for k := 1; k <= 4; k++ {
		m := map[*term.Term]*term.Term{arg.Len: c64(int64(k)), arg.Cap: c64(int64(k)), arg.Nil: term.False}
		ar := term.Var("p.zeros", term.Arr(8))
		for i := 0; i < k; i++ {
			ar = term.Store(ar, c64(int64(i)), b[i])
		}
		m[arr] = ar
		pr, ln, dn := term.Subst(l.props, m), term.Subst(l.length, m), term.Subst(l.done, m)
		cl := s.specT("CharLen", b[0], b[1], b[2], b[3], arg.Len)
		h := append([]*term.Term{}, l.y.Facts...)
		for _, f := range l.y.Facts {
			h = append(h, term.Subst(f, m))
		}
		it := r.prove(l.fn.String(), "frame", fmt.Sprintf("the result for a valid %d-byte character depends on those bytes only", k), "",
			prove.VC{Hyps: h, Guard: term.And(term.Eq(cl, c64(int64(k))), l.done), Goal: term.And(dn, term.Eq(pr, l.props), term.Eq(ln, l.length))}, prove.Default)
		l.y.seed(it)
	}
}

// represents relates a stored value and a Unicode class.
func (l *lookupSum) represents(props, cls *term.Term) *term.Term {
	var or []*term.Term
	for _, c := range sortedU8(l.pairs) {
		var vs []*term.Term
		for _, v := range sortedU8(l.pairs[c]) {
			vs = append(vs, term.Eq(props, term.Const(8, uint64(v))))
		}
		or = append(or, term.And(term.Eq(cls, term.Const(8, uint64(c))), term.Or(vs...)))
	}
	return term.Or(or...)
}

func sortedU8[V any](m map[uint8]V) []uint8 {
	var r []uint8
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// classOf is what a stored value says through GCBProperty and InCBProperty, as
// a Unicode class; 0xff where it says nothing Unicode has.
func (s *Subject) classOf() ([]uint8, error) {
	if s.alpha != nil {
		return s.alpha, nil
	}
	gf, inf := s.P.Func(cpPkg, "CharProperties.GCBProperty"), s.P.Func(cpPkg, "CharProperties.InCBProperty")
	if gf == nil || inf == nil {
		return nil, fmt.Errorf("no GCBProperty or InCBProperty")
	}
	v := term.Var("alpha.v", term.BV(8))
	g, err := s.W.Pure(gf, v)
	if err != nil {
		return nil, err
	}
	in, err := s.W.Pure(inf, v)
	if err != nil {
		return nil, err
	}
	gt, ok1 := g[0].(*term.Term)
	it, ok2 := in[0].(*term.Term)
	if !ok1 || !ok2 {
		return nil, fmt.Errorf("properties are not scalars")
	}
	gn, err := s.constMap(gcbNames)
	if err != nil {
		return nil, err
	}
	inn, err := s.constMap(incbNames)
	if err != nil {
		return nil, err
	}
	p := term.Compile(gt, it)
	a := make([]uint8, 256)
	for k := 0; k < 256; k++ {
		p.Run(&term.Env{Vars: map[*term.Term]uint64{v: uint64(k)}})
		x, okx := gn[p.Out(0)]
		y, oky := inn[p.Out(1)]
		if okx && oky {
			a[k] = x | y
		} else {
			a[k] = 0xff
		}
	}
	s.alpha = a
	return a, nil
}

var gcbNames = map[string]uint8{
	"GCBNone": spec.Other, "GCBCR": spec.CR, "GCBLF": spec.LF, "GCBControl": spec.Control, "GCBExtend": spec.Extend,
	"GCBZWJ": spec.ZWJ, "GCBRegionalIndicator": spec.RI, "GCBPrepend": spec.Prepend, "GCBSpacingMark": spec.SpacingMark,
	"GCBL": spec.L, "GCBV": spec.V, "GCBT": spec.T, "GCBLV": spec.LV, "GCBLVT": spec.LVT, "GCBExtendedPictographic": spec.ExtPict,
}
var incbNames = map[string]uint8{"InCBNone": 0, "InCBConsonant": spec.Consonant, "InCBExtend": spec.InExtend, "InCBLinker": spec.Linker}

func (s *Subject) constMap(names map[string]uint8) (map[uint64]uint8, error) {
	r := map[uint64]uint8{}
	for n, c := range names {
		v, ok := s.P.ConstInt(cpPkg, n)
		if !ok {
			return nil, fmt.Errorf("no constant %s", n)
		}
		if _, dup := r[uint64(v)]; dup {
			return nil, fmt.Errorf("constant %s is not distinct", n)
		}
		r[uint64(v)] = c
	}
	return r, nil
}

// lookupEnv evaluates the contract's clauses for an argument and results.
func (s *Subject) lookupEnv(l *lookupSum, arg *sym.SliceV, props, length sym.Value) *contract.Env {
	fn := l.fn
	res := fn.Signature.Results()
	e := s.env(fn.Pkg.Pkg, map[string]contract.TV{
		l.con.Params[0]:  {V: arg, Typ: fn.Params[0].Type()},
		l.con.Results[0]: {V: props, Typ: res.At(0).Type()},
		l.con.Results[1]: {V: length, Typ: res.At(1).Type()},
	})
	e.Extra["represents"] = func(e *contract.Env, a []contract.TV) (contract.TV, error) {
		if err := s.tabulate(l); err != nil {
			return contract.TV{}, err
		}
		sl, err := sliceArg(a[1])
		if err != nil {
			return contract.TV{}, err
		}
		_, c := s.charAt(sl, c64(0), sl.Len)
		return contract.TV{V: l.represents(a[0].V.(*term.Term), c), Typ: tBool}, nil
	}
	e.Extra["classof"] = func(e *contract.Env, a []contract.TV) (contract.TV, error) {
		al, err := s.classOf()
		if err != nil {
			return contract.TV{}, err
		}
		if _, ok := term.Tables["classof"]; !ok {
			d := &term.TableDef{Name: "classof", W: 8}
			for _, c := range al {
				d.Vals = append(d.Vals, uint64(c))
			}
			term.Tables["classof"] = d
		}
		return contract.TV{V: term.Table("classof", term.Zext(a[0].V.(*term.Term), 64)), Typ: tByte}, nil
	}
	return e
}

// lookupHook replaces calls of LookupFirstChar by its contract.
func (s *Subject) lookupHook(l *lookupSum, tag string, sites *[]*Site, errs *[]error) func(c *sym.Call) ([]sym.Outcome, bool) {
	return func(c *sym.Call) ([]sym.Outcome, bool) {
		if c.Fn != l.fn {
			return nil, false
		}
		arg, ok := c.Args[0].(*sym.SliceV)
		if !ok {
			return nil, false
		}
		res := l.fn.Signature.Results()
		pr, err1 := sym.FreshVal("props", res.At(0).Type())
		ln, err2 := sym.FreshVal("length", res.At(1).Type())
		if err1 != nil || err2 != nil {
			return nil, false
		}
		e := s.lookupEnv(l, arg, pr, ln)
		for _, cl := range l.con.Clauses {
			if !cl.Has(tag) || cl.Kind != "ensures" {
				continue
			}
			t, err := e.Bool(cl.Expr)
			if err != nil {
				*errs = append(*errs, fmt.Errorf("contract line %d: %v", cl.Line, err))
				continue
			}
			c.X.Assume(term.Implies(c.St.G, t))
		}
		*sites = append(*sites, &Site{Fn: l.fn, Args: c.Args, Res: []sym.Value{pr, ln}, G: c.St.G, Src: c.St.Src})
		return []sym.Outcome{{G: c.St.G, Res: []sym.Value{pr, ln}, Mem: c.St.Mem, Src: c.St.Src}}, true
	}
}

// proveLookup discharges the clauses of LookupFirstChar's contract for a property.
func (s *Subject) proveLookup(r *Report, l *lookupSum, tag string) {
	r.Functions[l.fn.String()] = "contract"
	l.y.numeric()
	l.y.houdini(nil)
	l.y.recheck(r, nil)
	l.y.safety(r, "frame", "unsupported")
	for _, cl := range l.con.Clauses {
		if !cl.Has(tag) || cl.Kind != "ensures" {
			continue
		}
		if uses(cl.Text, "represents", "classof") {
			s.proveByClass(r, l, cl, tag)
			continue
		}
		for i, o := range l.y.Outs {
			e := s.lookupEnv(l, l.y.Args[0].(*sym.SliceV), o.Res[0], o.Res[1])
			t, err := e.Bool(cl.Expr)
			if err != nil {
				r.fail(l.fn.String(), "post", cl.Text, err.Error())
				continue
			}
			nm := cl.Text
			if len(l.y.Outs) > 1 {
				nm += fmt.Sprintf(" (return %d)", i+1)
			}
			it := r.prove(l.fn.String(), "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: l.y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
			if it.model != nil {
				if b, ok := modelBytes(it.model, l.y.Args[0].(*sym.SliceV)); ok {
					it.seeds = append(it.seeds, b)
				}
			}
		}
	}
}

// proveByClass settles a clause about the class of the character by evaluating
// the function's summary on every scalar value.
func (s *Subject) proveByClass(r *Report, l *lookupSum, cl *contract.Clause, tag string) {
	t0 := time.Now()
	if err := s.tabulate(l); err != nil {
		r.fail(l.fn.String(), "post", cl.Text, err.Error())
		return
	}
	al, err := s.classOf()
	if err != nil {
		r.fail(l.fn.String(), "post", cl.Text, err.Error())
		return
	}
	bad, n := 0, 0
	var first []int
	for c, v := range l.byCP {
		if !isScalar(c) {
			continue
		}
		n++
		wrong := v >= 0x100
		if uses(cl.Text, "classof") && !wrong {
			wrong = al[v] != s.classes[c]
		}
		if wrong {
			if bad++; len(first) < 40 {
				first = append(first, c)
			}
		}
	}
	it := &Item{Func: l.fn.String(), Kind: "post", Name: cl.Text, Status: "proved", Backend: "evaluation of every scalar value", Seconds: time.Since(t0).Seconds(), Count: 1}
	it.Detail = fmt.Sprintf("%d scalar values", n)
	if bad > 0 {
		it.Status = "failed"
		it.Detail = fmt.Sprintf("%d of %d scalar values, first U+%04X", bad, n, first[0])
		for _, c := range first {
			it.seeds = append(it.seeds, encode(c))
		}
	}
	r.add(it)
	r.Extra["scalar_values_evaluated"] = n
}

// modelBytes is the buffer a counterexample describes.
func modelBytes(m map[*term.Term]uint64, sl *sym.SliceV) ([]byte, bool) {
	arr, ok := content(sl)
	if !ok {
		return nil, false
	}
	n, have := uint64(0), false
	if sl.Len.IsConst() {
		n, have = sl.Len.Val, true
	} else if v, ok := m[sl.Len]; ok {
		n, have = v, true
	}
	if !have {
		n = 8
	}
	if n > 4096 {
		n = 4096
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	var envRun = func(t *term.Term) (uint64, bool) {
		p := term.Compile(t)
		okv := true
		e := &term.Env{Vars: m, Arr: func(*term.Term, uint64) uint64 { okv = false; return 0 }, Fun: func(*term.Term, []uint64) uint64 { okv = false; return 0 }}
		p.Run(e)
		return p.Out(0), okv
	}
	for t, v := range m {
		if t.Op == term.OpSelect && t.Args[0] == arr {
			if i, ok := envRun(t.Args[1]); ok && i < n {
				b[i] = byte(v)
			}
		}
	}
	return b, true
}
