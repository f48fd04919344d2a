// Package check decides the properties: it turns the contracts and the current
// source into obligations, discharges them, and reports.
package check

import (
	"bufio"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/spec"
	"gover/sym"
	"gover/term"
)

const (
	modPath = "github.com/apparentlymart/go-textseg/v17"
	scanPkg = modPath + "/textseg"
	cpPkg   = scanPkg + "/internal/charprops"
	macPkg  = scanPkg + "/internal/machine"
	autoMod = "github.com/apparentlymart/go-textseg/autoversion"
)

// Config says where things are.
type Config struct {
	Repo  string
	Verif string
	Tier  string
	Seed  int64
}

// Subject is the loaded code under verification.
type Subject struct {
	Cfg   Config
	P     *sym.Program
	W     *sym.World
	SpecP *sym.Program
	SpecW *sym.World
	Con   *contract.File

	classes []uint8 // Unicode class of each scalar value

	lookups map[*ssa.Function]*lookupSum
	alpha   []uint8
	autoPs  []*sym.Program
}

// Load reads the source and the contracts.
func Load(cfg Config) (*Subject, error) {
	s := &Subject{Cfg: cfg, lookups: map[*ssa.Function]*lookupSum{}}
	var err error
	if s.P, err = sym.Load(cfg.Repo, []string{"GOWORK=off"}, "./textseg/..."); err != nil {
		return nil, err
	}
	s.W = sym.NewWorld(s.P)
	if s.SpecP, err = sym.Load(filepath.Join(cfg.Verif, "gover"), []string{"GOWORK=off"}, "./spec"); err != nil {
		return nil, err
	}
	s.SpecW = sym.NewWorld(s.SpecP)
	if s.Con, err = contract.Parse(filepath.Join(cfg.Verif, "contracts", "textseg.go")); err != nil {
		return nil, err
	}
	s.classes, err = LoadClasses(filepath.Join(cfg.Verif, "data", "classes.txt"))
	markMutable(s.P, s.W)
	return s, err
}

// LoadClasses reads the Unicode data kept with the checks.
func LoadClasses(path string) ([]uint8, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r := make([]uint8, 0x110000)
	sc := bufio.NewScanner(f)
	n := 0
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "#") {
			continue
		}
		var a, b, c int
		if _, err := fmt.Sscanf(l, "%X %X %X", &a, &b, &c); err != nil {
			return nil, fmt.Errorf("%s: %q", path, l)
		}
		for i := a; i <= b; i++ {
			r[i] = uint8(c)
		}
		n++
	}
	if n < 1000 {
		return nil, fmt.Errorf("%s: only %d ranges", path, n)
	}
	return r, nil
}

func isScalar(c int) bool { return c < 0xd800 || c > 0xdfff && c <= 0x10ffff }

// spec calls a specification function symbolically.
func (s *Subject) spec(name string, args ...sym.Value) (sym.Value, error) {
	fn := s.SpecP.Func("gover/spec", name)
	if fn == nil {
		return nil, fmt.Errorf("no spec.%s", name)
	}
	r, err := s.SpecW.Pure(fn, args...)
	if err != nil {
		return nil, err
	}
	return r[0], nil
}

func (s *Subject) specT(name string, args ...sym.Value) *term.Term {
	v, err := s.spec(name, args...)
	if err != nil {
		panic(err)
	}
	return v.(*term.Term)
}

// content is the byte array a slice lies in.
func content(sl *sym.SliceV) (*term.Term, bool) {
	if sl.Obj == nil || len(sl.Path) != 0 {
		return nil, false
	}
	r, ok := sl.Obj.Init.(*sym.RegionV)
	if !ok {
		return nil, false
	}
	return r.Arr, true
}

// bytesAt are four bytes of a slice from index i.
func bytesAt(sl *sym.SliceV, i *term.Term) []*term.Term {
	arr, ok := content(sl)
	var r []*term.Term
	for k := 0; k < 4; k++ {
		if !ok {
			r = append(r, term.Fresh("nobyte", term.BV(8)))
			continue
		}
		r = append(r, term.Select(arr, term.Add(sl.Off, i, term.Const(64, uint64(k)))))
	}
	return r
}

func c64(n int64) *term.Term { return term.Const(64, uint64(n)) }

func sliceArg(a contract.TV) (*sym.SliceV, error) {
	sl, ok := a.V.(*sym.SliceV)
	if !ok {
		return nil, fmt.Errorf("not a slice")
	}
	return sl, nil
}

func intArg(a contract.TV) *term.Term {
	if a.K != nil {
		var n int64
		fmt.Sscan(a.K.ExactString(), &n)
		return c64(n)
	}
	return a.V.(*term.Term)
}

var tInt, tBool, tByte = types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.Uint8]

// charAt is (length of the valid character at i, its class) for n bytes there.
func (s *Subject) charAt(sl *sym.SliceV, i, n *term.Term) (ln, cls *term.Term) {
	b := bytesAt(sl, i)
	ln = s.specT("CharLen", b[0], b[1], b[2], b[3], n)
	return ln, s.classTerm(b)
}

// classTerm is the Unicode class of the character these bytes encode: an
// uninterpreted function of the scalar value, but known for ASCII.
func (s *Subject) classTerm(b []*term.Term) *term.Term {
	cp := s.specT("Decode", b[0], b[1], b[2], b[3], s.specT("Announced", b[0]))
	if _, ok := term.Tables["unicode.ascii"]; !ok {
		d := &term.TableDef{Name: "unicode.ascii", W: 8}
		for c := 0; c < 128; c++ {
			d.Vals = append(d.Vals, uint64(s.classes[c]))
		}
		term.Tables["unicode.ascii"] = d
	}
	return term.App("unicode.class", term.BV(8), cp)
}

// asciiFacts tie the uninterpreted class function to the data for ASCII.
func (s *Subject) asciiFacts(ts ...*term.Term) []*term.Term {
	var r []*term.Term
	seen := map[*term.Term]bool{}
	term.Walk(ts, func(t *term.Term) {
		if t.Op == term.OpApp && t.Name == "unicode.class" && !seen[t] {
			seen[t] = true
			cp := t.Args[0]
			var in []*term.Term
			// the ASCII classes are few: say which scalar values have each
			byClass := map[uint8][]int{}
			for c := 0; c < 128; c++ {
				byClass[s.classes[c]] = append(byClass[s.classes[c]], c)
			}
			for cl, cs := range byClass {
				var is []*term.Term
				if cl == 0 {
					continue
				}
				for _, c := range cs {
					is = append(is, term.Eq(cp, term.Const(32, uint64(c))))
				}
				in = append(in, is...)
				r = append(r, term.Implies(term.Or(is...), term.Eq(t, term.Const(8, uint64(cl)))))
			}
			r = append(r, term.Implies(term.And(term.Ult(cp, term.Const(32, 128)), term.Not(term.Or(in...))), term.Eq(t, term.Const(8, 0))))
			r = append(r, s.classDomain(t))
		}
	})
	return r
}

// classDomain says that a class is one Unicode assigns.
// rangeFacts tie the uninterpreted class function to the data at a scalar value,
// for the low ones and for long stretches of one class.
func (s *Subject) rangeFacts(t *term.Term) *term.Term {
	cp := t.Args[0]
	var and []*term.Term
	for a := 0; a < len(s.classes); {
		b := a
		for b+1 < len(s.classes) && s.classes[b+1] == s.classes[a] {
			b++
		}
		if a < 0x300 || b-a >= 255 {
			in := term.And(term.Ule(term.Const(32, uint64(a)), cp), term.Ule(cp, term.Const(32, uint64(b))))
			and = append(and, term.Implies(in, term.Eq(t, term.Const(8, uint64(s.classes[a])))))
		}
		a = b + 1
	}
	return term.And(and...)
}

func (s *Subject) classDomain(t *term.Term) *term.Term {
	var is []*term.Term
	for _, c := range s.allClasses() {
		is = append(is, term.Eq(t, term.Const(8, uint64(c))))
	}
	return term.Or(is...)
}

func (s *Subject) allClasses() []uint8 {
	var have [256]bool
	for c, k := range s.classes {
		if isScalar(c) {
			have[k] = true
		}
	}
	var r []uint8
	for k, h := range have {
		if h {
			r = append(r, uint8(k))
		}
	}
	return r
}

// env makes an evaluation environment for a contract of fn.
func (s *Subject) env(pkg *types.Package, vars map[string]contract.TV) *contract.Env {
	e := &contract.Env{Vars: vars, Pkg: pkg, Spec: s.SpecW, SpecP: s.SpecP, World: s.W, Prog: s.P}
	e.Mem = func(sl *sym.SliceV, i *term.Term) (*term.Term, bool) {
		arr, ok := content(sl)
		if !ok {
			return nil, false
		}
		return term.Select(arr, term.Add(sl.Off, i)), true
	}
	seq := func(name string) func(e *contract.Env, a []contract.TV) (contract.TV, error) {
		return func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			sl, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			b := bytesAt(sl, intArg(a[1]))
			return contract.TV{V: s.specT(name, b[0], b[1], b[2], b[3], intArg(a[2])), Typ: map[bool]types.Type{true: tBool, false: tInt}[name == "Hopeless"]}, nil
		}
	}
	e.Extra = map[string]func(e *contract.Env, a []contract.TV) (contract.TV, error){
		"seqlen":   seq("SeqLen"),
		"charlen":  seq("CharLen"),
		"hopeless": seq("Hopeless"),
		"announced": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			sl, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			b := bytesAt(sl, intArg(a[1]))
			return contract.TV{V: s.specT("Announced", b[0]), Typ: tInt}, nil
		},
		"loose": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			sl, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			return contract.TV{V: s.loose(sl, intArg(a[1]), intArg(a[2])), Typ: tBool}, nil
		},
		"trailing": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			sl, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			at := intArg(a[1])
			var or []*term.Term
			for k := int64(0); k < 4; k++ {
				r := term.Sub(at, c64(k))
				b := bytesAt(sl, r)
				or = append(or, term.And(term.Sle(c64(0), r), term.Slt(r, sl.Len), term.Slt(sl.Len, term.Add(r, s.specT("Announced", b[0])))))
			}
			return contract.TV{V: term.Or(or...), Typ: tBool}, nil
		},
		"agree": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			x, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			y, err := sliceArg(a[1])
			if err != nil {
				return contract.TV{}, err
			}
			bx, by := bytesAt(x, c64(0)), bytesAt(y, c64(0))
			var and []*term.Term
			for k := range bx {
				and = append(and, term.Implies(term.Slt(c64(int64(k)), intArg(a[2])), term.Eq(bx[k], by[k])))
			}
			return contract.TV{V: term.And(and...), Typ: tBool}, nil
		},
		"same": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			x, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			y, err := sliceArg(a[1])
			if err != nil {
				return contract.TV{}, err
			}
			if (x.Obj == nil) != (y.Obj == nil) {
				return contract.TV{V: term.And(x.Nil, y.Nil), Typ: tBool}, nil
			}
			return contract.TV{V: term.And(term.Eq(x.Nil, y.Nil), term.Or(x.Nil, term.And(term.Eq(x.Off, y.Off), term.Eq(x.Len, y.Len)))), Typ: tBool}, nil
		},
		"class": func(e *contract.Env, a []contract.TV) (contract.TV, error) {
			sl, err := sliceArg(a[0])
			if err != nil {
				return contract.TV{}, err
			}
			_, c := s.charAt(sl, c64(0), sl.Len)
			return contract.TV{V: c, Typ: tByte}, nil
		},
	}
	return e
}

// loose: position q of sl is not inside a complete sequence, n bytes being there.
func (s *Subject) loose(sl *sym.SliceV, q, n *term.Term) *term.Term {
	var and []*term.Term
	for k := int64(0); k < 4; k++ {
		r := term.Sub(q, c64(k))
		b := bytesAt(sl, r)
		ln := s.specT("SeqLen", b[0], b[1], b[2], b[3], term.Sub(n, r))
		and = append(and, term.Or(term.Slt(r, c64(0)), term.Sle(ln, c64(k))))
	}
	return term.And(and...)
}

var _ = prove.Default
var _ = spec.Other
