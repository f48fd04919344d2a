package check

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

// oneOf: a value is one of these constants of the program.
func (s *Subject) oneOf(names []string, pkg string) func(e *contract.Env, a []contract.TV) (contract.TV, error) {
	return func(e *contract.Env, a []contract.TV) (contract.TV, error) {
		var or []*term.Term
		x := a[0].V.(*term.Term)
		for _, n := range names {
			v, ok := s.P.ConstInt(pkg, n)
			if !ok {
				return contract.TV{}, fmt.Errorf("no constant %s", n)
			}
			or = append(or, term.Eq(x, term.Const(x.S.W, uint64(v))))
		}
		return contract.TV{V: term.Or(or...), Typ: tBool}, nil
	}
}

func keys(m map[string]uint8, but string) []string {
	var r []string
	for k := range m {
		if k != but {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// simple proves the contract of a function by itself.
func (s *Subject) simple(r *Report, pkg, name, tag string, seed func(args []sym.Value, m map[*term.Term]uint64) [][]byte) error {
	path := modPath + "/" + pkg
	fn := s.P.Func(path, name)
	con := s.Con.Lookup(pkg, name)
	if fn == nil || con == nil {
		return fmt.Errorf("no %s or no contract for it", name)
	}
	if len(fn.Params) != len(con.Params) || fn.Signature.Results().Len() != len(con.Results) {
		return fmt.Errorf("%s has another signature", name)
	}
	y := s.execFn(fn, con.Params, nil)
	r.Functions[fn.String()] = "contract"
	for n, k := range y.Calls {
		if n != fn.String() && k > 0 {
			r.Functions[n] = "inlined"
		}
	}
	y.numeric()
	if err := y.houdini(nil); err != nil {
		return err
	}
	y.recheck(r, nil)
	y.safety(r, "safety", "pre", "unsupported", "frame")
	n := 0
	for _, cl := range con.Clauses {
		if !cl.Has(tag) || cl.Kind != "ensures" {
			continue
		}
		for i, o := range y.Outs {
			vars := map[string]contract.TV{}
			for k, p := range con.Params {
				vars[p] = contract.TV{V: y.Args[k], Typ: fn.Params[k].Type()}
			}
			for k, p := range con.Results {
				vars[p] = contract.TV{V: o.Res[k], Typ: fn.Signature.Results().At(k).Type()}
			}
			e := s.env(fn.Pkg.Pkg, vars)
			e.Extra["gcb"] = s.oneOf(keys(gcbNames, "GCBExtendedPictographic"), cpPkg)
			e.Extra["incb"] = s.oneOf(keys(incbNames, ""), cpPkg)
			t, err := e.Bool(cl.Expr)
			if err != nil {
				return fmt.Errorf("contract line %d: %v", cl.Line, err)
			}
			nm := cl.Text
			if len(y.Outs) > 1 {
				nm += fmt.Sprintf(" (return %d)", i+1)
			}
			n++
			it := r.prove(fn.String(), "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
			if it.model != nil && seed != nil {
				it.seeds = append(it.seeds, seed(y.Args, it.model)...)
			}
		}
	}
	if n == 0 {
		return fmt.Errorf("nothing to prove of %s", name)
	}
	return nil
}

func modelString(m map[*term.Term]uint64, v *sym.StringV) (string, bool) {
	n, ok := m[v.Len]
	if !ok || n > 200 {
		return "", false
	}
	b := make([]byte, n)
	for t, x := range m {
		if t.Op == term.OpSelect && t.Args[0] == v.Arr && t.Args[1].IsConst() && t.Args[1].Val < n {
			b[t.Args[1].Val] = byte(x)
		}
	}
	return string(b), true
}

func (s *Subject) names(r *Report) error {
	const cp = "textseg/internal/charprops"
	for _, c := range []struct {
		what  string
		names map[string]uint8
	}{{"Grapheme_Cluster_Break", gcbNames}, {"Indic_Conjunct_Break", incbNames}} {
		what := c.what + " constants are distinct, and only the one for none is zero"
		m, err := s.constMap(c.names)
		if err != nil {
			r.fail(cp, "lemma", what, err.Error())
			continue
		}
		if k, ok := m[0]; !ok || k != 0 {
			r.fail(cp, "lemma", what, "zero is not the constant for none")
			continue
		}
		r.ok(cp, "lemma", what, fmt.Sprintf("%d constants compared", len(m)))
	}
	str := func(args []sym.Value, m map[*term.Term]uint64) [][]byte {
		if v, ok := args[0].(*sym.StringV); ok && v.Const == nil {
			if n, ok := modelString(m, v); ok {
				return [][]byte{[]byte("name:" + n)}
			}
		}
		return nil
	}
	num := func(args []sym.Value, m map[*term.Term]uint64) [][]byte {
		var n []uint64
		for _, a := range args {
			if t, ok := a.(*term.Term); ok {
				n = append(n, m[t])
			}
		}
		if len(n) == 3 {
			return [][]byte{[]byte(fmt.Sprintf("pack:%d,%d", n[0]|n[1], n[2]))}
		}
		return [][]byte{[]byte(fmt.Sprintf("pack:%d,0", n[0]))}
	}
	for _, f := range []struct {
		n  string
		sd func(args []sym.Value, m map[*term.Term]uint64) [][]byte
	}{{"LookupGCBProperty", str}, {"LookupEmojiProperty", str}, {"LookupInCBProperty", str}, {"MakeCharProperties", num}, {"GCBProperty.IsAnyControl", num}} {
		if err := s.simple(r, cp, f.n, "C16", f.sd); err != nil {
			return err
		}
	}
	return nil
}

var _ = strings.Join
var _ *ssa.Function
