package check

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/contract"
	"gover/prove"
	"gover/sym"
	"gover/term"
)

const autoPkg = autoMod + "/textseg"

// toolchain is an installed Go release.
type toolchain struct {
	dir     string // its bin directory
	version string // go1.27.3
	minor   int
	unicode string // unicode.Version
}

// toolchains are the installed Go releases, oldest first.
func toolchains() []toolchain {
	var r []toolchain
	dirs, _ := filepath.Glob("/opt/veriftools/go1.*")
	for _, d := range dirs {
		b, err := os.ReadFile(filepath.Join(d, "VERSION"))
		if err != nil {
			continue
		}
		t := toolchain{dir: filepath.Join(d, "bin"), version: strings.Fields(string(b))[0]}
		if _, err := fmt.Sscanf(t.version, "go1.%d", &t.minor); err != nil {
			continue
		}
		if b, err := os.ReadFile(filepath.Join(d, "src", "unicode", "tables.go")); err == nil {
			if m := regexp.MustCompile(`(?m)^const Version = "([0-9.]+)"`).FindSubmatch(b); m != nil {
				t.unicode = string(m[1])
			}
		}
		r = append(r, t)
	}
	return r
}

// loadAuto loads the wrapper module as a Go release compiles it.
func loadAuto(cfg Config, tc *toolchain) (*sym.Program, error) {
	wf, err := os.MkdirTemp("", "gover-work-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(wf)
	dir := filepath.Join(cfg.Repo, "autoversion")
	w := filepath.Join(wf, "go.work")
	if err := os.WriteFile(w, []byte(fmt.Sprintf("go 1.25.0\n\nuse %s\nuse %s\n", cfg.Repo, dir)), 0o644); err != nil {
		return nil, err
	}
	if tc != nil {
		old := os.Getenv("PATH")
		os.Setenv("PATH", tc.dir+":"+old)
		defer os.Setenv("PATH", old)
	}
	return sym.Load(dir, []string{"GOWORK=" + w, "PATH=" + os.Getenv("PATH")}, "./textseg")
}

// auto is the state of the assumed contract of a buffered scanner.
type auto struct {
	buf      *sym.SliceV
	split    string
	scanner  *sym.Obj
	tokBuf   *sym.Obj
	n        *term.Term // tokens it yields
	q, j     *term.Term
	tlen     *term.Term
	tarr     *term.Term
	enil     *term.Term
	chosen   []sym.Value
	chosenOf string
}

const (
	scK = iota
	scDone
	scSplit
	scLen
	scNil
)

func newAuto() *auto {
	return &auto{n: term.Var("yields", term.BV(64)), q: term.Var("q", term.BV(64)), j: term.Var("j", term.BV(64)),
		tlen: term.Var("tokenlen", term.BV(64)), tarr: term.Var("tokenbytes", term.Arr(8)), enil: term.Var("scannererr.nil", term.Bool)}
}

var implRE = regexp.MustCompile(`^github\.com/apparentlymart/go-textseg/v(\d+)/textseg\.(ScanGraphemeClusters|ScanUTF8Sequences)$`)

// hook gives readers, scanners and the version-specific scans their contracts.
func (a *auto) hook(c *sym.Call) ([]sym.Outcome, bool) {
	x, st := c.X, c.St
	ret := func(vs ...sym.Value) ([]sym.Outcome, bool) {
		return []sym.Outcome{{G: st.G, Res: vs, Mem: st.Mem, Src: st.Src}}, true
	}
	bad := func(what string) ([]sym.Outcome, bool) {
		x.Unsupported(st, what, c.Pos)
		return nil, false
	}
	whole := func(off, n *term.Term) bool { return off == a.buf.Off && n == a.buf.Len }
	switch c.Name {
	case "bytes.NewReader", "bytes.NewBuffer":
		if s, ok := c.Args[0].(*sym.SliceV); ok && a.buf != nil && s.Obj == a.buf.Obj && whole(s.Off, s.Len) {
			return ret(&sym.OpaqueV{Name: "reader of buf"})
		}
		return bad("a reader of something else than the buffer")
	case "strings.NewReader", "bytes.NewBufferString":
		if s, ok := c.Args[0].(*sym.StringV); ok && a.buf != nil && s.Const == nil && whole(s.Off, s.Len) {
			if arr, ok := content(a.buf); ok && s.Arr == arr {
				return ret(&sym.OpaqueV{Name: "reader of buf"})
			}
		}
		return bad("a reader of something else than the buffer")
	case "bufio.NewScanner":
		iv, ok := c.Args[0].(*sym.IfaceV)
		if !ok {
			return bad("a scanner of an unknown reader")
		}
		if o, ok := iv.Val.(*sym.OpaqueV); !ok || o.Name != "reader of buf" {
			return bad("a scanner of an unknown reader")
		}
		if a.scanner == nil {
			a.scanner = x.World.NewObj("scanner", nil, nil)
			a.tokBuf = x.World.NewObj("scanner.buf", nil, nil)
			a.tokBuf.Volatile = true
			a.tokBuf.Init = &sym.RegionV{Arr: term.Fresh("scanner.buf", term.Arr(8))}
		}
		o := a.scanner
		if _, ok := st.Mem[o]; ok {
			// what another run of a split function with state of its own yields is another matter
			return bad("a second scanner")
		}
		st.Mem[o] = &sym.StructV{Fields: []sym.Value{c64(0), term.False, term.False, c64(0), term.True}}
		x.Assume(term.And(term.Sle(c64(0), a.n), term.Sle(a.n, c64(1<<46)), term.Sle(c64(0), a.tlen), term.Sle(a.tlen, c64(1<<46))))
		return ret(&sym.PtrV{Obj: o, Nil: term.False})
	}
	if strings.HasPrefix(c.Name, "(*bufio.Scanner).") {
		p, ok := c.Args[0].(*sym.PtrV)
		if !ok || p.Obj == nil || p.Obj != a.scanner || len(p.Path) > 0 {
			return bad("an unknown scanner")
		}
		s := st.Mem[p.Obj].(*sym.StructV)
		set := func(i int, v sym.Value) {
			n := &sym.StructV{Fields: append([]sym.Value{}, s.Fields...)}
			n.Fields[i] = v
			s = n
			st.Mem[p.Obj] = n
		}
		get := func(i int) *term.Term { return s.Fields[i].(*term.Term) }
		tok := &sym.SliceV{Obj: a.tokBuf, Off: c64(0), Len: get(scLen), Cap: get(scLen), Nil: get(scNil), Elem: tByte}
		switch strings.TrimPrefix(c.Name, "(*bufio.Scanner).") {
		case "Split":
			f, ok := c.Args[1].(*sym.FuncV)
			if !ok || f.Fn != nil || f.Builtin != nil || f.Name != a.split {
				return bad("another split function")
			}
			if get(scK) != c64(0) {
				return bad("Split after Scan")
			}
			set(scSplit, term.True)
			return ret()
		case "Scan":
			if !get(scSplit).IsTrue() {
				x.Require(st, "the scanner has the split function", c.Pos, get(scSplit))
			}
			k := get(scK)
			more := term.Slt(k, a.n)
			here := term.Eq(k, a.q)
			ln := term.Fresh("token.len", term.BV(64))
			x.Assume(term.And(term.Sle(c64(0), ln), term.Sle(ln, c64(1<<46))))
			set(scK, term.Ite(more, term.Add(k, c64(1)), k))
			set(scDone, term.Not(more))
			set(scLen, term.Ite(more, term.Ite(here, a.tlen, ln), c64(0)))
			nl := term.Fresh("token.nil", term.Bool)
			x.Assume(term.Implies(nl, term.Eq(s.Fields[scLen].(*term.Term), c64(0))))
			set(scNil, term.Or(term.Not(more), nl))
			st.Mem[a.tokBuf] = &sym.RegionV{Arr: term.Ite(here, a.tarr, term.Fresh("token", term.Arr(8)))}
			return ret(more)
		case "Bytes":
			return ret(tok)
		case "Text":
			reg, ok := st.Mem[tok.Obj].(*sym.RegionV)
			if !ok {
				reg = tok.Obj.Init.(*sym.RegionV)
			}
			return ret(&sym.StringV{Arr: reg.Arr, Off: tok.Off, Len: tok.Len})
		case "Err":
			return ret(&sym.IfaceV{Typ: sym.Unknown, Val: &sym.OpaqueV{Name: "scanner error"}, Nil: term.Ite(get(scDone), a.enil, term.Fresh("early.nil", term.Bool))})
		}
		return bad("call of " + c.Name)
	}
	if m := implRE.FindStringSubmatch(c.Name); m != nil && len(c.Args) == 2 && c.Fn != nil {
		if a.buf == nil {
			return bad("a scan of other data")
		}
		d, ok := c.Args[0].(*sym.SliceV)
		if !ok || d.Obj != a.buf.Obj || !whole(d.Off, d.Len) || c.Args[1] != sym.Value(term.Var("atEOF", term.Bool)) {
			return bad("a scan of other data, or with another flag")
		}
		a.chosenOf = c.Name
		if a.chosen == nil {
			adv, ln, nl, en := term.Fresh("adv", term.BV(64)), term.Fresh("tok.len", term.BV(64)), term.Fresh("tok.nil", term.Bool), term.Fresh("err.nil", term.Bool)
			off := term.Fresh("tok.off", term.BV(64))
			if m[1] == "17" && m[2] == "ScanGraphemeClusters" {
				// C01, C02: proved of it
				x.Assume(term.And(en, term.Sle(c64(0), adv), term.Sle(adv, a.buf.Len), term.Eq(nl, term.Eq(adv, c64(0))), term.Eq(off, a.buf.Off), term.Eq(ln, adv)))
			}
			a.chosen = []sym.Value{adv, &sym.SliceV{Obj: a.buf.Obj, Off: off, Len: ln, Cap: ln, Nil: nl, Elem: tByte}, &sym.IfaceV{Typ: sym.Unknown, Val: &sym.OpaqueV{Name: "implementation error"}, Nil: en}}
		}
		return ret(a.chosen...)
	}
	return nil, false
}

// env gives the contract language the wrapper's ghost functions.
func (a *auto) env(e *contract.Env) {
	b := func(t *term.Term) contract.TV { return contract.TV{V: t, Typ: tBool} }
	i := func(t *term.Term) func(e *contract.Env, as []contract.TV) (contract.TV, error) {
		return func(e *contract.Env, as []contract.TV) (contract.TV, error) {
			if t.S == term.BV(8) {
				return contract.TV{V: t, Typ: tByte}, nil
			}
			return contract.TV{V: t, Typ: tInt}, nil
		}
	}
	e.Extra["yields"] = i(a.n)
	e.Extra["tokenlen"] = i(a.tlen)
	e.Extra["q"] = i(a.q)
	e.Extra["j"] = i(a.j)
	e.Extra["tokenbyte"] = i(term.Select(a.tarr, a.j))
	seq := func(f func(s *sym.SeqV) contract.TV) func(e *contract.Env, as []contract.TV) (contract.TV, error) {
		return func(e *contract.Env, as []contract.TV) (contract.TV, error) {
			s, ok := as[0].V.(*sym.SeqV)
			if !ok {
				return contract.TV{}, fmt.Errorf("not a list of tokens")
			}
			return f(s), nil
		}
	}
	e.Extra["elemlen"] = seq(func(s *sym.SeqV) contract.TV { return contract.TV{V: s.ELen, Typ: tInt} })
	e.Extra["elembyte"] = seq(func(s *sym.SeqV) contract.TV { return contract.TV{V: s.EByte, Typ: tByte} })
	e.Extra["overwritten"] = seq(func(s *sym.SeqV) contract.TV { return b(s.EVol) })
	e.Extra["scannererr"] = func(e *contract.Env, as []contract.TV) (contract.TV, error) {
		v, ok := as[0].V.(*sym.IfaceV)
		if !ok {
			return contract.TV{}, fmt.Errorf("not an error")
		}
		same := term.Eq(v.Nil, a.enil)
		if o, ok := v.Val.(*sym.OpaqueV); !ok || o.Name != "scanner error" {
			same = term.And(v.Nil, a.enil)
		}
		return b(same), nil
	}
	e.Extra["chosen"] = func(e *contract.Env, as []contract.TV) (contract.TV, error) {
		if a.chosen == nil {
			return b(term.False), nil
		}
		t, ok1 := as[1].V.(*sym.SliceV)
		er, ok2 := as[2].V.(*sym.IfaceV)
		if !ok1 || !ok2 {
			return contract.TV{}, fmt.Errorf("results of other kinds")
		}
		w, we := a.chosen[1].(*sym.SliceV), a.chosen[2].(*sym.IfaceV)
		tok := term.And(term.Eq(t.Nil, w.Nil), term.Implies(term.Not(t.Nil), term.And(term.Eq(t.Off, w.Off), term.Eq(t.Len, w.Len))))
		if t.Obj != w.Obj {
			tok = term.And(t.Nil, w.Nil)
		}
		errSame := term.Eq(er.Nil, we.Nil)
		if o, ok := er.Val.(*sym.OpaqueV); !ok || o.Name != "implementation error" {
			errSame = term.And(er.Nil, we.Nil)
		}
		return b(term.And(term.Eq(as[0].V.(*term.Term), a.chosen[0].(*term.Term)), tok, errSame)), nil
	}
}

// wrapper proves the contract of one function of the wrapper.
func (s *Subject) wrapper(r *Report, name, under string) (*auto, error) {
	fn := s.P.Func(autoPkg, name)
	con := s.Con.Lookup("autoversion/textseg", name)
	if fn == nil || con == nil {
		return nil, fmt.Errorf("no %s in the wrapper, or no contract for it", name)
	}
	if len(fn.Params) != len(con.Params) || fn.Signature.Results().Len() != len(con.Results) {
		return nil, fmt.Errorf("%s has another signature", name)
	}
	a := newAuto()
	x := s.W.Exec()
	x.GhostQ, x.GhostJ = a.q, a.j
	x.Hook = a.hook
	x.Feasible = prove.Feasible
	st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
	y := &Sys{S: s, Fn: fn, Name: fn.Name(), Inv: map[*sym.Loop][]*Cand{}}
	for i, p := range fn.Params {
		v := x.Input(st, con.Params[i], p.Type())
		y.Args = append(y.Args, v)
		if sl, ok := v.(*sym.SliceV); ok && i == 0 {
			a.buf = sl
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			a.split = con.Params[i]
		}
	}
	y.Outs = x.Run(fn, y.Args, nil, st)
	y.Loops, y.Facts, y.Obl, y.Calls = x.Loops, x.Facts, x.Obligs, x.Called
	label := fn.String() + under
	r.Functions[label] = "contract"
	for n, k := range y.Calls {
		if n == fn.String() || k == 0 {
			continue
		}
		switch {
		case implRE.MatchString(n):
			r.Functions[n] = "reference"
		case strings.HasPrefix(n, "(*bufio.Scanner)") || n == "bufio.NewScanner" || strings.HasSuffix(n, "NewReader"):
			r.Functions[n] = "assumed contract"
		default:
			r.Functions[n] = "inlined"
		}
	}
	y.numeric()
	// the followed element, once it is there, is what was yielded
	for _, l := range y.Loops {
		a.conditional(y, l)
		by := map[string]*term.Term{}
		for _, v := range l.Vars {
			by[v.Name] = v.Var
			y.addCand(l, v.Name+"<=yields", ifBV64(v.Var, func(t *term.Term) *term.Term { return term.Sle(t, a.n) }))
		}
		for n, t := range by {
			if !strings.HasSuffix(n, ".seq.len") {
				continue
			}
			p := strings.TrimSuffix(n, "len")
			there := term.And(term.Sle(c64(0), a.q), term.Slt(a.q, t))
			if e := by[p+"elem.len"]; e != nil {
				y.addCand(l, "the length of element q", term.Implies(there, term.Eq(e, a.tlen)))
			}
			if e := by[p+"elem.volatile"]; e != nil {
				y.addCand(l, "element q stays", term.Implies(there, term.Not(e)))
			}
			if e := by[p+"elem.byte"]; e != nil {
				y.addCand(l, "byte j of element q", term.Implies(term.And(there, term.Sle(c64(0), a.j), term.Slt(a.j, a.tlen)), term.Eq(e, term.Select(a.tarr, a.j))))
			}
			if e := by[p+"nil"]; e != nil {
				y.addCand(l, "not a nil list with elements", term.Implies(e, term.Eq(t, c64(0))))
			}
		}
	}
	if err := y.houdini(nil); err != nil {
		return nil, err
	}
	y.prune()
	y.recheck(r, nil)
	y.safety(r, "safety", "pre", "unsupported", "frame")
	if name == "AllTokens" || name == "TokenCount" {
		y.reachable(r)
	}
	for _, cl := range con.Clauses {
		if cl.Kind != "ensures" {
			continue
		}
		for i, o := range y.Outs {
			vars := map[string]contract.TV{}
			for k, p := range con.Params {
				vars[p] = contract.TV{V: y.Args[k], Typ: fn.Params[k].Type()}
			}
			for k, p := range con.Results {
				vars[p] = contract.TV{V: o.Res[k], Typ: fn.Signature.Results().At(k).Type()}
			}
			e := s.env(fn.Pkg.Pkg, vars)
			a.env(e)
			t, err := e.Bool(cl.Expr)
			if err != nil {
				return nil, fmt.Errorf("contract line %d: %v", cl.Line, err)
			}
			nm := cl.Text
			if len(y.Outs) > 1 {
				nm += fmt.Sprintf(" (return %d)", i+1)
			}
			r.prove(label, "post", nm, fmt.Sprintf("contracts/textseg.go:%d", cl.Line), prove.VC{Hyps: y.hyps(o.Src), Guard: o.G, Goal: t}, prove.Default)
		}
	}
	if len(y.Outs) == 0 {
		r.fail(label, "cover", "some return is reachable", "none")
	}
	return a, nil
}

// conditional offers relations between counters that depend on a flag, and what
// is known of the token at hand.
func (a *auto) conditional(y *Sys, l *sym.Loop) {
	var flags, nums []sym.LoopVar
	by := map[string]*term.Term{}
	for _, v := range l.Vars {
		by[v.Name] = v.Var
		switch {
		case v.Var.S.IsBool() && !strings.HasSuffix(v.Name, "nil"):
			flags = append(flags, v)
		case v.Var.S == term.BV(64) && (strings.HasSuffix(v.Name, ".seq.len") || strings.HasSuffix(v.Name, "scanner.0") || !strings.Contains(v.Name, ".")):
			nums = append(nums, v)
		}
	}
	nums = append(nums, sym.LoopVar{Name: "yields", Var: a.n})
	for _, f := range flags {
		for _, on := range []bool{true, false} {
			g, gn := f.Var, f.Name
			if !on {
				g, gn = term.Not(g), "!"+gn
			}
			for _, h := range flags {
				if h.Var != f.Var {
					y.addCand(l, gn+" ==> "+h.Name, term.Implies(g, h.Var))
					y.addCand(l, gn+" ==> !"+h.Name, term.Implies(g, term.Not(h.Var)))
				}
			}
			for _, v := range nums {
				for _, w := range nums {
					if v.Var == w.Var {
						continue
					}
					y.addCand(l, gn+" ==> "+v.Name+" == "+w.Name, term.Implies(g, term.Eq(v.Var, w.Var)))
					y.addCand(l, gn+" ==> "+v.Name+" == "+w.Name+"+1", term.Implies(g, term.Eq(v.Var, term.Add(w.Var, c64(1)))))
				}
			}
			if k := by["mem.scanner.0"]; k != nil {
				here := term.And(g, term.Eq(term.Sub(k, c64(1)), a.q), term.Sle(c64(0), a.q))
				if n := by["mem.scanner.3"]; n != nil {
					y.addCand(l, gn+": the length of the token", term.Implies(here, term.Eq(n, a.tlen)))
				}
				if c := by["mem.scanner.buf.content"]; c != nil {
					y.addCand(l, gn+": byte j of the token", term.Implies(term.And(here, term.Sle(c64(0), a.j), term.Slt(a.j, a.tlen)), term.Eq(term.Select(c, a.j), term.Select(a.tarr, a.j))))
				}
			}
		}
	}
}

func ifBV64(t *term.Term, f func(t *term.Term) *term.Term) *term.Term {
	if t.S == term.BV(64) {
		return f(t)
	}
	return term.True
}

// wrapperAdds decides C18 for the releases whose wrapper is compiled from other files.
func (s *Subject) wrapperAdds(r *Report) error {
	sym.Sequences = true
	r.assume("bufio.Scanner and bytes.Reader: the documented behaviour (a scanner yields a sequence of tokens, each valid until the next call of Scan; the property is stated relative to it)")
	r.assume("v15's ScanGraphemeClusters and ScanUTF8Sequences are the reference; they are deterministic")
	done := map[string]bool{}
	tcs := toolchains()
	for i := len(tcs) - 1; i >= 0; i-- {
		tc := tcs[i]
		if tc.minor < 25 { // what go.mod asks for
			continue
		}
		p, err := loadAuto(s.Cfg, &tc)
		if err != nil {
			r.fail(autoPkg, "tool", "the wrapper loads under "+tc.version, firstLine(err.Error()))
			continue
		}
		q := p.Pkgs[autoPkg]
		if q == nil {
			r.fail(autoPkg, "tool", "the wrapper loads under "+tc.version, "no package")
			continue
		}
		key := strings.Join(q.GoFiles, " ")
		if done[key] {
			r.ok(autoPkg, "lemma", "under "+tc.version+" the same files are compiled as under a later release", "go list")
			continue
		}
		done[key] = true
		s.autoPs = append(s.autoPs, p)
		t := *s
		t.P, t.W = p, sym.NewWorld(p)
		markMutable(t.P, t.W)
		for _, n := range []string{"ScanGraphemeClusters", "ScanUTF8Sequences", "TokenCount", "AllTokens"} {
			a, err := t.wrapper(r, n, " under "+tc.version)
			if err != nil {
				return err
			}
			if n == "ScanGraphemeClusters" {
				m := implRE.FindStringSubmatch(a.chosenOf)
				want := strings.SplitN(tc.unicode, ".", 2)[0]
				what := "under " + tc.version + " it forwards to the implementation for Unicode " + tc.unicode
				if m == nil || m[1] != want {
					r.fail(autoPkg, "lemma", what, "it calls "+a.chosenOf)
				} else {
					r.ok(autoPkg, "lemma", what, a.chosenOf)
				}
			}
		}
	}
	if len(done) == 0 {
		return fmt.Errorf("no Go release loads the wrapper")
	}
	return nil
}

var _ *ssa.Function

func init() {
	Checks["C18"] = func(s *Subject, r *Report) error { return s.wrapperAdds(r) }
}

func newWorld(p *sym.Program) *sym.World {
	w := sym.NewWorld(p)
	markMutable(p, w)
	return w
}
