// Package contract reads specifications written as //@ comments and evaluates
// their expressions over symbolic values.
package contract

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"strings"

	"gover/sym"
	"gover/term"
)

// Clause is one requires/ensures line.
type Clause struct {
	Kind string // requires, ensures, pair-requires, pair-ensures
	Tags []string
	Text string
	Expr ast.Expr
	Line int
}

func (c *Clause) Has(tag string) bool {
	for _, t := range c.Tags {
		if t == tag {
			return true
		}
	}
	return false
}

// Walk asks for a simulation of a history automaton.
type Walk struct {
	Tag        string
	Want, View string
}

// Func is the contract of one function.
type Func struct {
	Pkg, Name string // package path suffix
	Params    []string
	Results   []string
	Clauses   []*Clause
	Ghost     []string
	Walks     []Walk
	Pairs     []*Pair
}

// Pair is a contract over two runs of the function.
type Pair struct {
	Tag      string
	Name     string
	Requires []*Clause
	Ensures  []*Clause
	Share    string // bytes shared by the two buffers: an expression, the number of leading bytes that are equal
	ShareX   ast.Expr
}

// File is a parsed contract file.
type File struct {
	Funcs []*Func
}

func (f *File) Lookup(pkgSuffix, name string) *Func {
	for _, x := range f.Funcs {
		if x.Pkg == pkgSuffix && x.Name == name {
			return x
		}
	}
	return nil
}

var funcRE = regexp.MustCompile(`^func\s+(\S+)\s+(\S+)\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
var tagRE = regexp.MustCompile(`^\[([^\]]*)\]\s*(.*)$`)

func names(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, strings.Fields(p)[0])
		}
	}
	return r
}

// Parse reads a contract file.
func Parse(path string) (*File, error) {
	fh, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer fh.Close()
	out := &File{}
	var cur *Func
	var pair *Pair
	sc := bufio.NewScanner(fh)
	n := 0
	var pend string
	pline := 0
	flush := func() error {
		if pend == "" {
			return nil
		}
		s := pend
		pend = ""
		word, rest, _ := strings.Cut(s, " ")
		rest = strings.TrimSpace(rest)
		if word == "func" {
			m := funcRE.FindStringSubmatch(s)
			if m == nil {
				return fmt.Errorf("%s:%d: bad func line", path, pline)
			}
			cur = &Func{Pkg: m[1], Name: m[2], Params: names(m[3]), Results: names(m[4])}
			pair = nil
			out.Funcs = append(out.Funcs, cur)
			return nil
		}
		if cur == nil {
			return fmt.Errorf("%s:%d: clause outside a function", path, pline)
		}
		var tags []string
		if m := tagRE.FindStringSubmatch(rest); m != nil {
			tags, rest = strings.Fields(m[1]), m[2]
		}
		switch word {
		case "ghost":
			cur.Ghost = append(cur.Ghost, names(rest)...)
		case "requires", "ensures", "hint":
			e, err := ParseExpr(rest)
			if err != nil {
				return fmt.Errorf("%s:%d: %v", path, pline, err)
			}
			cl := &Clause{Kind: word, Tags: tags, Text: rest, Expr: e, Line: pline}
			if pair != nil {
				if word == "requires" {
					pair.Requires = append(pair.Requires, cl)
				} else {
					pair.Ensures = append(pair.Ensures, cl)
				}
			} else {
				cur.Clauses = append(cur.Clauses, cl)
			}
		case "walk":
			f := strings.Fields(rest)
			if len(tags) != 1 || len(f) != 2 {
				return fmt.Errorf("%s:%d: walk [tag] want view", path, pline)
			}
			cur.Walks = append(cur.Walks, Walk{Tag: tags[0], Want: f[0], View: f[1]})
		case "pair":
			if len(tags) < 1 {
				return fmt.Errorf("%s:%d: pair [tags] name", path, pline)
			}
			pair = &Pair{Tag: strings.Join(tags, " "), Name: rest}
			cur.Pairs = append(cur.Pairs, pair)
		case "share":
			if pair == nil {
				return fmt.Errorf("%s:%d: share outside a pair", path, pline)
			}
			e, err := ParseExpr(rest)
			if err != nil {
				return fmt.Errorf("%s:%d: %v", path, pline, err)
			}
			pair.Share, pair.ShareX = rest, e
		case "end":
			pair = nil
		default:
			return fmt.Errorf("%s:%d: unknown clause %q", path, pline, word)
		}
		return nil
	}
	for sc.Scan() {
		n++
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "//@") {
			continue
		}
		l = strings.TrimPrefix(l, "//@")
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.HasPrefix(l, "   ") { // continuation
			pend += " " + strings.TrimSpace(l)
			continue
		}
		if err := flush(); err != nil {
			return nil, err
		}
		pend, pline = strings.TrimSpace(l), n
	}
	if err := flush(); err != nil {
		return nil, err
	}
	return out, sc.Err()
}

// ParseExpr parses a Go expression with ==> added (lowest precedence, right
// associative, outside parentheses or inside them).
func ParseExpr(s string) (ast.Expr, error) {
	t, err := implies(s)
	if err != nil {
		return nil, err
	}
	return parser.ParseExpr(t)
}

// implies rewrites a ==> b to implies(a, b) at every nesting level.
func implies(s string) (string, error) {
	// handle parenthesised groups first
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '(' {
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '(' {
					d++
				}
				if s[j] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j == len(s) {
				return "", fmt.Errorf("unbalanced parentheses in %q", s)
			}
			in := s[i+1 : j]
			// arguments separated by commas at depth 0
			var parts []string
			depth, st := 0, 0
			for k := 0; k <= len(in); k++ {
				if k == len(in) || in[k] == ',' && depth == 0 {
					p, err := implies(in[st:k])
					if err != nil {
						return "", err
					}
					parts = append(parts, p)
					st = k + 1
					continue
				}
				switch in[k] {
				case '(', '[':
					depth++
				case ')', ']':
					depth--
				}
			}
			b.WriteString("(" + strings.Join(parts, ",") + ")")
			i = j + 1
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	s = b.String()
	d := 0
	for i := 0; i+3 <= len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && s[i:i+3] == "==>" {
			r, err := implies(s[i+3:])
			if err != nil {
				return "", err
			}
			return "implies(" + strings.TrimSpace(s[:i]) + ", " + strings.TrimSpace(r) + ")", nil
		}
	}
	return s, nil
}

// TV is a typed symbolic value; Typ nil means an untyped constant.
type TV struct {
	V   sym.Value
	Typ types.Type
	K   constant.Value
}

// Env evaluates expressions.
type Env struct {
	Vars   map[string]TV
	Pkg    *types.Package
	Consts map[string]TV
	World  *sym.World // program world, for calling program functions
	Prog   *sym.Program
	Spec   *sym.World
	SpecP  *sym.Program
	Mem    func(s *sym.SliceV, i *term.Term) (*term.Term, bool) // element i of a slice
	Extra  map[string]func(e *Env, args []TV) (TV, error)
}

var (
	tBool = types.Typ[types.Bool]
	tInt  = types.Typ[types.Int]
	tByte = types.Typ[types.Uint8]
)

// Bool evaluates a boolean expression.
func (e *Env) Bool(x ast.Expr) (*term.Term, error) {
	v, err := e.Eval(x)
	if err != nil {
		return nil, err
	}
	t, ok := v.V.(*term.Term)
	if !ok || !t.S.IsBool() {
		return nil, fmt.Errorf("not a boolean expression")
	}
	return t, nil
}

func (e *Env) Eval(x ast.Expr) (TV, error) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.Eval(n.X)
	case *ast.BasicLit:
		k := constant.MakeFromLiteral(n.Value, n.Kind, 0)
		if n.Kind == token.STRING {
			s := constant.StringVal(k)
			return TV{V: &sym.StringV{Const: &s}, Typ: types.Typ[types.String]}, nil
		}
		return TV{K: constant.ToInt(k)}, nil
	case *ast.Ident:
		if v, ok := e.Vars[n.Name]; ok {
			return v, nil
		}
		switch n.Name {
		case "true", "false":
			return TV{V: term.BoolC(n.Name == "true"), Typ: tBool}, nil
		case "nil":
			return TV{V: nil, Typ: types.Typ[types.UntypedNil]}, nil
		}
		if e.Pkg != nil {
			if c, ok := e.Pkg.Scope().Lookup(n.Name).(*types.Const); ok {
				return e.constTV(c)
			}
		}
		return TV{}, fmt.Errorf("undefined: %s", n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok && id.Name == "spec" {
			sp := e.SpecP.Pkgs["gover/spec"]
			if c, ok := sp.Types.Scope().Lookup(n.Sel.Name).(*types.Const); ok {
				return e.constTV(c)
			}
			return TV{}, fmt.Errorf("undefined: spec.%s", n.Sel.Name)
		}
		v, err := e.Eval(n.X)
		if err != nil {
			return TV{}, err
		}
		st, ok := v.Typ.Underlying().(*types.Struct)
		if !ok {
			return TV{}, fmt.Errorf("selector on %s", v.Typ)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.Sel.Name {
				return TV{V: v.V.(*sym.StructV).Fields[i], Typ: st.Field(i).Type()}, nil
			}
		}
		return TV{}, fmt.Errorf("no field %s", n.Sel.Name)
	case *ast.UnaryExpr:
		v, err := e.Eval(n.X)
		if err != nil {
			return TV{}, err
		}
		if v.K != nil {
			return TV{K: constant.UnaryOp(n.Op, v.K, 0)}, nil
		}
		t := v.V.(*term.Term)
		switch n.Op {
		case token.NOT:
			return TV{V: term.Not(t), Typ: v.Typ}, nil
		case token.SUB:
			return TV{V: term.Neg(t), Typ: v.Typ}, nil
		}
		return TV{}, fmt.Errorf("operator %s", n.Op)
	case *ast.IndexExpr:
		s, err := e.Eval(n.X)
		if err != nil {
			return TV{}, err
		}
		i, err := e.Eval(n.Index)
		if err != nil {
			return TV{}, err
		}
		i = e.conv(i, tInt)
		switch sl := s.V.(type) {
		case *sym.SliceV:
			t, ok := e.Mem(sl, i.V.(*term.Term))
			if !ok {
				return TV{}, fmt.Errorf("cannot read element")
			}
			return TV{V: t, Typ: sl.Elem}, nil
		case *sym.StringV:
			if sl.Const == nil {
				return TV{V: term.Select(sl.Arr, term.Add(sl.Off, i.V.(*term.Term))), Typ: tByte}, nil
			}
		}
		return TV{}, fmt.Errorf("index")
	case *ast.CallExpr:
		return e.call(n)
	case *ast.BinaryExpr:
		a, err := e.Eval(n.X)
		if err != nil {
			return TV{}, err
		}
		b, err := e.Eval(n.Y)
		if err != nil {
			return TV{}, err
		}
		return e.binary(n.Op, a, b)
	}
	return TV{}, fmt.Errorf("expression %T", x)
}

func (e *Env) constTV(c *types.Const) (TV, error) {
	if s, ok := sym.SortOf(c.Type()); ok && !s.IsBool() && c.Type() != types.Typ[types.UntypedInt] {
		i, ok := constant.Int64Val(constant.ToInt(c.Val()))
		if !ok {
			return TV{}, fmt.Errorf("constant %s", c.Name())
		}
		return TV{V: term.Const(s.W, uint64(i)), Typ: c.Type()}, nil
	}
	return TV{K: constant.ToInt(c.Val())}, nil
}

// conv gives an untyped constant a type.
func (e *Env) conv(v TV, t types.Type) TV {
	if v.K == nil {
		return v
	}
	s, _ := sym.SortOf(t)
	i, _ := constant.Int64Val(v.K)
	return TV{V: term.Const(s.W, uint64(i)), Typ: t}
}

func (e *Env) binary(op token.Token, a, b TV) (TV, error) {
	if a.K != nil && b.K != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TV{V: term.BoolC(constant.Compare(a.K, op, b.K)), Typ: tBool}, nil
		}
		return TV{K: constant.BinaryOp(a.K, op, b.K)}, nil
	}
	if a.K != nil {
		a = e.conv(a, b.Typ)
	}
	if b.K != nil {
		b = e.conv(b, a.Typ)
	}
	if op == token.EQL || op == token.NEQ {
		var t *term.Term
		if isNil(a) || isNil(b) {
			if isNil(a) {
				a = b
			}
			switch v := a.V.(type) {
			case *sym.SliceV:
				t = v.Nil
			case *sym.IfaceV:
				t = v.Nil
			case *sym.PtrV:
				t = v.Nil
			default:
				return TV{}, fmt.Errorf("comparison of %T with nil", a.V)
			}
		} else {
			var ok bool
			t, ok = sym.ValEq(a.V, b.V)
			if !ok {
				return TV{}, fmt.Errorf("cannot compare %T and %T", a.V, b.V)
			}
		}
		if op == token.NEQ {
			t = term.Not(t)
		}
		return TV{V: t, Typ: tBool}, nil
	}
	x, ok1 := a.V.(*term.Term)
	y, ok2 := b.V.(*term.Term)
	if !ok1 || !ok2 || x.S != y.S {
		return TV{}, fmt.Errorf("operands of %s: %T %T", op, a.V, b.V)
	}
	signed := false
	if bt, ok := a.Typ.Underlying().(*types.Basic); ok {
		signed = bt.Info()&types.IsUnsigned == 0
	}
	cmp := func(l, r *term.Term, strict bool) TV {
		switch {
		case signed && strict:
			return TV{V: term.Slt(l, r), Typ: tBool}
		case signed:
			return TV{V: term.Sle(l, r), Typ: tBool}
		case strict:
			return TV{V: term.Ult(l, r), Typ: tBool}
		}
		return TV{V: term.Ule(l, r), Typ: tBool}
	}
	switch op {
	case token.LAND:
		return TV{V: term.And(x, y), Typ: tBool}, nil
	case token.LOR:
		return TV{V: term.Or(x, y), Typ: tBool}, nil
	case token.LSS:
		return cmp(x, y, true), nil
	case token.LEQ:
		return cmp(x, y, false), nil
	case token.GTR:
		return cmp(y, x, true), nil
	case token.GEQ:
		return cmp(y, x, false), nil
	case token.ADD:
		return TV{V: term.Add(x, y), Typ: a.Typ}, nil
	case token.SUB:
		return TV{V: term.Sub(x, y), Typ: a.Typ}, nil
	case token.AND:
		return TV{V: term.Bin(term.OpBAnd, x, y), Typ: a.Typ}, nil
	case token.OR:
		return TV{V: term.Bin(term.OpBOr, x, y), Typ: a.Typ}, nil
	case token.XOR:
		return TV{V: term.Bin(term.OpBXor, x, y), Typ: a.Typ}, nil
	}
	return TV{}, fmt.Errorf("operator %s", op)
}

func isNil(v TV) bool {
	b, ok := v.Typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) call(n *ast.CallExpr) (TV, error) {
	var args []TV
	for _, a := range n.Args {
		v, err := e.Eval(a)
		if err != nil {
			return TV{}, err
		}
		args = append(args, v)
	}
	if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok && id.Name == "spec" {
			return e.specCall(sel.Sel.Name, args)
		}
		return e.method(sel, args)
	}
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		return TV{}, fmt.Errorf("call")
	}
	if f, ok := e.Extra[id.Name]; ok {
		return f(e, args)
	}
	switch id.Name {
	case "implies":
		a, b := args[0].V.(*term.Term), args[1].V.(*term.Term)
		return TV{V: term.Implies(a, b), Typ: tBool}, nil
	case "len", "cap":
		switch s := args[0].V.(type) {
		case *sym.SliceV:
			if id.Name == "len" {
				return TV{V: s.Len, Typ: tInt}, nil
			}
			return TV{V: s.Cap, Typ: tInt}, nil
		case *sym.SeqV:
			return TV{V: s.Len, Typ: tInt}, nil
		case *sym.StringV:
			if s.Const != nil {
				return TV{K: constant.MakeInt64(int64(len(*s.Const)))}, nil
			}
			return TV{V: s.Len, Typ: tInt}, nil
		}
	case "int":
		v := args[0]
		if v.K != nil {
			return e.conv(v, tInt), nil
		}
		t := v.V.(*term.Term)
		return TV{V: term.Zext(t, 64), Typ: tInt}, nil
	case "byte", "uint8":
		v := args[0]
		if v.K != nil {
			return e.conv(v, tByte), nil
		}
		return TV{V: term.Extract(v.V.(*term.Term), 0, 8), Typ: tByte}, nil
	case "prefix": // prefix(t, d, n): t is the first n elements of d, in place
		t, ok1 := args[0].V.(*sym.SliceV)
		d, ok2 := args[1].V.(*sym.SliceV)
		nn := e.conv(args[2], tInt).V.(*term.Term)
		if !ok1 || !ok2 {
			return TV{}, fmt.Errorf("prefix")
		}
		if t.Obj == nil || t.Obj != d.Obj || len(t.Path) != len(d.Path) {
			return TV{V: term.False, Typ: tBool}, nil
		}
		return TV{V: term.And(term.Not(t.Nil), term.Eq(t.Off, d.Off), term.Eq(t.Len, nn)), Typ: tBool}, nil
	}
	return TV{}, fmt.Errorf("unknown function %s", id.Name)
}

// method calls a method of the program that cannot fail and writes nothing.
func (e *Env) method(sel *ast.SelectorExpr, args []TV) (TV, error) {
	v, err := e.Eval(sel.X)
	if err != nil {
		return TV{}, err
	}
	nt, ok := v.Typ.(*types.Named)
	if !ok || e.Prog == nil {
		return TV{}, fmt.Errorf("method call on %v", v.Typ)
	}
	fn := e.Prog.SSA.LookupMethod(nt, nt.Obj().Pkg(), sel.Sel.Name)
	if fn == nil {
		return TV{}, fmt.Errorf("%s has no method %s", nt, sel.Sel.Name)
	}
	as := []sym.Value{v.V}
	for i, a := range args {
		as = append(as, e.conv(a, fn.Params[i+1].Type()).V)
	}
	r, err := e.World.Pure(fn, as...)
	if err != nil {
		return TV{}, err
	}
	return TV{V: r[0], Typ: fn.Signature.Results().At(0).Type()}, nil
}

func (e *Env) specCall(name string, args []TV) (TV, error) {
	fn := e.SpecP.Func("gover/spec", name)
	if fn == nil {
		return TV{}, fmt.Errorf("no spec.%s", name)
	}
	if len(args) != len(fn.Params) {
		return TV{}, fmt.Errorf("spec.%s takes %d arguments", name, len(fn.Params))
	}
	var as []sym.Value
	for i, a := range args {
		a = e.conv(a, fn.Params[i].Type())
		as = append(as, a.V)
	}
	r, err := e.Spec.Pure(fn, as...)
	if err != nil {
		return TV{}, err
	}
	return TV{V: r[0], Typ: fn.Signature.Results().At(0).Type()}, nil
}
