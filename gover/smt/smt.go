// Package smt talks to SMT-LIB solvers.
package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"gover/term"
)

// TableMode says how constant tables appear to the solver.
type TableMode int

const (
	Opaque TableMode = iota // an arbitrary function
	Full                    // defined entry by entry
)

type printer struct {
	b      *strings.Builder
	done   map[*term.Term]string
	tables TableMode
	bound  map[*term.Term]bool
	funs   map[string]bool
	hasB   map[*term.Term]bool
}

func newPrinter(tm TableMode) *printer {
	return &printer{b: &strings.Builder{}, done: map[*term.Term]string{}, tables: tm,
		bound: map[*term.Term]bool{}, funs: map[string]bool{}, hasB: map[*term.Term]bool{}}
}

func sym(s string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|" }

// plain reports a table short enough to be spelled out in every query.
func plain(vals []uint64) bool {
	runs := 0
	for i, v := range vals {
		if i == 0 || v != vals[i-1] {
			runs++
		}
	}
	return runs <= 16
}

func (p *printer) tableDef(name string) {
	d := term.Tables[name]
	if p.funs["table "+name] {
		return
	}
	p.funs["table "+name] = true
	s := term.BV(d.W).String()
	if d.W == 0 {
		s = "Bool"
	}
	if p.tables == Opaque && !plain(d.Vals) {
		fmt.Fprintf(p.b, "(declare-fun %s ((_ BitVec 64)) %s)\n", sym("T "+name), s)
		return
	}
	fmt.Fprintf(p.b, "(define-fun %s ((i (_ BitVec 64))) %s ", sym("T "+name), s)
	var rec func(lo, hi int) string
	lit := func(v uint64) string { return constStr(term.BV(d.W), v) }
	rec = func(lo, hi int) string {
		same := true
		for i := lo + 1; i < hi; i++ {
			if d.Vals[i] != d.Vals[lo] {
				same = false
				break
			}
		}
		if same {
			return lit(d.Vals[lo])
		}
		mid := (lo + hi) / 2
		return fmt.Sprintf("(ite (bvult i (_ bv%d 64)) %s %s)", mid, rec(lo, mid), rec(mid, hi))
	}
	if len(d.Vals) == 0 {
		p.b.WriteString(lit(0))
	} else {
		p.b.WriteString(rec(0, len(d.Vals)))
	}
	p.b.WriteString(")\n")
}

func constStr(s term.Sort, v uint64) string {
	if s.IsBool() {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, s.W)
}

func (p *printer) declare(ts []*term.Term) {
	// bound variables
	term.Walk(ts, func(t *term.Term) {
		if t.Op == term.OpForall {
			for _, v := range t.Args[1:] {
				p.bound[v] = true
			}
		}
	})
	term.Walk(ts, func(t *term.Term) {
		if _, ok := p.done[t]; ok {
			return
		}
		if p.bound[t] {
			p.hasB[t] = true
		}
		if t.Op != term.OpForall {
			for _, a := range t.Args {
				if p.hasB[a] {
					p.hasB[t] = true
				}
			}
		}
		switch t.Op {
		case term.OpVar:
			if !p.bound[t] {
				fmt.Fprintf(p.b, "(declare-const %s %s)\n", sym(t.Name), t.S)
			}
			p.done[t] = sym(t.Name)
			return
		case term.OpConst:
			p.done[t] = constStr(t.S, t.Val)
			return
		case term.OpTable:
			p.tableDef(t.Name)
		case term.OpApp:
			if !p.funs["f "+t.Name] {
				p.funs["f "+t.Name] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, a.S.String())
				}
				fmt.Fprintf(p.b, "(declare-fun %s (%s) %s)\n", sym(t.Name), strings.Join(as, " "), t.S)
			}
		}
		if p.hasB[t] {
			return
		}
		e := p.expr(t)
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(p.b, "(define-fun %s () %s %s)\n", n, t.S, e)
		p.done[t] = n
	})
}

func (p *printer) ref(t *term.Term) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	return p.expr(t)
}

var opn = map[term.Op]string{term.OpNot: "not", term.OpAnd: "and", term.OpOr: "or", term.OpIte: "ite", term.OpEq: "=",
	term.OpMul: "bvmul", term.OpUdiv: "bvudiv", term.OpUrem: "bvurem", term.OpSdiv: "bvsdiv", term.OpSrem: "bvsrem",
	term.OpBAnd: "bvand", term.OpBOr: "bvor", term.OpBXor: "bvxor", term.OpShl: "bvshl", term.OpLshr: "bvlshr", term.OpAshr: "bvashr",
	term.OpUlt: "bvult", term.OpUle: "bvule", term.OpSlt: "bvslt", term.OpSle: "bvsle",
	term.OpConcat: "concat", term.OpSelect: "select", term.OpStore: "store"}

func (p *printer) expr(t *term.Term) string {
	switch t.Op {
	case term.OpConst:
		return constStr(t.S, t.Val)
	case term.OpVar:
		return sym(t.Name)
	case term.OpLin:
		var parts []string
		for i, a := range t.Args {
			c := t.Coef[i]
			switch {
			case c == 1:
				parts = append(parts, p.ref(a))
			case term.SignExt(c, t.S.W) == -1:
				parts = append(parts, "(bvneg "+p.ref(a)+")")
			default:
				parts = append(parts, "(bvmul "+constStr(t.S, c)+" "+p.ref(a)+")")
			}
		}
		if t.Val != 0 {
			parts = append(parts, constStr(t.S, t.Val))
		}
		s := parts[0]
		for _, x := range parts[1:] {
			s = "(bvadd " + s + " " + x + ")"
		}
		return s
	case term.OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.Val)+t.S.W-1, t.Val, p.ref(t.Args[0]))
	case term.OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.Args[0].S.W, p.ref(t.Args[0]))
	case term.OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, p.ref(t.Args[0]))
	case term.OpTable:
		return "(" + sym("T "+t.Name) + " " + p.ref(t.Args[0]) + ")"
	case term.OpApp:
		if len(t.Args) == 0 {
			return sym(t.Name)
		}
		s := "(" + sym(t.Name)
		for _, a := range t.Args {
			s += " " + p.ref(a)
		}
		return s + ")"
	case term.OpForall:
		s := "(forall ("
		for _, v := range t.Args[1:] {
			s += "(" + sym(v.Name) + " " + v.S.String() + ")"
		}
		return s + ") " + p.ref(t.Args[0]) + ")"
	}
	s := "(" + opn[t.Op]
	for _, a := range t.Args {
		s += " " + p.ref(a)
	}
	return s + ")"
}

// Result of a satisfiability query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Session is an incremental solver process.
type Session struct {
	Name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	p       *printer
	Queries int
	Time    time.Duration
	dead    bool
	log     *strings.Builder
}

// Path of each solver binary and its arguments.
var solverArgs = map[string][]string{
	"z3":     {"z3-new", "-in", "-smt2"},
	"z3-old": {"z3", "-in", "-smt2"},
	"cvc5":   {"cvc5", "--lang=smt2", "--incremental", "--produce-models"},
}

var (
	halted  = make(chan struct{})
	stopped atomic.Bool
)

// Halt has every query end at once, from now on.
func Halt() {
	if !stopped.Swap(true) {
		close(halted)
	}
}

func solverCmd(name string) []string { return solverArgs[name] }

func NewSession(name string, tm TableMode) (*Session, error) {
	a := solverCmd(name)
	cmd := exec.Command(a[0], a[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Session{Name: name, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), p: newPrinter(tm)}
	s.p.b.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic ALL)\n")
	return s, nil
}

func (s *Session) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Session) flush() {
	io.WriteString(s.in, s.p.b.String())
	if s.log != nil {
		s.log.WriteString(s.p.b.String())
	}
	s.p.b.Reset()
}

func (s *Session) Push() { s.p.b.WriteString("(push 1)\n") }
func (s *Session) Pop()  { s.p.b.WriteString("(pop 1)\n") }
func (s *Session) Assert(ts ...*term.Term) {
	s.p.declare(ts)
	for _, t := range ts {
		fmt.Fprintf(s.p.b, "(assert %s)\n", s.p.ref(t))
	}
}

func (s *Session) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "error"
	}
	return strings.TrimSpace(l)
}

// Check asks for satisfiability with a time limit.
func (s *Session) Check(limit time.Duration) Result {
	if s.dead || stopped.Load() {
		return Unknown
	}
	s.Queries++
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if strings.HasPrefix(s.Name, "z3") {
		fmt.Fprintf(s.p.b, "(set-option :timeout %d)\n", limit.Milliseconds())
	}
	s.p.b.WriteString("(check-sat)\n")
	s.flush()
	timer := time.AfterFunc(limit+5*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	for {
		l := s.line()
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			panic("solver error: " + l)
		case s.dead:
			return Unknown
		}
	}
}

// Values reads the model's values of scalar terms after Sat.
func (s *Session) Values(ts []*term.Term) []uint64 {
	if len(ts) == 0 {
		return nil
	}
	s.p.declare(ts)
	s.p.b.WriteString("(get-value (")
	for _, t := range ts {
		s.p.b.WriteString(s.p.ref(t) + " ")
	}
	s.p.b.WriteString("))\n")
	s.flush()
	depth := 0
	var b strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	return parseValues(b.String(), len(ts))
}

// parseValues parses ((t v) (t v) ...).
func parseValues(s string, n int) []uint64 {
	var out []uint64
	toks := tokenize(s)
	i := 1
	for len(out) < n && i < len(toks) {
		// toks[i] == "("
		i++
		i = skip(toks, i) // term
		v, j := value(toks, i)
		out = append(out, v)
		i = j + 1
	}
	for len(out) < n {
		out = append(out, 0)
	}
	return out
}

func skip(toks []string, i int) int {
	if toks[i] != "(" {
		return i + 1
	}
	d := 0
	for {
		if toks[i] == "(" {
			d++
		} else if toks[i] == ")" {
			d--
			if d == 0 {
				return i + 1
			}
		}
		i++
	}
}

func value(toks []string, i int) (uint64, int) {
	t := toks[i]
	switch {
	case t == "true":
		return 1, i + 1
	case t == "false":
		return 0, i + 1
	case strings.HasPrefix(t, "#x"):
		v, _ := strconv.ParseUint(t[2:], 16, 64)
		return v, i + 1
	case strings.HasPrefix(t, "#b"):
		v, _ := strconv.ParseUint(t[2:], 2, 64)
		return v, i + 1
	case t == "(" && toks[i+1] == "_":
		v, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
		return v, skip(toks, i)
	}
	return 0, skip(toks, i)
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// Stats accumulates solver use across one-shot queries.
type Stats struct {
	mu      sync.Mutex
	Queries map[string]int
	Time    map[string]time.Duration
}

var Total = &Stats{Queries: map[string]int{}, Time: map[string]time.Duration{}}

func (s *Stats) Add(name string, q int, d time.Duration) {
	s.mu.Lock()
	s.Queries[name] += q
	s.Time[name] += d
	s.mu.Unlock()
}

// Query is a one-shot satisfiability problem.
type Query struct {
	Text   string
	values []string
}

// Prepare prints a query; it must be called from the goroutine that builds terms.
func Prepare(tm TableMode, values []*term.Term, asserts ...*term.Term) *Query {
	p := newPrinter(tm)
	p.b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	p.declare(asserts)
	p.declare(values)
	for _, t := range asserts {
		fmt.Fprintf(p.b, "(assert %s)\n", p.ref(t))
	}
	q := &Query{}
	for _, v := range values {
		q.values = append(q.values, p.ref(v))
	}
	q.Text = p.b.String()
	return q
}

// Solve runs the query on one solver; on Sat the values are returned.
func (q *Query) Solve(ctx context.Context, name string, limit time.Duration) (Result, []uint64, time.Duration) {
	t0 := time.Now()
	a := append([]string{}, solverCmd(name)...)
	var pre string
	// the limit is of processor time, where the machine has other things to do
	cpu := uint64((limit + time.Second - 1) / time.Second)
	limit *= 4
	if strings.HasPrefix(name, "z3") {
		pre = fmt.Sprintf("(set-option :timeout %d)\n", limit.Milliseconds())
	} else {
		a = append(a, fmt.Sprintf("--tlimit=%d", limit.Milliseconds()))
	}
	text := pre + q.Text + "(check-sat)\n"
	if len(q.values) > 0 {
		text += "(get-value (" + strings.Join(q.values, " ") + "))\n"
	}
	text += "(exit)\n"
	c, cancel := context.WithTimeout(ctx, limit+5*time.Second)
	defer cancel()
	if stopped.Load() {
		return Unknown, nil, 0
	}
	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-halted:
			cancel()
		case <-done:
		}
	}()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(text)
	var b bytes.Buffer
	cmd.Stdout = &b
	if err := cmd.Start(); err != nil {
		return Unknown, nil, time.Since(t0)
	}
	r := [2]uint64{cpu, cpu + 1}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), syscall.RLIMIT_CPU, uintptr(unsafe.Pointer(&r)), 0, 0, 0)
	cmd.Wait()
	out := b.Bytes()
	d := time.Since(t0)
	Total.Add(name, 1, d)
	s := string(out)
	first, rest, _ := strings.Cut(s, "\n")
	switch strings.TrimSpace(first) {
	case "sat":
		if len(q.values) > 0 && strings.HasPrefix(strings.TrimSpace(rest), "((") {
			return Sat, parseValues(strings.TrimSpace(rest), len(q.values)), d
		}
		return Sat, nil, d
	case "unsat":
		return Unsat, nil, d
	}
	if strings.HasPrefix(first, "(error") {
		panic("solver error from " + name + ": " + first + "\n" + text)
	}
	return Unknown, nil, d
}
