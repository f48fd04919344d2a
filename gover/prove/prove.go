// Package prove discharges verification conditions.
package prove

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	"gover/smt"
	"gover/term"
)

type Status int

const (
	Unknown Status = iota
	Valid
	Refuted
)

func (s Status) String() string { return [...]string{"unknown", "proved", "refuted"}[s] }

type Result struct {
	Status  Status
	Backend string
	Time    time.Duration
	Model   map[*term.Term]uint64
	Query   string // SMT-LIB text, for unproved goals
}

// VC is hyps |= goal.
type VC struct {
	Name  string
	Hyps  []*term.Term // background facts; only those connected to the rest are used
	Guard *term.Term   // may be nil
	Goal  *term.Term
}

func vars(t *term.Term, memo map[*term.Term]map[*term.Term]bool) map[*term.Term]bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := map[*term.Term]bool{}
	term.Walk([]*term.Term{t}, func(u *term.Term) {
		if u.Op == term.OpVar {
			r[u] = true
		}
	})
	memo[t] = r
	return r
}

var varMemo = map[*term.Term]map[*term.Term]bool{}

// relevant keeps the hypotheses connected to the goal by shared variables.
func relevant(hyps []*term.Term, goal *term.Term) []*term.Term {
	in := map[*term.Term]bool{}
	for v := range vars(goal, varMemo) {
		in[v] = true
	}
	used := make([]bool, len(hyps))
	for changed := true; changed; {
		changed = false
		for i, h := range hyps {
			if used[i] {
				continue
			}
			hv := vars(h, varMemo)
			hit := len(hv) == 0
			for v := range hv {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for v := range hv {
					in[v] = true
				}
			}
		}
	}
	var r []*term.Term
	for i, h := range hyps {
		if used[i] {
			r = append(r, h)
		}
	}
	return r
}

// Options bound the effort.
type Options struct {
	Limit    time.Duration // per solver call
	MaxBits  int           // exhaustive evaluation when the goal has at most this many free bits
	Tables   bool          // allow table contents
	KeepText bool
	All      bool // use all hypotheses
}

var Default = Options{Limit: 20 * time.Second, MaxBits: 22, Tables: true}

var Mu sync.Mutex

// Prove decides one VC.
func Prove(vc VC, o Options) Result {
	t0 := time.Now()
	Mu.Lock()
	g := vc.Guard
	if g == nil {
		g = term.True
	}
	hyps := vc.Hyps
	if !o.All {
		hyps = relevant(vc.Hyps, term.And(g, term.Not(vc.Goal)))
	}
	hyps = append(hyps[:len(hyps):len(hyps)], g)
	neg := term.And(append(append([]*term.Term{}, hyps...), term.Not(vc.Goal))...)
	Mu.Unlock()
	if neg.IsFalse() {
		return Result{Status: Valid, Backend: "simplifier", Time: time.Since(t0)}
	}
	hasTable := false
	quant := false
	term.Walk([]*term.Term{neg}, func(t *term.Term) {
		if t.Op == term.OpTable {
			hasTable = true
		}
		if t.Op == term.OpForall {
			quant = true
		}
	})
	if !quant {
		if r, ok := exhaustive(neg, o.MaxBits); ok {
			r.Time = time.Since(t0)
			return r
		}
	}
	try := func(tm smt.TableMode, solvers []string, lim time.Duration) Result {
		Mu.Lock()
		vs := modelVars(neg)
		q := smt.Prepare(tm, vs, neg)
		Mu.Unlock()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type ans struct {
			s   string
			r   smt.Result
			val []uint64
		}
		ch := make(chan ans, len(solvers))
		for _, s := range solvers {
			go func(s string) {
				a := ans{s: s}
				defer func() { recover(); ch <- a }()
				a.r, a.val, _ = q.Solve(ctx, s, lim)
			}(s)
		}
		for range solvers {
			a := <-ch
			if a.r == smt.Unsat {
				return Result{Status: Valid, Backend: a.s, Time: time.Since(t0)}
			}
			if a.r == smt.Sat {
				m := map[*term.Term]uint64{}
				for i, v := range vs {
					if i < len(a.val) {
						m[v] = a.val[i]
					}
				}
				return Result{Status: Refuted, Backend: a.s, Time: time.Since(t0), Model: m, Query: q.Text}
			}
		}
		return Result{Status: Unknown, Backend: fmt.Sprint(solvers), Time: time.Since(t0), Query: q.Text}
	}
	r := try(smt.Opaque, []string{"z3"}, min(o.Limit, 5*time.Second))
	if r.Status == Unknown {
		r = try(smt.Opaque, []string{"z3", "cvc5", "z3-old"}, o.Limit)
	}
	if r.Status == Valid || !hasTable || !o.Tables {
		return r
	}
	return try(smt.Full, []string{"z3", "cvc5", "z3-old"}, o.Limit)
}

func modelVars(t *term.Term) []*term.Term {
	var r []*term.Term
	seen := map[*term.Term]bool{}
	term.Walk([]*term.Term{t}, func(u *term.Term) {
		if u.S.Arr || seen[u] {
			return
		}
		if u.Op == term.OpVar || u.Op == term.OpSelect || u.Op == term.OpApp {
			seen[u] = true
			r = append(r, u)
		}
	})
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// exhaustive evaluates a closed-enough formula on all values of its inputs.
func exhaustive(neg *term.Term, maxBits int) (Result, bool) {
	var in []*term.Term
	bits := 0
	ok := true
	sel := map[*term.Term]bool{}
	term.Walk([]*term.Term{neg}, func(u *term.Term) {
		switch u.Op {
		case term.OpSelect:
			if u.Args[0].Op != term.OpVar {
				ok = false
				return
			}
			sel[u] = true
			in = append(in, u)
			bits += max(1, u.S.W)
		case term.OpVar:
			if u.S.Arr {
				return
			}
			in = append(in, u)
			bits += max(1, u.S.W)
		case term.OpApp, term.OpForall, term.OpStore:
			ok = false
		}
	})
	// two selects of one array at different but possibly equal indices are
	// treated as independent: that only over-approximates, so a proof stands
	if !ok || bits > maxBits || len(in) == 0 {
		return Result{}, false
	}
	Mu.Lock()
	m := map[*term.Term]*term.Term{}
	var vs []*term.Term
	var ws []int
	for _, u := range in {
		v := u
		if sel[u] {
			v = term.Fresh("sel", u.S)
			m[u] = v
		}
		vs = append(vs, v)
		ws = append(ws, max(1, u.S.W))
	}
	g := term.Subst(neg, m)
	// index variables of replaced selects may be gone
	if g.IsFalse() {
		Mu.Unlock()
		return Result{Status: Valid, Backend: "simplifier"}, true
	}
	p := term.Compile(g)
	Mu.Unlock()
	e := &term.Env{Vars: map[*term.Term]uint64{}}
	for n := uint64(0); n < 1<<uint(bits); n++ {
		k := n
		for i, v := range vs {
			e.Vars[v] = k & (1<<uint(ws[i]) - 1)
			k >>= uint(ws[i])
		}
		p.Run(e)
		if p.Out(0) != 0 {
			if len(sel) > 0 && distinctIdx(in, sel) {
				return Result{}, false
			}
			mod := map[*term.Term]uint64{}
			for i := range vs {
				mod[in[i]] = e.Vars[vs[i]]
			}
			return Result{Status: Refuted, Backend: "exhaustive", Model: mod}, true
		}
	}
	return Result{Status: Valid, Backend: "exhaustive"}, true
}

func distinctIdx(in []*term.Term, sel map[*term.Term]bool) bool {
	for _, u := range in {
		if sel[u] && !u.Args[1].IsConst() {
			return true
		}
	}
	return false
}
