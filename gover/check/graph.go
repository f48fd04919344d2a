package check

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"gover/prove"
	"gover/smt"
	"gover/term"
)

// Node is a program point with candidate invariants over its variables.
type Node struct {
	Name   string
	Pos    string
	G      *term.Term // condition under which it was first entered
	Parent *Node      // the point that entry came from
	Cands  []*Cand
	Fixed  []*term.Term // known to hold there
}

// Arc is a way to a node; Map gives the node's variables their new values.
type Arc struct {
	From *Node // nil: the entry of the function
	To   *Node
	G    *term.Term
	Map  map[*term.Term]*term.Term
	Back bool
}

// Graph is a transition system for invariant inference.
type Graph struct {
	Facts []*term.Term
	Nodes []*Node
	Arcs  []*Arc
}

func (n *Node) hyps() []*term.Term {
	var h []*term.Term
	for ; n != nil; n = n.Parent {
		h = append(h, n.Fixed...)
		for _, c := range n.Cands {
			h = append(h, term.Implies(n.G, c.T))
		}
	}
	return h
}

// Houdini drops the candidates that are not inductive, until all are.
func (g *Graph) Houdini() error {
	any := false
	for _, n := range g.Nodes {
		any = any || len(n.Cands) > 0
	}
	if !any {
		return nil
	}
	ses, err := smt.NewSession("z3", smt.Opaque)
	if err != nil {
		return err
	}
	defer func() {
		smt.Total.Add("z3", ses.Queries, ses.Time)
		ses.Close()
	}()
	ses.Assert(g.Facts...)
	dbg := os.Getenv("GOVER_H") != ""
	single := func(a *Arc, neg, goal *term.Term) bool {
		ses.Push()
		ses.Assert(neg)
		t0 := time.Now()
		res := ses.Check(1500 * time.Millisecond)
		ses.Pop()
		if res == smt.Unknown {
			h := append(append([]*term.Term{}, g.Facts...), a.From.hyps()...)
			if prove.Prove(prove.VC{Hyps: h, Guard: a.G, Goal: goal}, prove.Options{Limit: 10 * time.Second, MaxBits: 0}).Status == prove.Valid {
				res = smt.Unsat
			}
		}
		if dbg {
			fmt.Fprintf(os.Stderr, "   houdini single %v %.2fs\n", res, time.Since(t0).Seconds())
		}
		return res == smt.Unsat
	}
	check := func(a *Arc) bool {
		if len(a.To.Cands) == 0 || a.G.IsFalse() {
			return false
		}
		changed := false
		ses.Push()
		defer ses.Pop()
		ses.Assert(a.From.hyps()...)
		ses.Assert(a.G)
		sb := term.NewSubst(a.Map)
		goals := map[*Cand]*term.Term{}
		for _, c := range a.To.Cands {
			goals[c] = sb.Do(c.T)
		}
		chunk := 0
		for {
			var neg, vals []*term.Term
			var live []*Cand
			for _, c := range a.To.Cands {
				if goals[c].IsTrue() {
					continue
				}
				neg = append(neg, term.Not(goals[c]))
				vals = append(vals, goals[c])
				live = append(live, c)
			}
			if len(neg) == 0 {
				return changed
			}
			drop := map[*Cand]bool{}
			step := len(neg)
			if chunk > 0 {
				step = chunk
			}
			unknown := false
			for i := 0; i < len(neg); i += step {
				k := min(i+step, len(neg))
				if step == 1 {
					if !single(a, neg[i], vals[i]) {
						drop[live[i]] = true
					}
					continue
				}
				ses.Push()
				ses.Assert(term.Or(neg[i:k]...))
				t0 := time.Now()
				r := ses.Check(2 * time.Second)
				if dbg {
					fmt.Fprintf(os.Stderr, "   houdini %s back=%v cands=%d %v %.2fs\n", a.To.Name[max(0, len(a.To.Name)-30):], a.Back, k-i, r, time.Since(t0).Seconds())
				}
				if r == smt.Sat {
					for j, v := range ses.Values(vals[i:k]) {
						if v == 0 {
							drop[live[i+j]] = true
						}
					}
				}
				ses.Pop()
				if r == smt.Unknown {
					if chunk == 0 {
						unknown = true
						break
					}
					for j := i; j < k; j++ {
						if !single(a, neg[j], vals[j]) {
							drop[live[j]] = true
						}
					}
				}
			}
			if unknown && len(drop) == 0 {
				chunk = 6
				if len(neg) <= 6 {
					chunk = 1
				}
				continue
			}
			if len(drop) == 0 {
				return changed
			}
			var keep []*Cand
			for _, c := range a.To.Cands {
				if !drop[c] {
					keep = append(keep, c)
				}
			}
			a.To.Cands = keep
			changed = true
		}
	}
	// an arc whose hypotheses and goals have not changed need not be tried again
	sig := func(a *Arc) int {
		k := len(a.To.Cands)
		for n := a.From; n != nil; n = n.Parent {
			k += len(n.Cands)
		}
		return k
	}
	last := map[*Arc]int{}
	for {
		changed := false
		for _, a := range g.Arcs {
			if k, ok := last[a]; ok && k == sig(a) {
				continue
			}
			k := sig(a)
			if check(a) {
				changed = true
			}
			if sig(a) == k || a.From == nil {
				last[a] = sig(a)
			}
		}
		if !changed {
			return nil
		}
	}
}

// Recheck proves each invariant that was kept, as recorded obligations.
func (g *Graph) Recheck(r *Report, fn string) {
	var together, single []func()
	var its [][]*Item
	var mu sync.Mutex
	for _, a := range g.Arcs {
		if a.G.IsFalse() {
			continue
		}
		h := append(append([]*term.Term{}, g.Facts...), a.From.hyps()...)
		sb := term.NewSubst(a.Map)
		var gs []*term.Term
		var names []string
		for _, c := range a.To.Cands {
			gs = append(gs, sb.Do(c.T))
			names = append(names, c.Name)
		}
		if len(gs) == 0 {
			continue
		}
		k := "invariant (entry)"
		if a.Back {
			k = "invariant (preserved)"
		}
		one := func(n string, goal *term.Term, limit time.Duration) *Item {
			res := prove.Prove(prove.VC{Hyps: h, Guard: a.G, Goal: goal}, prove.Options{Limit: limit, MaxBits: 0})
			return item(fn, k, n, a.To.Pos, res)
		}
		all := term.And(gs...)
		i := len(its)
		its = append(its, nil)
		together = append(together, func() {
			limit := 20 * time.Second
			if len(gs) > 1 {
				limit = 4 * time.Second
			}
			it := one(strings.Join(names, ", "), all, limit)
			it.Count = len(gs)
			its[i] = []*Item{it}
			if it.Status == "proved" || len(gs) == 1 {
				return
			}
			// together they were too much: one at a time
			mu.Lock()
			defer mu.Unlock()
			its[i] = make([]*Item, len(gs))
			for j := range gs {
				single = append(single, func() { its[i][j] = one(names[j], gs[j], 20*time.Second) })
			}
		})
	}
	each(8, together, func(f func()) { f() })
	each(8, single, func(f func()) { f() })
	for _, l := range its {
		for _, it := range l {
			r.add(it)
		}
	}
}
