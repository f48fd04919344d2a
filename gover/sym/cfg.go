package sym

import (
	"golang.org/x/tools/go/ssa"
)

// loopInfo is a natural loop, or the whole function (head nil).
type loopInfo struct {
	head   *ssa.BasicBlock
	parent *loopInfo
	body   map[*ssa.BasicBlock]bool
	kids   map[*ssa.BasicBlock]*loopInfo // by head
	ord    int
}

type cfg struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	root  *loopInfo
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop of each block
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	bad   string
}

func buildCFG(fn *ssa.Function) *cfg {
	c := &cfg{fn: fn, num: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	c.root = &loopInfo{body: map[*ssa.BasicBlock]bool{}, kids: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range c.rpo {
		c.root.body[b] = true
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	var heads []*ssa.BasicBlock
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if c.num[s] > c.num[b] {
				continue
			}
			if !s.Dominates(b) {
				c.bad = "irreducible control flow"
				return c
			}
			l := loops[s]
			if l == nil {
				l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}, kids: map[*ssa.BasicBlock]*loopInfo{}}
				loops[s] = l
				heads = append(heads, s)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	// nesting: parent of l is the smallest other loop containing its head
	ord := 0
	for _, b := range c.rpo {
		if l := loops[b]; l != nil {
			l.ord = ord
			ord++
			l.parent = c.root
			for _, h := range heads {
				m := loops[h]
				if m != l && m.body[l.head] && len(m.body) < len(l.parent.body) {
					l.parent = m
				}
			}
			l.parent.kids[l.head] = l
		}
	}
	for _, b := range c.rpo {
		in := c.root
		for _, h := range heads {
			m := loops[h]
			if m.body[b] && len(m.body) < len(in.body) {
				in = m
			}
		}
		c.inner[b] = in
	}
	c.liveness()
	return c
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
		return false
	}
	return true
}

// liveness computes the registers live on entry to each block, after its phis.
func (c *cfg) liveness() {
	c.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range c.rpo {
		c.live[b] = map[ssa.Value]bool{}
	}
	// in[b]: live at entry, phi results excluded as uses of predecessors' edges
	for changed := true; changed; {
		changed = false
		for i := len(c.rpo) - 1; i >= 0; i-- {
			b := c.rpo[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range c.live[s] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
						continue
					}
					l[v] = true
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && isReg(phi.Edges[k]) {
							l[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(c.live[b]) {
				c.live[b] = l
				changed = true
			}
		}
	}
}
