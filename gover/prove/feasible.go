package prove

import (
	"time"

	"gover/sym"
	"gover/term"
)

// Feasible asks whether a path condition can hold.
func Feasible(x *sym.Exec, g *term.Term) bool {
	r := Prove(VC{Hyps: append(append([]*term.Term(nil), x.Axioms...), x.Facts...), Guard: g, Goal: term.False}, Options{Limit: 5 * time.Second, MaxBits: 16})
	return r.Status != Valid
}
