package sym

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"gover/term"
)

// Pure runs a total function without side effects on symbolic arguments.
func (w *World) Pure(fn *ssa.Function, args ...Value) ([]Value, error) {
	x := w.Exec()
	st := &State{G: term.True, Mem: map[*Obj]Value{}}
	outs := x.Run(fn, args, nil, st)
	// code without a way to fail leaves by some return: the guard is valid
	if len(outs) != 1 {
		return nil, fmt.Errorf("%s is not total (%d outcomes)", fn, len(outs))
	}
	for _, o := range x.Obligs {
		return nil, fmt.Errorf("%s: %s %s", fn, o.Kind, o.Name)
	}
	if len(x.Loops) > 0 {
		return nil, fmt.Errorf("%s has a loop", fn)
	}
	return outs[0].Res, nil
}
