package main

import (
	"fmt"
	"time"

	"gover/prove"
	"gover/sym"
	"gover/term"
)

func main() {
	t0 := time.Now()
	p, err := sym.Load("/repo", []string{"GOWORK=off"}, "./textseg")
	if err != nil {
		panic(err)
	}
	fmt.Println("load", time.Since(t0))
	w := sym.NewWorld(p)
	base := "github.com/apparentlymart/go-textseg/v17/textseg"
	for _, n := range []struct{ pkg, fn string }{{base + "/internal/charprops", "LookupFirstChar"}, {base + "/internal/machine", "Begin"}, {base + "/internal/machine", "State.Transition"}, {base, "ScanGraphemeClusters"}} {
		fn := p.Func(n.pkg, n.fn)
		fmt.Println(fn)
		x := w.Exec()
		x.Feasible = prove.Feasible
		st := &sym.State{G: term.True, Mem: map[*sym.Obj]sym.Value{}}
		var args []sym.Value
		for _, pa := range fn.Params {
			args = append(args, x.Input(st, pa.Name(), pa.Type()))
		}
		t0 := time.Now()
		outs := x.Run(fn, args, nil, st)
		fmt.Println("exec", time.Since(t0), len(outs), "outcomes", len(x.Obligs), "obligs", len(x.Loops), "loops", "inits", w.InitErrs)
		for _, o := range outs {
			fmt.Println("  guard size", term.Size(o.G), "src", o.Src != nil)
		}
		for _, l := range x.Loops {
			fmt.Println("  loop", l.Key)
			for _, v := range l.Vars {
				fmt.Println("     ", v.Name)
			}
			fmt.Println("     in", len(l.In))
		}
		for _, ob := range x.Obligs {
			r := prove.Prove(prove.VC{Hyps: x.Facts[:ob.Facts], Guard: ob.Guard, Goal: ob.Goal}, prove.Default)
			fmt.Println("  ", ob.Kind, ob.Name, p.Fset.Position(ob.Pos), r.Status, r.Backend, r.Time)
		}
	}
}
