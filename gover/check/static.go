package check

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gover/sym"
)

func uses(text string, words ...string) bool {
	for _, w := range words {
		if strings.Contains(text, w+"(") {
			return true
		}
	}
	return false
}

// markMutable finds the package-level variables that code other than package
// initialisers may write: those whose address is used for anything but loads.
func markMutable(p *sym.Program, w *sym.World) {
	for _, g := range mutableGlobals(p) {
		w.Mutable[g] = true
	}
}

// mutableGlobals looks at the module's own packages only: package-level
// variables are unexported or, where exported, other modules could write them.
func mutableGlobals(p *sym.Program) []*ssa.Global {
	seen := map[*ssa.Global]bool{}
	fl := &flow{seen: map[ssa.Value]bool{}, callers: map[*ssa.Function][]*ssa.Call{}}
	all := allFuncs(p)
	for fn := range all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if k := c.Call.StaticCallee(); k != nil {
						fl.callers[k] = append(fl.callers[k], c)
					}
				}
			}
		}
	}
	for fn := range all {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			continue
		}
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || seen[g] {
						continue
					}
					if fl.writes(in, g) {
						seen[g] = true
					}
				}
			}
		}
	}
	var r []*ssa.Global
	for g := range seen {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// isInit says whether a function runs only during package initialisation.
func isInit(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil && isInit(fn.Parent()) || fn.Parent() != nil && fn.Parent().Name() == "init"
}

// flow follows what is done with an address or reference derived from a global.
type flow struct {
	seen    map[ssa.Value]bool
	callers map[*ssa.Function][]*ssa.Call
}

// writes says whether an instruction using a global's address may write what
// it holds, now or through the address it makes available.
func (f *flow) writes(in ssa.Instruction, g ssa.Value) bool {
	switch i := in.(type) {
	case *ssa.UnOp: // load
		if !strings.HasPrefix(pathOf(g), modPath) && types.Identical(i.Type(), types.Universe.Lookup("error").Type()) {
			return false // an error of the library's
		}
		return f.used(i)
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
		return f.used(i.(ssa.Value))
	case *ssa.DebugRef:
		return false
	}
	return true
}

func pathOf(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok && g.Pkg != nil {
		return g.Pkg.Pkg.Path()
	}
	return modPath
}

// used: v may refer to a global's memory.
func (f *flow) used(v ssa.Value) bool {
	if f.seen[v] || !refers(v.Type(), 0) {
		return false
	}
	f.seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp:
			if f.used(i) {
				return true
			}
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Phi, *ssa.Extract, *ssa.Lookup, *ssa.Index, *ssa.Field, *ssa.ChangeType:
			if f.used(i.(ssa.Value)) {
				return true
			}
		case *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
			// kept in a local variable: follow that
			al, ok := i.Addr.(*ssa.Alloc)
			if !ok || f.localWritten(al) {
				return true
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" || (b.Name() == "copy" || b.Name() == "append" && !refers(v.Type().Underlying().(*types.Slice).Elem(), 0)) && i.Call.Args[0] != v {
					continue
				}
				return true
			}
			if i.Call.IsInvoke() {
				return true
			}
			if i.Call.Value == v { // calling a function held in a variable
				continue
			}
			callee := i.Call.StaticCallee()
			if callee != nil && readers[callee.String()] {
				// what it returns may be a part of its first argument
				if i.Call.Args[0] == v && f.used(i) {
					return true
				}
				continue
			}
			if callee == nil || callee.Blocks == nil || callee.Pkg == nil || !strings.HasPrefix(callee.Pkg.Pkg.Path(), modPath) {
				return true
			}
			for k, a := range i.Call.Args {
				if a == v && f.used(callee.Params[k]) {
					return true
				}
			}
		case *ssa.Return:
			for _, c := range f.callers[i.Parent()] {
				if f.used(c) {
					return true
				}
			}
			if o := i.Parent().Object(); o != nil && o.Exported() && o.Pkg() != nil && !strings.Contains(o.Pkg().Path(), "/internal/") {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// readers are library functions that do not write or keep their arguments.
var readers = map[string]bool{}

func init() {
	for _, n := range []string{"Clone", "Compare", "Contains", "ContainsAny", "Count", "Cut", "CutPrefix", "CutSuffix", "Equal", "EqualFold", "Fields", "HasPrefix", "HasSuffix",
		"Index", "IndexByte", "IndexRune", "LastIndex", "LastIndexByte", "Split", "SplitN", "SplitSeq", "Trim", "TrimLeft", "TrimPrefix", "TrimRight", "TrimSpace", "TrimSuffix"} {
		readers["bytes."+n] = true
	}
}

// localWritten: a reference was stored in a local variable.
func (f *flow) localWritten(al *ssa.Alloc) bool {
	if f.seen[al] {
		return false
	}
	f.seen[al] = true
	for _, r := range *al.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Val == al {
				return true
			}
		case *ssa.UnOp:
			if f.used(i) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func refers(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refers(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// allFuncs are the functions of the loaded program that have bodies.
func allFuncs(p *sym.Program) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SSA.AllPackages() {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) && !strings.HasPrefix(sp.Pkg.Path(), "gover/") && sp.Pkg.Path() != autoPkg {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(p.SSA.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return r
}
