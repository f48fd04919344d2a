package check

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"gover/prove"
	"gover/smt"
	"gover/term"
)

// Item is one proof obligation and what became of it.
type Item struct {
	Func    string  `json:"func"`
	Kind    string  `json:"kind"` // safety, frame, post, invariant, pre, lemma, ...
	Name    string  `json:"name"`
	Pos     string  `json:"pos,omitempty"`
	Status  string  `json:"status"` // proved, failed
	Backend string  `json:"backend,omitempty"`
	Seconds float64 `json:"seconds"`
	Detail  string  `json:"detail,omitempty"`
	Bounded string  `json:"bounded,omitempty"` // the bound, when this is not a proof
	Count   int     `json:"count,omitempty"`   // obligations this line stands for

	model  map[*term.Term]uint64
	query  string
	logged bool
	seeds  [][]byte // inputs to try natively
}

// Report collects what one check did.
type Report struct {
	Prop        string
	Title       string
	Items       []*Item
	Functions   map[string]string // function -> contract, inlined, assumed
	Assumptions []string
	Bounds      []string
	Notes       []string
	Seeds       [][]byte // inputs suggested by counterexamples
	Extra       map[string]any
	Started     time.Time
	Log         bool

	mu         sync.Mutex
	together   bool // in a batch
	queue      []queued
	closed     bool
	subject    *Subject
	violations int
	standIns   []standIn
	direct     string // a failing input found without the native harness
}

// standIn is a bounded check in the place of a proof.
type standIn struct{ fn, what, bound string }

func NewReport(prop string) *Report {
	return &Report{Prop: prop, Functions: map[string]string{}, Extra: map[string]any{}, Started: time.Now(), Log: os.Getenv("GOVER_LOG") != ""}
}

// fork is for a part that may be given up for a bounded stand-in.
func (r *Report) fork() *Report {
	return &Report{Prop: r.Prop, Functions: map[string]string{}, Extra: map[string]any{}, Started: r.Started, Log: r.Log}
}

// join takes over what a part found.
func (r *Report) join(f *Report) {
	for _, it := range f.Items {
		r.add(it)
	}
	for k, v := range f.Functions {
		if r.Functions[k] != "contract" {
			r.Functions[k] = v
		}
	}
	for _, a := range f.Assumptions {
		r.assume(a)
	}
	for k, v := range f.Extra {
		r.Extra[k] = v
	}
	r.Notes = append(r.Notes, f.Notes...)
	r.Seeds = append(r.Seeds, f.Seeds...)
}

// unbound says that an execution met something it has no meaning for.
func (r *Report) unbound() string {
	for _, it := range r.failed() {
		if it.Kind == "unsupported" {
			return it.Name
		}
	}
	return ""
}

func (r *Report) add(it *Item) *Item {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		return it
	}
	r.Items = append(r.Items, it)
	if r.Log && !it.logged {
		it.logged = true
		fmt.Fprintf(os.Stderr, "  [%s] %s %s: %s %s (%s %.2fs) %s\n", r.Prop, it.Func, it.Kind, it.Name, it.Status, it.Backend, it.Seconds, it.Detail)
	}
	return it
}

func (r *Report) logf(f string, a ...any) {
	if r.Log {
		fmt.Fprintf(os.Stderr, "  [%s %.1fs] %s\n", r.Prop, time.Since(r.Started).Seconds(), fmt.Sprintf(f, a...))
	}
}

func (r *Report) assume(s string) {
	for _, x := range r.Assumptions {
		if x == s {
			return
		}
	}
	r.Assumptions = append(r.Assumptions, s)
}

// ok records an obligation settled without a solver call here.
func (r *Report) ok(fn, kind, name, backend string) *Item {
	return r.add(&Item{Func: fn, Kind: kind, Name: name, Status: "proved", Backend: backend})
}

func (r *Report) fail(fn, kind, name, detail string) *Item {
	return r.add(&Item{Func: fn, Kind: kind, Name: name, Status: "failed", Detail: detail})
}

// prove discharges a VC and records it.
func (r *Report) prove(fn, kind, name, pos string, vc prove.VC, o prove.Options) *Item {
	it := &Item{}
	do := func() { *it = *item(fn, kind, name, pos, prove.Prove(vc, o)) }
	if r.together {
		r.queue = append(r.queue, queued{it, do})
		return it
	}
	do()
	return r.add(it)
}

// item is the record of a result.
func item(fn, kind, name, pos string, res prove.Result) *Item {
	it := &Item{Func: fn, Kind: kind, Name: name, Pos: pos, Backend: res.Backend, Seconds: res.Time.Seconds(), Status: "proved"}
	if res.Status != prove.Valid {
		it.Status, it.Detail, it.model, it.query = "failed", res.Status.String(), res.Model, res.Query
	}
	return it
}

type queued struct {
	it *Item
	do func()
}

// batch has what f proves done together, after f; f cannot use the results.
func (r *Report) batch(f func()) {
	if r.together {
		f()
		return
	}
	r.together = true
	f()
	q := r.queue
	r.together, r.queue = false, nil
	each(8, q, func(q queued) { q.do() })
	for _, q := range q {
		r.add(q.it)
	}
}

func (r *Report) failed() []*Item {
	var f []*Item
	for _, it := range r.Items {
		if it.Status != "proved" {
			f = append(f, it)
		}
	}
	return f
}

func posStr(fs *token.FileSet, p token.Pos, repo string) string {
	if !p.IsValid() {
		return ""
	}
	q := fs.Position(p)
	f := strings.TrimPrefix(q.Filename, repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Known is one entry of the known-findings file.
type Known struct {
	Prop, Input, What string
}

// LoadKnown reads lines "known: property=<id> input=<hex or description> <what fails>".
func LoadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		k := Known{}
		for i, w := range f[1:] {
			switch {
			case strings.HasPrefix(w, "property="):
				k.Prop = w[9:]
			case strings.HasPrefix(w, "input="):
				k.Input = w[6:]
			default:
				k.What = strings.Join(f[i+1:], " ")
			}
			if k.What != "" {
				break
			}
		}
		out = append(out, k)
	}
	return out
}

// Evidence writes /verif/evidence/<id>.json.
func (r *Report) Evidence(cfg Config) error {
	by := map[string]int{}
	kinds := map[string]int{}
	total, done, bounded := 0, 0, 0
	for _, it := range r.Items {
		n := max(1, it.Count)
		total += n
		kinds[it.Kind] += n
		if it.Status == "proved" {
			done += n
			if it.Bounded != "" {
				bounded += n
			} else {
				by[it.Backend] += n
			}
		}
	}
	var fns []string
	for f, k := range r.Functions {
		fns = append(fns, f+" ("+k+")")
	}
	sort.Strings(fns)
	sec := map[string]float64{}
	for n, d := range smt.Total.Time {
		sec[n] = d.Seconds()
	}
	cov := map[string]any{
		"obligations":              total,
		"discharged":               done - bounded,
		"checker_cmd":              "/verif/bin/check.sh " + r.Prop,
		"trusted_base":             trusted,
		"obligations_by_kind":      kinds,
		"discharged_by":            by,
		"bounded_stand_ins":        bounded,
		"bounds":                   r.Bounds,
		"solver_queries":           smt.Total.Queries,
		"solver_seconds":           sec,
		"functions_under_contract": fns,
		"notes":                    r.Notes,
		"items":                    summary(r.Items),
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	level := "proof"
	if len(r.standIns) > 0 {
		level = "other"
		cov["explanation"] = "deductive proof of the functions under contract; bounded native runs, not counted as discharged, in the place of the proofs listed under bounds"
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        cfg.Tier,
		"seed":        cfg.Seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.Started).Seconds(),
		"violations":  r.violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(cfg.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, r.Prop+".json"), b, 0o644)
}

// summary has the proved items of a long list together, by function, kind and
// back end, with some of their names.
func summary(items []*Item) []*Item {
	if len(items) <= 250 {
		return items
	}
	var out []*Item
	group := map[string]*Item{}
	names := map[string]map[string]int{}
	for _, it := range items {
		if it.Status != "proved" || it.Bounded != "" {
			out = append(out, it)
			continue
		}
		k := strings.Join([]string{it.Func, it.Kind, it.Backend}, "\x00")
		g := group[k]
		if g == nil {
			g = &Item{Func: it.Func, Kind: it.Kind, Status: it.Status, Backend: it.Backend}
			group[k], names[k] = g, map[string]int{}
			out = append(out, g)
		}
		g.Count += max(1, it.Count)
		g.Seconds += it.Seconds
		names[k][it.Name]++
	}
	for k, g := range group {
		var l []string
		for n, c := range names[k] {
			if len(n) > 160 {
				n = n[:160] + "..."
			}
			if c > 1 {
				n += fmt.Sprintf(" (%d times)", c)
			}
			l = append(l, n)
		}
		sort.Strings(l)
		if n := len(l); n > 12 {
			l = append(l[:12], fmt.Sprintf("and %d more", n-12))
		}
		g.Name = strings.Join(l, "; ")
	}
	return out
}

var trusted = []string{
	"gover: the verification condition generator in /verif/gover (go/ssa semantics, term simplifier, SMT encoding)",
	"golang.org/x/tools/go/ssa and go/packages v0.52.0, the Go type checker and compiler",
	"z3 and cvc5, for the obligations each discharged",
}
