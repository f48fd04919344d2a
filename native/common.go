// Command zzverif searches for inputs on which the real code breaks a
// property, and replays them. It is compiled into /repo's module through a
// build overlay; the decision of a check never rests on it (only the report of
// a failed obligation does).
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Job is what to search.
type Job struct {
	Prop    string            `json:"prop"`
	Classes string            `json:"classes"` // path of the Unicode data
	Seeds   []string          `json:"seeds"`   // hex inputs to try first
	Known   []string          `json:"known"`   // failing inputs already recorded
	Ints    []int             `json:"ints"`    // constants found in the source
	Runes   []int             `json:"runes"`
	Seconds float64           `json:"seconds"`
	Seed    int64             `json:"seed"`
	One     *string           `json:"one"` // replay just this input
	Extra   map[string]string `json:"extra"`
}

// Result is what was found.
type Result struct {
	Found bool   `json:"found"`
	Input string `json:"input,omitempty"`
	What  string `json:"what,omitempty"`
	Tried int64  `json:"tried"`
	Done  bool   `json:"done"` // the whole search space of the generator was covered
}

var (
	job     Job
	outMu   sync.Mutex
	started = time.Now()
	tried   atomic.Int64
	stop    atomic.Bool
)

func emit(r Result) {
	outMu.Lock()
	b, _ := json.Marshal(r)
	fmt.Println(string(b))
	os.Exit(0)
}

// Prop is what a group of properties provides.
type Prop struct {
	Check  func(in []byte) string           // "" or what fails
	Gen    func(yield func(in []byte) bool) // candidate inputs
	Serial bool
}

var props = map[string]*Prop{}

// guarded runs the check with panics turned into failures.
func guarded(p *Prop, in []byte) (what string) {
	defer func() {
		if e := recover(); e != nil {
			what = fmt.Sprintf("panic: %v", e)
		}
	}()
	if known[string(in)] {
		return ""
	}
	return p.Check(in)
}

var known = map[string]bool{}

type slot struct {
	in    atomic.Pointer[[]byte]
	since atomic.Int64
}

func main() {
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	setup()
	for _, k := range job.Known {
		b, _ := hex.DecodeString(k)
		known[string(b)] = true
	}
	p := props[job.Prop]
	if p == nil {
		emit(Result{})
	}
	n := runtime.NumCPU()
	if p.Serial {
		n = 1
	}
	slots := make([]slot, n+1)
	run := func(k int, in []byte) string {
		slots[k].since.Store(time.Now().UnixNano())
		slots[k].in.Store(&in)
		w := guarded(p, in)
		slots[k].in.Store(nil)
		tried.Add(1)
		return w
	}
	go func() { // a call that does not come back
		for {
			time.Sleep(200 * time.Millisecond)
			for k := range slots {
				if in := slots[k].in.Load(); in != nil && time.Since(time.Unix(0, slots[k].since.Load())) > 10*time.Second {
					emit(Result{Found: true, Input: hex.EncodeToString(*in), What: "the call does not return", Tried: tried.Load()})
				}
			}
		}
	}()
	if job.One != nil {
		in, _ := hex.DecodeString(*job.One)
		w := run(0, in)
		emit(Result{Found: w != "", Input: *job.One, What: w, Tried: 1, Done: true})
	}
	var mu sync.Mutex
	report := func(in []byte, w string) {
		mu.Lock()
		defer mu.Unlock()
		stop.Store(true)
		in, w = shrink(func(b []byte) string { return run(n, b) }, in, w)
		emit(Result{Found: true, Input: hex.EncodeToString(in), What: w, Tried: tried.Load()})
	}
	for _, s := range job.Seeds {
		in, _ := hex.DecodeString(s)
		for _, v := range variants(in) {
			if w := run(0, v); w != "" {
				report(v, w)
			}
		}
	}
	limit := time.Duration(job.Seconds * float64(time.Second))
	ch := make(chan [][]byte, 4*n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				if stop.Load() {
					continue
				}
				for _, in := range batch {
					if w := run(k, in); w != "" {
						report(in, w)
					}
				}
				if time.Since(started) > limit {
					stop.Store(true)
				}
			}
		}()
	}
	var batch [][]byte
	size := 0
	done := true
	p.Gen(func(in []byte) bool {
		batch = append(batch, append([]byte(nil), in...))
		if size += len(in) + 16; size > 4096 {
			ch <- batch
			batch, size = nil, 0
		}
		if stop.Load() {
			done = false
			return false
		}
		return true
	})
	ch <- batch
	close(ch)
	wg.Wait()
	mu.Lock()
	emit(Result{Tried: tried.Load(), Done: done})
}

// variants of an input a prover suggested, whose unconstrained bytes are
// arbitrary.
func variants(in []byte) [][]byte {
	r := [][]byte{in}
	for n := range in {
		r = append(r, in[:n], in[n:])
	}
	if len(in) < 64 {
		for _, f := range []string{"a", "\u00e9", "\u0300", "\u200d", "\U0001f600", "\U0001f1e6", "\x80", "\xf0"} {
			r = append(r, append([]byte(f), in...), append(append([]byte{}, in...), f...))
		}
	}
	return r
}

// shrink removes parts of a failing input as long as it fails.
func shrink(run func([]byte) string, in []byte, what string) ([]byte, string) {
	if w := run(in); w != "" {
		what = w
	} else {
		return in, what + " (not on every run)"
	}
	end := time.Now().Add(5 * time.Second)
	for size := len(in) / 2; size > 0; {
		cut := false
		for i := 0; i+size <= len(in) && time.Now().Before(end); i++ {
			t := append(append([]byte{}, in[:i]...), in[i+size:]...)
			if w := run(t); w != "" {
				in, what, cut = t, w, true
				i--
			}
		}
		if !cut || size > len(in) {
			size /= 2
		}
		if time.Now().After(end) {
			break
		}
	}
	return in, what
}

func rng(k int64) *rand.Rand { return rand.New(rand.NewSource(job.Seed*7919 + k)) }
