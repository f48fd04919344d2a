package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gover/smt"
)

// Main runs a check and reports; it returns the exit code.
func Main(cfg Config, prop string) int {
	if _, ok := Checks[prop]; !ok {
		fmt.Fprintf(os.Stderr, "no check for %s\n", prop)
		return 2
	}
	known := LoadKnown(filepath.Join(cfg.Verif, "known-findings.txt"))
	r, s, f, err := runWithin(cfg, prop, known)
	if err != nil {
		r.fail("", "tool", "the obligations could be generated", err.Error())
	}
	if len(r.Items) == 0 {
		r.fail("", "tool", "there are obligations", "none was generated")
	}
	if s != nil && s.W != nil {
		for n := range s.W.Unread {
			r.assume(n + " (not executed, too long): it depends on its arguments alone and does not panic")
		}
	}
	for _, k := range known {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	fails := r.failed()
	if !f.Found && group[prop] != "" && os.Getenv("GOVER_NOSEARCH") == "" {
		secs := 4.0
		switch {
		case len(fails) > 0 && cfg.Tier == "thorough":
			secs = 300
		case len(fails) > 0:
			secs = 90
		case cfg.Tier == "thorough":
			secs = 120
		}
		var serr error
		if f, serr = search(cfg, s, r, secs, known); serr != nil {
			r.Notes = append(r.Notes, "native run: "+serr.Error())
			r.logf("native run: %v", serr)
		} else {
			r.Extra["native_inputs_tried"] = f.Tried
			r.logf("native run: %.300s", fmt.Sprintf("%+v", f))
		}
	}
	for _, b := range r.standIns {
		it := &Item{Func: b.fn, Kind: "bounded", Name: b.what, Status: "proved", Backend: "native run", Bounded: fmt.Sprintf("%d inputs", f.Tried)}
		if f.Found || f.Tried == 0 && os.Getenv("GOVER_NOSEARCH") == "" {
			it.Status, it.Detail = "failed", f.What
		}
		r.add(it)
		r.Bounds = append(r.Bounds, b.what+": "+b.bound)
	}
	fails = r.failed()
	if r.direct != "" && !f.Found {
		f = Found{Found: true, What: r.direct}
	}
	bad := len(fails)
	if f.Found && bad == 0 {
		bad = 1
	}
	r.violations = bad
	if err := r.Evidence(cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	total := 0
	for _, it := range r.Items {
		total += max(1, it.Count)
	}
	fmt.Printf("%s: %d obligations, %d not discharged\n", prop, total, len(fails))
	for i, it := range fails {
		if i < 12 {
			fmt.Printf("  not discharged: %s %s: %s %s (%s)\n", it.Func, it.Kind, it.Name, it.Pos, firstLine(it.Detail))
		}
	}
	if bad == 0 {
		return 0
	}
	path := writeReplay(cfg, r, f)
	if f.Found {
		fmt.Printf("  fails on the real code: %s\n", f.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

// runWithin gives up on a proof that takes too long, so that there is time left
// to look for a failing input; one that is found meanwhile ends it early.
func runWithin(cfg Config, prop string, known []Known) (*Report, *Subject, Found, error) {
	limit := 400 * time.Second
	if cfg.Tier == "thorough" {
		limit = 700 * time.Second
		if s, err := time.ParseDuration(os.Getenv("GOVER_LIMIT")); err == nil {
			limit = s
		}
	}
	r := NewReport(prop)
	var s *Subject
	done := make(chan error, 1)
	go func() {
		var err error
		s, err = Run(cfg, prop, r)
		done <- err
	}()
	give := func(f Found, err error) (*Report, *Subject, Found, error) {
		smt.Halt()
		r.mu.Lock()
		defer r.mu.Unlock()
		r.closed = true
		q := &Report{Prop: prop, Started: r.Started, Log: r.Log, Functions: map[string]string{}, Extra: map[string]any{}}
		q.Items = append(q.Items, r.Items...)
		return q, r.subject, f, err
	}
	found := make(chan Found, 1)
	searching := false
	end := time.After(limit)
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			return r, s, Found{}, err
		case f := <-found:
			return give(f, fmt.Errorf("the proof was not finished when a failing input was found"))
		case <-end:
			return give(Found{}, fmt.Errorf("the proof is not finished after %v", limit))
		case <-tick.C:
		}
		r.mu.Lock()
		subj, t := r.subject, time.Since(r.Started)
		late := t > 200*time.Second || t > 40*time.Second && len(r.failed()) > 0
		r.mu.Unlock()
		if late && !searching && subj != nil && group[prop] != "" && os.Getenv("GOVER_NOSEARCH") == "" {
			searching = true
			go func() {
				if f, err := search(cfg, subj, NewReport(prop), 20, known); err == nil && f.Found {
					found <- f
				}
			}()
		}
	}
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	if len(l) > 300 {
		l = l[:300]
	}
	return l
}

// writeReplay records what failed and how to see it again.
func writeReplay(cfg Config, r *Report, f Found) string {
	dir := filepath.Join(cfg.Verif, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, r.Prop+".json")
	type ob struct {
		*Item
		Query string `json:"query,omitempty"`
		Model any    `json:"model,omitempty"`
	}
	var obs []ob
	for i, it := range r.failed() {
		o := ob{Item: it}
		if i < 5 {
			o.Query = it.query
			if len(o.Query) > 40000 {
				o.Query = o.Query[:40000] + "\n; cut"
			}
			m := map[string]string{}
			for t, v := range it.model {
				if len(m) < 60 {
					m[t.String()] = fmt.Sprintf("%#x", v)
				}
			}
			o.Model = m
		}
		if len(obs) < 40 {
			obs = append(obs, o)
		}
	}
	v := map[string]any{"property": r.Prop, "undischarged": obs, "failing_input_found": f.Found}
	if f.Found {
		v["what"] = f.What
		if f.Input != "" {
			v["input_hex"] = f.Input
			v["replay_cmd"] = "/verif/bin/replay.sh " + path
		}
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"property\": %q, \"error\": %q}", r.Prop, err.Error()))
	}
	os.WriteFile(path, b, 0o644)
	return path
}
