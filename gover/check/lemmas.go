package check

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// inductions are the theorems of lemmas/Tokens.lean that carry a property's
// clauses, which are about one call, to whole texts and streams.
var inductions = map[string][]string{
	"C02": {"concatenation", "tokens_unique"},
	"C03": {"stream", "division_of_reads_is_irrelevant"},
	"C06": {"boundaries"},
	"C07": {"one_rule"},
	"C08": {"one_rule"},
	"C09": {"one_rule"},
	"C11": {"malformed"},
}

// induct has Lean check the property's inductions.
func (s *Subject) induct(r *Report) {
	names := inductions[r.Prop]
	if len(names) == 0 {
		return
	}
	file := filepath.Join(s.Cfg.Verif, "lemmas", "Tokens.lean")
	onPaper := func(why string) {
		r.assume("the induction from one call to whole texts (" + file + ": " + strings.Join(names, ", ") + ") was not checked on this run: " + why)
	}
	src, err := os.ReadFile(file)
	if err != nil {
		onPaper(err.Error())
		return
	}
	lean, err := exec.LookPath("lean")
	if err != nil {
		onPaper(err.Error())
		return
	}
	text := string(src)
	for _, n := range names {
		text += "\n#print axioms Textseg." + n + "\n"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	t0 := time.Now()
	c := exec.CommandContext(ctx, lean, "--stdin")
	c.Stdin = strings.NewReader(text)
	c.WaitDelay = time.Second
	b, err := c.CombinedOutput()
	out := string(b)
	if err != nil && !strings.Contains(out, "error") {
		onPaper(fmt.Sprint(err)) // Lean did not run
		return
	}
	for _, n := range names {
		what := "theorem " + n
		m := regexp.MustCompile(`'Textseg\.` + n + `' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)`).FindStringSubmatch(out)
		if err != nil || m == nil || strings.Contains(m[2], "sorryAx") {
			r.fail("lemmas/Tokens.lean", "lemma", what, out)
			continue
		}
		r.add(&Item{Func: "lemmas/Tokens.lean", Kind: "lemma", Name: what, Status: "proved", Backend: "lean", Seconds: time.Since(t0).Seconds() / float64(len(names)), Detail: m[1]})
	}
}
