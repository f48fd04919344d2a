package check

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"gover/prove"
	"gover/term"
)

const (
	firstRelease = 21 // the oldest Go release the wrapper supports
	buildLines   = 17 // the first that reads //go:build lines
)

// unicodeOf is the major version of Unicode in a Go release's standard library.
// The releases installed here speak for themselves.
func unicodeOf() map[int]string {
	m := map[int]string{21: "15.0.0", 22: "15.0.0"}
	for _, t := range toolchains() {
		m[t.minor] = t.unicode
	}
	return m
}

// goFile is a source file of the wrapper and when it is compiled.
type goFile struct {
	name   string
	expr   constraint.Expr // nil: always
	scan   bool            // declares ScanGraphemeClusters
	konst  bool            // declares UnicodeMajorVersion
	active *term.Term
}

var knownOS = map[string]bool{"aix": true, "android": true, "darwin": true, "dragonfly": true, "freebsd": true, "hurd": true, "illumos": true, "ios": true, "js": true, "linux": true, "nacl": true, "netbsd": true, "openbsd": true, "plan9": true, "solaris": true, "wasip1": true, "windows": true, "zos": true}
var knownArch = map[string]bool{"386": true, "amd64": true, "arm": true, "arm64": true, "loong64": true, "mips": true, "mipsle": true, "mips64": true, "mips64le": true, "ppc64": true, "ppc64le": true, "riscv64": true, "s390x": true, "sparc64": true, "wasm": true}

func release() *term.Term { return term.Var("release", term.BV(64)) }

// cond is a build constraint as a formula over the release and the other tags.
func cond(x constraint.Expr) *term.Term {
	switch e := x.(type) {
	case *constraint.AndExpr:
		return term.And(cond(e.X), cond(e.Y))
	case *constraint.OrExpr:
		return term.Or(cond(e.X), cond(e.Y))
	case *constraint.NotExpr:
		return term.Not(cond(e.X))
	case *constraint.TagExpr:
		var n int64
		if k, _ := fmt.Sscanf(e.Tag, "go1.%d", &n); k == 1 && e.Tag == fmt.Sprintf("go1.%d", n) {
			return term.Sle(c64(n), release())
		}
		switch e.Tag {
		case "ignore":
			return term.False
		case "gc":
			return term.Not(term.Var("tag.gccgo", term.Bool))
		}
		return term.Var("tag."+e.Tag, term.Bool)
	}
	return term.Fresh("constraint", term.Bool)
}

func readFiles(dir string) ([]*goFile, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var r []*goFile
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		g := &goFile{name: n, active: term.True}
		var plus []constraint.Expr
		for _, cg := range f.Comments {
			if cg.Pos() > f.Package {
				break
			}
			for _, c := range cg.List {
				switch {
				case constraint.IsGoBuild(c.Text):
					if g.expr, err = constraint.Parse(c.Text); err != nil {
						return nil, err
					}
				case constraint.IsPlusBuild(c.Text):
					if x, err := constraint.Parse(c.Text); err == nil {
						plus = append(plus, x)
					}
				}
			}
		}
		if g.expr != nil {
			g.active = cond(g.expr)
		} else {
			for _, x := range plus {
				g.active = term.And(g.active, cond(x))
			}
		}
		parts := strings.Split(strings.TrimSuffix(n, ".go"), "_")
		if k := len(parts); k >= 2 {
			last := parts[k-1]
			if knownOS[last] || knownArch[last] {
				g.active = term.And(g.active, term.Var("tag."+last, term.Bool))
			}
			if k >= 3 && knownArch[last] && knownOS[parts[k-2]] {
				g.active = term.And(g.active, term.Var("tag."+parts[k-2], term.Bool))
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				g.scan = g.scan || d.Recv == nil && d.Name.Name == "ScanGraphemeClusters"
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if v, ok := s.(*ast.ValueSpec); ok {
						for _, id := range v.Names {
							g.konst = g.konst || id.Name == "UnicodeMajorVersion"
							g.scan = g.scan || id.Name == "ScanGraphemeClusters"
						}
					}
				}
			}
		}
		r = append(r, g)
	}
	return r, nil
}

// chosenFiles are the files the go command itself picks for a release.
func chosenFiles(dir string, minor int) ([]string, error) {
	return filesOn(dir, minor, platforms[0])
}

// platforms are tried when a release is sought that shows a failure.
var platforms = []string{"linux/amd64", "windows/amd64", "darwin/arm64", "linux/386", "freebsd/arm", "js/wasm", "plan9/386", "linux/s390x", "linux/amd64/cgo", "linux/amd64/race"}

func filesOn(dir string, minor int, platform string) ([]string, error) {
	c := build.Default
	f := strings.Split(platform, "/")
	c.GOOS, c.GOARCH, c.CgoEnabled, c.BuildTags, c.ToolTags = f[0], f[1], len(f) > 2 && f[2] == "cgo", nil, nil
	if len(f) > 2 {
		c.BuildTags = f[2:]
	}
	c.ReleaseTags = nil
	for i := 1; i <= minor; i++ {
		c.ReleaseTags = append(c.ReleaseTags, fmt.Sprintf("go1.%d", i))
	}
	p, err := c.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	sort.Strings(p.GoFiles)
	return p.GoFiles, nil
}

// releases decides C17.
func (s *Subject) releases(r *Report) error {
	dir := filepath.Join(s.Cfg.Repo, "autoversion", "textseg")
	files, err := readFiles(dir)
	if err != nil {
		return err
	}
	uni := unicodeOf()
	newest := 0
	for n := range uni {
		newest = max(newest, n)
	}
	r.assume("Unicode versions of Go 1.21 and 1.22 (not installed here): 15.0.0; those of the installed releases are read from their unicode packages")
	r.assume(fmt.Sprintf("no Go release after 1.%d is known here: the wrapper must not compile in an implementation for one", newest))
	r.assume("Go 1.16 and earlier, which do not read //go:build lines, are left out")
	byName := map[string]*goFile{}
	rel := release()
	known := term.Sle(c64(buildLines), rel)
	in := func(a, b int) *term.Term { return term.And(term.Sle(c64(int64(a)), rel), term.Sle(rel, c64(int64(b)))) }
	bad := false
	prove1 := func(what string, guard, goal *term.Term) {
		it := r.prove(autoPkg, "lemma", what, "autoversion/textseg", prove.VC{Hyps: []*term.Term{known}, Guard: guard, Goal: goal}, prove.Default)
		bad = bad || it.Status != "proved"
	}
	for _, d := range []struct {
		what string
		of   func(f *goFile) bool
	}{{"ScanGraphemeClusters", func(f *goFile) bool { return f.scan }}, {"UnicodeMajorVersion", func(f *goFile) bool { return f.konst }}} {
		var fs []*goFile
		var any []*term.Term
		for _, f := range files {
			byName[f.name] = f
			if d.of(f) {
				fs = append(fs, f)
				any = append(any, f.active)
			}
		}
		for i, f := range fs {
			for _, g := range fs[:i] {
				prove1(fmt.Sprintf("no release compiles both %s and %s, which declare %s", g.name, f.name, d.what), term.True, term.Not(term.And(f.active, g.active)))
			}
		}
		prove1(fmt.Sprintf("every release from 1.%d to 1.%d compiles a file that declares %s", firstRelease, newest, d.what), in(firstRelease, newest), term.Or(any...))
		if d.what == "ScanGraphemeClusters" {
			prove1(fmt.Sprintf("no release before 1.%d or after 1.%d compiles a file that declares %s", firstRelease, newest, d.what), term.Not(in(firstRelease, newest)), term.Not(term.Or(any...)))
		}
	}
	// releases with the same Unicode version compile the same files as one
	// that is loaded and looked at
	loaded := map[int]bool{}
	for _, tc := range toolchains() {
		if tc.minor < 25 { // what go.mod asks for
			continue
		}
		p, err := loadAuto(s.Cfg, &tc)
		if err != nil {
			r.fail(autoPkg, "tool", "the wrapper loads under "+tc.version, firstLine(err.Error()))
			continue
		}
		q := p.Pkgs[autoPkg]
		if q == nil {
			r.fail(autoPkg, "tool", "the wrapper loads under "+tc.version, "no package")
			continue
		}
		s.autoPs = append(s.autoPs, p)
		loaded[tc.minor] = true
		var got []string
		for _, f := range q.GoFiles {
			got = append(got, filepath.Base(f))
		}
		sort.Strings(got)
		want, err := chosenFiles(dir, tc.minor)
		what := "the constraints read here select what " + tc.version + " compiles"
		var mine []string
		m := map[*term.Term]*term.Term{rel: c64(int64(tc.minor))}
		for _, t := range []string{"linux", "amd64", "unix"} {
			m[term.Var("tag."+t, term.Bool)] = term.True
		}
		for _, f := range files {
			v := term.Subst(f.active, m)
			term.Walk([]*term.Term{v}, func(t *term.Term) {
				if t.Op == term.OpVar {
					v = term.Subst(v, map[*term.Term]*term.Term{t: term.False})
				}
			})
			if v.IsTrue() {
				mine = append(mine, f.name)
			}
		}
		sort.Strings(mine)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(got) != fmt.Sprint(mine) {
			r.fail(autoPkg, "tool", what, fmt.Sprintf("compiled %v, go/build picks %v, read here %v", got, want, mine))
		} else {
			r.ok(autoPkg, "lemma", what, "go list, go/build")
		}
		major := strings.SplitN(tc.unicode, ".", 2)[0]
		what = fmt.Sprintf("under %s the constant is the major version of Unicode %s", tc.version, tc.unicode)
		if v, ok := p.ConstInt(autoPkg, "UnicodeMajorVersion"); !ok || fmt.Sprint(v) != major {
			r.fail(autoPkg, "lemma", what, fmt.Sprintf("it is %d", v))
			r.direct = fmt.Sprintf("under %s, whose standard library has Unicode %s, UnicodeMajorVersion is %d", tc.version, tc.unicode, v)
		} else {
			r.ok(autoPkg, "lemma", what, "type checker")
		}
		t := *s
		t.P, t.W = p, newWorld(p)
		a, err := t.wrapper(r, "ScanGraphemeClusters", " under "+tc.version)
		if err != nil {
			return err
		}
		what = fmt.Sprintf("under %s it calls the implementation for Unicode %s", tc.version, tc.unicode)
		if mm := implRE.FindStringSubmatch(a.chosenOf); mm == nil || mm[1] != major {
			r.fail(autoPkg, "lemma", what, "it calls "+a.chosenOf)
			r.direct = fmt.Sprintf("under %s, whose standard library has Unicode %s, ScanGraphemeClusters calls %s", tc.version, tc.unicode, a.chosenOf)
		} else {
			r.ok(autoPkg, "lemma", what, a.chosenOf)
		}
	}
	if len(loaded) == 0 {
		return fmt.Errorf("no Go release loads the wrapper")
	}
	for n := firstRelease; n <= newest; n++ {
		if loaded[n] {
			continue
		}
		with := 0
		for m := range loaded {
			if uni[m] == uni[n] && m > with {
				with = m
			}
		}
		if with == 0 {
			r.fail(autoPkg, "lemma", fmt.Sprintf("release 1.%d compiles what is right for Unicode %s", n, uni[n]), "no release with that version is installed")
			continue
		}
		for _, f := range files {
			if !f.scan && !f.konst {
				continue
			}
			a := term.Subst(f.active, map[*term.Term]*term.Term{rel: c64(int64(n))})
			b := term.Subst(f.active, map[*term.Term]*term.Term{rel: c64(int64(with))})
			prove1(fmt.Sprintf("release 1.%d compiles %s exactly if 1.%d, with the same Unicode version, does", n, f.name, with), term.True, term.Eq(a, b))
		}
	}
	if bad && r.direct == "" {
		r.direct = s.badRelease(dir, files, uni, newest)
	}
	return nil
}

// badRelease looks for a release for which the go command picks the wrong files.
func (s *Subject) badRelease(dir string, files []*goFile, uni map[int]string, newest int) string {
	by := map[string]*goFile{}
	for _, f := range files {
		by[f.name] = f
	}
	for _, on := range platforms {
		for n := buildLines; n <= newest+20; n++ {
			fs, err := filesOn(dir, n, on)
			if err != nil {
				fs = nil // no file at all
			}
			var have []string
			for _, f := range fs {
				if g := by[f]; g != nil && g.scan {
					have = append(have, f)
				}
			}
			switch {
			case len(have) > 1:
				return fmt.Sprintf("Go 1.%d on %s compiles more than one implementation: %v", n, on, have)
			case len(have) == 0 && n >= firstRelease && n <= newest:
				return fmt.Sprintf("Go 1.%d on %s, a supported release, compiles no implementation", n, on)
			case len(have) == 1 && (n < firstRelease || n > newest):
				return fmt.Sprintf("Go 1.%d on %s, a release whose Unicode version the wrapper cannot know, compiles the implementation in %s instead of failing", n, on, have[0])
			}
			if len(have) == 1 {
				for m := firstRelease; m < n; m++ {
					other, _ := filesOn(dir, m, on)
					if uni[m] != "" && uni[m] != uni[n] && fmt.Sprint(other) == fmt.Sprint(fs) {
						return fmt.Sprintf("Go 1.%d (Unicode %s) and Go 1.%d (Unicode %s) compile the same implementation, in %s", m, uni[m], n, uni[n], have[0])
					}
				}
			}
		}
	}
	return ""
}

func init() {
	Checks["C17"] = func(s *Subject, r *Report) error { return s.releases(r) }
}
