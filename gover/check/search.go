package check

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// group says which native harness a property's inputs are tried with.
var group = map[string]string{
	"C01": "p_scan.go", "C02": "p_scan.go", "C03": "p_scan.go", "C04": "p_scan.go", "C05": "p_scan.go", "C06": "p_scan.go",
	"C07": "p_scan.go", "C08": "p_scan.go", "C09": "p_scan.go", "C10": "p_scan.go", "C11": "p_scan.go",
	"C12": "p_lookup.go", "C13": "p_machine.go", "C14": "p_gentable.go", "C15": "p_ucd.go", "C16": "p_names.go", "C18": "p_auto.go",
}

// Job and Found mirror native/common.go.
type Job struct {
	Prop    string            `json:"prop"`
	Classes string            `json:"classes"`
	Seeds   []string          `json:"seeds"`
	Known   []string          `json:"known"`
	Ints    []int             `json:"ints"`
	Runes   []int             `json:"runes"`
	Seconds float64           `json:"seconds"`
	Seed    int64             `json:"seed"`
	One     *string           `json:"one"`
	Extra   map[string]string `json:"extra"`
}

type Found struct {
	Found bool   `json:"found"`
	Input string `json:"input"`
	What  string `json:"what"`
	Tried int64  `json:"tried"`
	Done  bool   `json:"done"`
}

// Native compiles the harness of a property into the module under test.
type Native struct {
	dir string
	bin string
}

func (n *Native) Close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func buildNative(cfg Config, prop string, race bool) (*Native, error) {
	return buildNativeWith(cfg, prop, race, "go")
}

func buildNativeWith(cfg Config, prop string, race bool, gobin string) (*Native, error) {
	g := group[prop]
	if g == "" {
		return nil, fmt.Errorf("no native harness for %s", prop)
	}
	dir, err := os.MkdirTemp("", "gover-native-")
	if err != nil {
		return nil, err
	}
	n := &Native{dir: dir, bin: filepath.Join(dir, "zzverif")}
	modDir, at, mod, work := cfg.Repo, "textseg/internal/zzverif", modPath, "GOWORK=off"
	if g == "p_auto.go" {
		modDir, at, mod = filepath.Join(cfg.Repo, "autoversion"), "textseg/zzverif", autoMod
		wf := filepath.Join(dir, "go.work")
		os.WriteFile(wf, []byte(fmt.Sprintf("go 1.25.0\n\nuse %s\nuse %s\n", cfg.Repo, modDir)), 0o644)
		work = "GOWORK=" + wf
	}
	repl := map[string]string{}
	put := func(src, as string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("REPOMOD"), []byte(mod))
		b = bytes.ReplaceAll(b, []byte("ZZSPEC"), []byte(mod+"/"+at+"/spec"))
		to := filepath.Join(dir, strings.ReplaceAll(as, "/", "_"))
		repl[filepath.Join(modDir, at, as)] = to
		return os.WriteFile(to, b, 0o644)
	}
	nat := filepath.Join(cfg.Verif, "native")
	files := map[string]string{filepath.Join(nat, "common.go"): "common.go", filepath.Join(nat, "text.go"): "text.go", filepath.Join(nat, g): g, filepath.Join(cfg.Verif, "gover", "spec", "spec.go"): "spec/spec.go"}
	for src, as := range files {
		if err := put(src, as); err != nil {
			return n, err
		}
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	args := []string{"build", "-overlay", ov, "-o", n.bin}
	env := append(os.Environ(), work, "GOFLAGS=")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command(gobin, append(args, "./"+at)...)
	cmd.Dir, cmd.Env = modDir, env
	if out, err := cmd.CombinedOutput(); err != nil {
		return n, fmt.Errorf("the native harness does not compile: %v\n%s", err, out)
	}
	return n, nil
}

func (n *Native) run(j Job) (Found, error) {
	var f Found
	in, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(j.Seconds+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Dir = n.dir
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	s := errb.String()
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return Found{Found: true, What: "data race between concurrent scans: " + s[i:min(len(s), i+1500)]}, nil
	}
	if i := strings.Index(s, "fatal error: "); i >= 0 {
		return Found{Found: true, What: s[i:min(len(s), i+600)]}, nil
	}
	if err != nil {
		return f, fmt.Errorf("native run: %v %s", err, s[:min(len(s), 500)])
	}
	return f, json.Unmarshal(out.Bytes(), &f)
}

// mine collects the constants the source mentions outside initialisers.
func (s *Subject) mine() (ints, runes []int, strs []string) {
	is, ss := map[int]bool{}, map[string]bool{}
	fns := allFuncs(s.P)
	for _, p := range s.autoPs {
		for fn := range allFuncs(p) {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == autoPkg {
				fns[fn] = true
			}
		}
	}
	for fn := range fns {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && fn.Pkg.Pkg.Path() != autoPkg || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.Int:
						if v, ok := constant.Int64Val(c.Value); ok && v > 8 && v < 1<<31 {
							is[int(v)] = true
						}
					case constant.String:
						if v := constant.StringVal(c.Value); len(v) < 60 {
							ss[v] = true
							for _, c := range v {
								if c > 0x7f {
									is[int(c)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for v := range is {
		ints = append(ints, v)
		if v > 0x20 && v < 0x110000 {
			runes = append(runes, v)
		}
	}
	for v := range ss {
		strs = append(strs, v)
	}
	sort.Ints(ints)
	sort.Ints(runes)
	sort.Strings(strs)
	return
}

// search looks for an input on which the real code breaks the property.
func search(cfg Config, s *Subject, r *Report, seconds float64, known []Known) (Found, error) {
	n, err := buildNative(cfg, r.Prop, false)
	defer n.Close()
	if err != nil {
		return Found{}, err
	}
	j := Job{Prop: r.Prop, Classes: filepath.Join(cfg.Verif, "data", "classes.txt"), Seconds: seconds, Seed: cfg.Seed}
	if s != nil {
		var strs []string
		j.Ints, j.Runes, strs = s.mine()
		j.Extra = map[string]string{"strings": strings.Join(strs, "\x00")}
	}
	if r.Prop == "C14" {
		if j.Extra == nil {
			j.Extra = map[string]string{}
		}
		j.Extra["ucd"] = filepath.Join(cfg.Repo, "textseg", "internal", "charprops", "ucd")
	}
	for _, k := range known {
		if k.Prop == r.Prop {
			j.Known = append(j.Known, k.Input)
		}
	}
	seen := map[string]bool{}
	for _, b := range r.Seeds {
		if h := hex.EncodeToString(b); !seen[h] {
			seen[h] = true
			j.Seeds = append(j.Seeds, h)
		}
	}
	for _, it := range r.failed() {
		for _, b := range it.seeds {
			if h := hex.EncodeToString(b); !seen[h] && len(j.Seeds) < 2000 {
				seen[h] = true
				j.Seeds = append(j.Seeds, h)
			}
		}
	}
	f, err := n.run(j)
	if r.Prop == "C18" && err == nil && !f.Found {
		// the files other releases compile
		done := map[string]bool{}
		for _, tc := range toolchains() {
			if tc.minor < 25 || strings.HasPrefix(runtime.Version(), tc.version) || done[tc.unicode] {
				continue
			}
			done[tc.unicode] = true
			o, oerr := buildNativeWith(cfg, r.Prop, false, filepath.Join(tc.dir, "go"))
			if oerr != nil {
				o.Close()
				continue
			}
			if g, gerr := o.run(j); gerr == nil {
				g.Tried += f.Tried
				if f = g; g.Found {
					f.What = "under " + tc.version + ": " + g.What
				}
			}
			o.Close()
			if f.Found {
				break
			}
		}
	}
	if err != nil || f.Found || r.Prop != "C05" {
		return f, err
	}
	// interference between concurrent calls shows under the race detector
	rn, err := buildNative(cfg, r.Prop, true)
	defer rn.Close()
	if err != nil {
		return f, nil
	}
	j.Seconds = min(seconds, 15)
	if g, err := rn.run(j); err == nil && g.Found {
		return g, nil
	}
	return f, nil
}

// Replay runs the property's oracle on one recorded input.
func Replay(cfg Config, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp struct {
		Property string `json:"property"`
		Input    string `json:"input_hex"`
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := buildNative(cfg, rp.Property, false)
	defer n.Close()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	f, err := n.run(Job{Prop: rp.Property, Classes: filepath.Join(cfg.Verif, "data", "classes.txt"), One: &rp.Input, Seconds: 30, Extra: map[string]string{"ucd": filepath.Join(cfg.Repo, "textseg", "internal", "charprops", "ucd")}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if f.Found {
		fmt.Println(f.What)
		return 1
	}
	fmt.Println("the property holds on this input")
	return 0
}
