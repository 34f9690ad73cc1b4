package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native replay: the harness is compiled by the Go toolchain as a test binary
// against /repo's current sources and run on the solver's concrete values.

type replayer struct {
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	dir  string
	fns  map[string]map[string]bool
}

func newReplayer() *replayer {
	d, _ := os.MkdirTemp("", "vreplay")
	return &replayer{bins: map[string]string{}, errs: map[string]error{}, dir: d}
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

func (r *replayer) build(pkg string, model bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key := fmt.Sprint(pkg, model)
	if b, ok := r.bins[key]; ok {
		return b, r.errs[key]
	}
	dir := filepath.Join(r.dir, fmt.Sprint(len(r.bins)))
	os.MkdirAll(dir, 0755)
	bin := filepath.Join(dir, "t.test")
	err := func() error {
		ov, _, err := overlay()
		if err != nil {
			return err
		}
		name := filepath.Base(pkg)
		for k, v := range ov { // the package clause of the harness
			if filepath.Dir(k) == filepath.Join(repoDir, pkg) {
				b, _ := os.ReadFile(v)
				for _, ln := range strings.Split(string(b), "\n") {
					if strings.HasPrefix(ln, "package ") {
						name = strings.Fields(ln)[1]
						break
					}
				}
			}
		}
		if ts, _ := filepath.Glob(filepath.Join(repoDir, pkg, "*_test.go")); ts != nil {
			for _, t := range ts { // the repository's own tests are left out
				ov[t] = ""
			}
		}
		tf := filepath.Join(dir, "zz_verif_replay_test.go")
		fm := ""
		for fn := range r.fns[pkg] {
			fm += fmt.Sprintf("\t%q: %s,\n", fn, fn)
		}
		src := fmt.Sprintf("package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\t\"%s\"\n)\n\nvar vfFns = map[string]func(){\n%s}\n\nfunc TestVerifReplay(t *testing.T) { verifvp.Main(vfFns[os.Getenv(\"VP_FN\")]) }\n", name, vpPkg, fm)
		os.WriteFile(tf, []byte(src), 0644)
		ov[filepath.Join(repoDir, pkg, "zz_verif_replay_test.go")] = tf
		ovf := filepath.Join(dir, "ov.json")
		if err := writeOverlayJSON(ovf, ov); err != nil {
			return err
		}
		mf, err := modfile(dir, model, model)
		if err != nil {
			return err
		}
		c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-modfile", mf, "-o", bin, "./"+pkg)
		c.Dir = repoDir
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v: %s", err, out)
		}
		return nil
	}()
	r.bins[key], r.errs[key] = bin, err
	return bin, err
}

type replayOut struct {
	Verdict string // pass | assume | assert ... | panic ... | timeout | error ...
	Reach   map[string]bool
	Outs    []string
	Raw     string
}

func (o replayOut) String() string { return o.Verdict }

func (o replayOut) fails() bool {
	return strings.HasPrefix(o.Verdict, "assert") || strings.HasPrefix(o.Verdict, "panic") || strings.HasPrefix(o.Verdict, "timeout") || strings.HasPrefix(o.Verdict, "crash")
}

func (r *replayer) run(in *Inst, vals map[string]uint64, model bool) (o replayOut) {
	o.Reach = map[string]bool{}
	pkg := strings.TrimPrefix(in.Pkg, "./")
	r.mu.Lock()
	if r.fns == nil {
		r.fns = map[string]map[string]bool{}
	}
	if r.fns[pkg] == nil {
		r.fns[pkg] = map[string]bool{in.Fn: true}
	}
	r.mu.Unlock()
	bin, err := r.build(pkg, model)
	if err != nil {
		o.Verdict = "error building replay: " + err.Error()
		return
	}
	d, _ := os.MkdirTemp(r.dir, "run")
	defer os.RemoveAll(d)
	b, _ := json.Marshal(map[string]interface{}{"vals": vals, "params": in.Params})
	p := filepath.Join(d, "in.json")
	os.WriteFile(p, b, 0644)
	c := exec.Command("sh", "-c", "ulimit -v 12000000; exec timeout 60 \"$0\" -test.run '^TestVerifReplay$' -test.count 1", bin)
	c.Dir = d
	c.Env = append(goEnv(), "VP_INPUT="+p, "VP_FN="+in.Fn, "GOMAXPROCS=2")
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	t0 := time.Now()
	c.Run()
	o.Raw = buf.String()
	for _, ln := range strings.Split(o.Raw, "\n") {
		switch {
		case strings.HasPrefix(ln, "VP-RESULT: "):
			o.Verdict = ln[len("VP-RESULT: "):]
		case strings.HasPrefix(ln, "VP-REACH "):
			o.Reach[ln[9:]] = true
		case strings.HasPrefix(ln, "VP-OUT "):
			o.Outs = append(o.Outs, ln[7:])
		}
	}
	if o.Verdict == "" {
		switch {
		case time.Since(t0) > 29*time.Second:
			o.Verdict = "timeout"
		case strings.Contains(o.Raw, "out of memory") || strings.Contains(o.Raw, "fatal error") || strings.Contains(o.Raw, "panic:"):
			o.Verdict = "crash " + first(o.Raw)
		default:
			o.Verdict = "error running replay: " + first(o.Raw)
		}
	}
	return
}

func first(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}
