package main

// Loading: type-checks /repo's current sources together with the harnesses and
// the contract models, and builds SSA for all of it.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/patrickhuang888/goorc"

type Loaded struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOSUMDB", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED", "TZ":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0", "TZ=UTC")
}

// skipOpt holds the optional harness files (*_opt.go, they use unexported names of
// the code under test) that do not compile with the current tree.
var skipOpt = map[string]bool{}

// overlay maps files under /repo to the real files that provide them.
func overlay() (map[string]string, []string, error) {
	ov := map[string]string{filepath.Join(repoDir, "verifvp/vp.go"): filepath.Join(verifDir, "model/vp/vp.go")}
	dirs := map[string]bool{}
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		if skipOpt[base] {
			return nil
		}
		ov[filepath.Join(repoDir, dir, "zz_verif_"+base)] = p
		dirs["./"+strings.TrimSuffix(dir, "/")] = true
		return nil
	})
	var l []string
	for d := range dirs {
		l = append(l, d)
	}
	return ov, l, err
}

// modfile writes a copy of /repo's go.mod whose listed modules are replaced by the models.
func modfile(dir string, flate, proto bool) (string, error) {
	b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + "\n"
	if flate {
		s += "replace github.com/klauspost/compress => " + filepath.Join(verifDir, "model/compress") + "\n"
	}
	if proto {
		s += "replace github.com/golang/protobuf => " + filepath.Join(verifDir, "model/protobuf") + "\n"
	}
	p := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644)
}

func writeOverlayJSON(p string, ov map[string]string) error {
	b, err := json.Marshal(map[string]interface{}{"Replace": ov})
	if err != nil {
		return err
	}
	return os.WriteFile(p, b, 0644)
}

func load(only []string) (*Loaded, error) {
	tmp, err := os.MkdirTemp("", "vload")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mf, err := modfile(tmp, true, true)
	if err != nil {
		return nil, err
	}
	ov, dirs, err := overlay()
	if err != nil {
		return nil, err
	}
	bs := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		bs[k] = b
	}
	pats := append([]string{"./verifvp"}, dirs...)
	if only != nil {
		pats = append([]string{"./verifvp"}, only...)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: bs, BuildFlags: []string{"-modfile=" + mf}}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	retry := false
	for _, e := range errs {
		if i := strings.Index(e, "zz_verif_"); i >= 0 {
			f := e[i+len("zz_verif_"):]
			if j := strings.Index(f, "_opt.go"); j >= 0 && !strings.Contains(f[:j], "/") && !skipOpt[f[:j]+"_opt.go"] {
				skipOpt[f[:j]+"_opt.go"] = true
				retry = true
			}
		}
	}
	if retry {
		return load(only)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		l.pkgs[p.Pkg.Path()] = p
	}
	return l, nil
}

var initOK = map[string]bool{"io": true, "bytes": true, "strings": true, "bufio": true, "encoding/binary": true, "math": true, "math/bits": true,
	"internal/cpu": true, "sort": true, "strconv": true, "time": true, "unicode/utf8": true, "container/list": true, "slices": true,
	"github.com/pkg/errors": true, "github.com/klauspost/compress/flate": true, "github.com/golang/protobuf/proto": true}

func skipInit(p string) bool {
	if p == vpPkg {
		return true
	}
	if strings.HasPrefix(p, modPath) {
		return false
	}
	return !initOK[p]
}

func newMachine(l *Loaded) *M {
	m := NewM(l.prog)
	m.skipInit = skipInit
	vp := l.pkgs[vpPkg]
	m.over["fmt.Errorf"] = vp.Func("FmtErrorf")
	m.over["fmt.Sprintf"] = vp.Func("FmtSprintf")
	m.over["github.com/pkg/errors.Errorf"] = vp.Func("FmtErrorf")
	m.over["github.com/pkg/errors.Wrapf"] = vp.Func("ErrorsWrapf")
	m.over["errors.Is"] = vp.Func("ErrorsIs")
	return m
}
