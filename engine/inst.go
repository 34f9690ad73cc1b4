package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Inst is one harness run: a function plus its constant parameters.
type Inst struct {
	Name     string
	Pkg      string // directory relative to the module
	Fn       string
	Params   map[string]int
	Secs     int // time limit
	Steps    int // per-path step limit
	Conc     int // values per concretised integer
	Paths    int
	Hang     bool // exceeding the step limit is a candidate violation
	NoMerge  bool
	Reach    []string // labels that must be reached (vacuity guard)
	Alloc    int
	SolverMs int
	Thorough bool   // thorough tier only
	Known    string // id of a known finding this instance demonstrates
	OkFail   bool
	Optional bool   // uses unexported names; left out where they do not exist
	Model    bool   // native validation uses the flate model
	Bound    string // what the instance covers, in words
}

type Result struct {
	Inst                        *Inst
	Viol                        []Violation
	Incomplete                  map[string]int
	Paths, Forks, Merges, Steps int
	Asserts, Discharged         int
	Stats                       SolverStats
	Funcs                       []string
	Reached                     []string
	Missing                     []string
	Wall                        time.Duration
	Err                         string
	Ends                        []*endRec
	Vars                        []string
	ReachVals                   map[string]map[string]uint64
}

func runInst(l *Loaded, in *Inst) (res *Result) {
	t0 := time.Now()
	res = &Result{Inst: in, Incomplete: map[string]int{}, ReachVals: map[string]map[string]uint64{}}
	m := newMachine(l)
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint("engine: ", r)
			if os.Getenv("VDEBUG") != "" {
				fmt.Println(res.Err, string(debug.Stack()))
			}
		}
		if m.sol != nil {
			res.Stats = m.sol.stats
			m.sol.Close()
		}
		res.Wall = time.Since(t0)
	}()
	pkg := l.pkgs[modPath+"/"+strings.TrimPrefix(in.Pkg, "./")]
	if pkg == nil {
		res.Err = "no package " + in.Pkg
		return
	}
	fn := pkg.Func(in.Fn)
	if fn == nil && in.Optional && len(skipOpt) > 0 {
		res.Err = "skipped: the harness uses unexported names that this tree does not have"
		return
	}
	if fn == nil {
		res.Err = "no harness function " + in.Fn
		return
	}
	secs := in.Secs
	if secs == 0 {
		secs = 60
	}
	m.params = in.Params
	sm := in.SolverMs
	if sm == 0 {
		sm = 20000
	}
	m.sol = NewSolver(m.ctx, sm)
	m.lim = Limits{MaxSteps: or(in.Steps, 400000), MaxConc: or(in.Conc, 600), MaxPaths: or(in.Paths, 200000), Deadline: t0.Add(time.Duration(secs) * time.Second),
		MaxAlloc: or(in.Alloc, 1<<20), MaxViol: 8, Trace: os.Getenv("VDEBUG") != "", NoMerge: in.NoMerge, HangSteps: in.Hang}
	m.sol.deadline = m.lim.Deadline
	st := &State{own: m.newOwn(), model: NewModel(map[string]uint64{})}
	entry := func(f *ssa.Function) {
		fi := m.info(f)
		st.frames = []*Frame{{own: st.own, fi: fi, fn: f, regs: make([]Value, fi.n), block: f.Blocks[0], ret: -1}}
		st.steps = 0
	}
	hang := m.lim.HangSteps
	ms := m.lim.MaxSteps
	m.lim.HangSteps = false
	m.lim.MaxSteps = 5000000
	entry(pkg.Func("init"))
	r := m.run(st, &stopPt{depth: 1}, 0)
	if len(r) != 1 || len(m.incomplete) > 0 {
		res.Err = fmt.Sprint("package initialisation failed: ", len(r), m.incomplete, m.viol)
		return
	}
	st = r[0]
	m.lim.HangSteps, m.lim.MaxSteps = hang, ms
	m.funcs = map[*ssa.Function]int{}
	entry(fn)
	m.run(st, nil, 0)
	for k, v := range m.incomplete {
		res.Incomplete[k] = v
	}
	res.Viol = m.viol
	for i := range res.Viol {
		res.Viol[i].Params = in.Params
	}
	res.Paths, res.Forks, res.Merges, res.Steps, res.Asserts, res.Discharged = m.paths, m.forks, m.merges, m.totalSteps, m.asserts, m.discharged
	for f := range m.funcs {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/") && !strings.Contains(f.Pkg.Pkg.Path(), "/verif") {
			p := l.prog.Fset.Position(f.Pos())
			if strings.HasPrefix(filepath.Base(p.Filename), "zz_verif") {
				continue
			}
			res.Funcs = append(res.Funcs, strings.ReplaceAll(f.String(), modPath+"/", ""))
		}
	}
	sort.Strings(res.Funcs)
	for k, mo := range m.reached {
		res.Reached = append(res.Reached, k)
		res.ReachVals[k] = mo.vals
	}
	sort.Strings(res.Reached)
	for _, k := range in.Reach {
		if m.reached[k] == nil {
			res.Missing = append(res.Missing, k)
		}
	}
	res.Ends = m.endModels
	for _, v := range m.ctx.varLst {
		res.Vars = append(res.Vars, v.name)
	}
	return
}

func or(a, b int) int {
	if a != 0 {
		return a
	}
	return b
}
