package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop is one property: the instances whose verdicts decide it.
type Prop struct {
	ID          string
	Insts       []*Inst
	Assumptions []string
}

type finding struct{ prop, inst, msg, text string }

// known-findings.txt: "finding: property=<id> instance=<name> msg=<message> :: <what fails>"
// and "fixed: property=<id> <commit> <what failed>" (which suppresses nothing).
func loadFindings() (r []finding) {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, ln := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(ln, "finding: ") {
			continue
		}
		var f finding
		ln = ln[len("finding: "):]
		if i := strings.Index(ln, " :: "); i >= 0 {
			f.text, ln = ln[i+4:], ln[:i]
		}
		if i := strings.Index(ln, " msg="); i >= 0 {
			f.msg, ln = ln[i+5:], ln[:i]
		}
		for _, w := range strings.Fields(ln) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "instance="):
				f.inst = w[9:]
			}
		}
		r = append(r, f)
	}
	return
}

type violOut struct {
	Inst   *Inst
	V      Violation
	Replay replayOut
	Model  bool
	Known  *finding
}

func cmdCheck(a []string) int {
	t0 := time.Now()
	id := a[0]
	tier := "quick"
	if len(a) > 1 {
		tier = a[1]
	}
	var filter string
	if len(a) > 2 {
		filter = a[2]
	}
	p := props()[id]
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 4 * 3600 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	end := t0.Add(budget)
	var insts []*Inst
	dirs := map[string]bool{}
	fns := map[string]map[string]bool{}
	for _, in := range p.Insts {
		if in.Thorough && tier != "thorough" {
			continue
		}
		if filter != "" && !strings.Contains(in.Name, filter) {
			continue
		}
		insts = append(insts, in)
		dirs["./"+in.Pkg] = true
		if fns[in.Pkg] == nil {
			fns[in.Pkg] = map[string]bool{}
		}
		fns[in.Pkg][in.Fn] = true
	}
	var only []string
	for d := range dirs {
		only = append(only, d)
	}
	sort.Strings(only)
	l, err := load(only)
	if err != nil {
		fmt.Println("check error:", err)
		return 2
	}
	for _, in := range insts {
		if in.Optional && len(skipOpt) > 0 && l.pkgs[modPath+"/"+in.Pkg].Func(in.Fn) == nil {
			delete(fns[in.Pkg], in.Fn)
			if len(fns[in.Pkg]) == 0 {
				delete(fns, in.Pkg)
			}
		}
	}
	rp := newReplayer()
	rp.fns = fns
	defer rp.close()
	// build the native replay binaries while the engine works
	var bw sync.WaitGroup
	for pkg := range fns {
		bw.Add(1)
		go func(pkg string) { defer bw.Done(); rp.build(pkg, false) }(pkg)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	// longest first
	order := append([]*Inst{}, insts...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].Secs > order[j].Secs })
	res := map[*Inst]*Result{}
	outs := map[*Inst][]violOut{}
	valid := map[*Inst]int{}
	var mismatch []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *Inst)
	finds := loadFindings()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for in := range ch {
				left := int(time.Until(end).Seconds())
				if left < 1 {
					mu.Lock()
					res[in] = &Result{Inst: in, Err: "not run: time budget used up"}
					mu.Unlock()
					continue
				}
				c := *in
				c.Secs = or(c.Secs, 60)
				if tier == "thorough" {
					c.Secs *= 10
				}
				if c.Secs > left {
					c.Secs = left
				}
				r := runInst(l, &c)
				var vo []violOut
				seen := map[string]int{}
				for _, v := range r.Viol {
					k := v.Kind + v.Msg
					if seen[k]++; seen[k] > 2 {
						continue
					}
					o := violOut{Inst: in, V: v}
					o.Replay = rp.run(in, v.Vals, false)
					if !o.Replay.fails() {
						m := rp.run(in, v.Vals, true)
						if m.fails() {
							o.Replay, o.Model = m, true
						}
					}
					vo = append(vo, o)
				}
				nv := 0
				var mm []string
				for _, lab := range r.Reached {
					o := rp.run(in, r.ReachVals[lab], in.Model)
					if o.Reach[lab] {
						nv++
					} else if os.Getenv("VDEBUG") != "" || strings.HasPrefix(o.Verdict, "error") {
						mm = append(mm, in.Name+"/"+lab+": "+o.Verdict)
					} else {
						mm = append(mm, in.Name+"/"+lab+": "+strings.SplitN(o.Verdict, "\n", 2)[0])
					}
					if nv >= 3 {
						break
					}
				}
				mu.Lock()
				res[in] = r
				outs[in] = vo
				valid[in] = nv
				mismatch = append(mismatch, mm...)
				mu.Unlock()
			}
		}()
	}
	for _, in := range order {
		ch <- in
	}
	close(ch)
	wg.Wait()
	bw.Wait()

	code := 0
	nviol := 0
	fset := map[string]bool{}
	var st SolverStats
	tot := Result{}
	var notes, samples, bounds []interface{}
	ntr := 0
	known := map[string]bool{}
	repdir := filepath.Join(verifDir, "evidence", "replay")
	for _, in := range insts {
		r := res[in]
		for _, f := range r.Funcs {
			fset[f] = true
		}
		st.Queries += r.Stats.Queries
		st.Sat += r.Stats.Sat
		st.Unsat += r.Stats.Unsat
		st.Unknown += r.Stats.Unknown
		st.Time += r.Stats.Time
		tot.Paths += r.Paths
		tot.Forks += r.Forks
		tot.Merges += r.Merges
		tot.Steps += r.Steps
		tot.Asserts += r.Asserts
		tot.Discharged += r.Discharged
		ntr += valid[in]
		b := map[string]interface{}{"instance": in.Name, "harness": in.Pkg + "." + in.Fn, "params": in.Params, "bound": in.Bound,
			"paths": r.Paths, "queries": r.Stats.Queries, "asserts": r.Asserts, "discharged": r.Discharged, "solver_s": round(r.Stats.Time.Seconds()), "wall_s": round(r.Wall.Seconds()), "inputs": len(r.Vars)}
		complete := r.Err == "" && len(r.Incomplete) == 0
		b["complete"] = complete
		if r.Err != "" {
			notes = append(notes, in.Name+": "+r.Err)
			fmt.Printf("note: %s: %s\n", in.Name, r.Err)
		}
		for k, v := range r.Incomplete {
			notes = append(notes, fmt.Sprintf("%s: not covered: %s (%d paths)", in.Name, k, v))
			fmt.Printf("note: %s: not covered: %s (%d)\n", in.Name, k, v)
		}
		if complete && len(r.Missing) > 0 {
			notes = append(notes, fmt.Sprintf("%s: never reached: %v", in.Name, r.Missing))
			fmt.Printf("note: %s: never reached: %v\n", in.Name, r.Missing)
		}
		bounds = append(bounds, b)
		for lab, v := range r.ReachVals {
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"instance": in.Name, "reached": lab, "inputs": v})
			}
		}
		for i := range outs[in] {
			o := &outs[in][i]
			if !o.Replay.fails() {
				s := fmt.Sprintf("%s: candidate not reproduced natively (%s: %s), not reported: replay says %s", in.Name, o.V.Kind, o.V.Msg, strings.SplitN(o.Replay.Verdict, "\n", 2)[0])
				notes = append(notes, s)
				fmt.Println("note:", s)
				continue
			}
			msg := strings.TrimSpace(strings.SplitN(o.Replay.Verdict, "\n", 2)[0])
			isKnown := false
			for k := range finds {
				f := finds[k]
				if f.prop == id && f.inst == in.Name && f.msg == msg {
					isKnown = true
					if !known[f.text] {
						known[f.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
					}
				}
			}
			if isKnown {
				continue
			}
			os.MkdirAll(repdir, 0755)
			rf := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", id, nviol))
			jb, _ := json.MarshalIndent(map[string]interface{}{"property": id, "instance": in.Name, "pkg": in.Pkg, "fn": in.Fn, "params": in.Params, "vals": o.V.Vals, "model": o.Model,
				"verdict": o.Replay.Verdict, "symbolic_stack": o.V.Stack, "how": "bin/replay " + rf}, "", " ")
			os.WriteFile(rf, jb, 0644)
			nviol++
			code = 1
			if nviol <= 12 {
				fmt.Printf("instance %s: %s\n", in.Name, msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
			}
		}
	}
	for _, s := range mismatch {
		notes = append(notes, "native run did not reach the label: "+s)
		fmt.Println("note: native run did not reach the label:", s)
	}
	var fl []string
	for f := range fset {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"states": tot.Paths + tot.Merges, "transitions": tot.Steps, "traces_validated_against_impl": ntr, "samples": samples,
		"instances": bounds, "functions_encoded": fl, "queries": st.Queries, "queries_sat": st.Sat, "queries_unsat": st.Unsat, "queries_unknown": st.Unknown,
		"solver_s": round(st.Time.Seconds()), "assertions": tot.Asserts, "assertions_discharged": tot.Discharged, "not_covered": notes, "known_findings": len(known),
		"what_counts": "states: symbolic path ends plus joins; transitions: SSA instructions executed symbolically; traces: solver models run natively that reached the label the engine predicted",
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, commonAssumptions...), p.Assumptions...), "wall_s": round(time.Since(t0).Seconds()), "violations": nviol}
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if filter == "" {
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), jb, 0644); err != nil {
			fmt.Println("check error:", err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d instances, %d paths, %d assertions (%d discharged), %d queries, solver %.1fs, wall %.1fs, %d traces validated, %d violations, %d notes\n",
		id, tier, len(insts), tot.Paths, tot.Asserts, tot.Discharged, st.Queries, st.Time.Seconds(), time.Since(t0).Seconds(), ntr, nviol, len(notes))
	if os.Getenv("VTIMES") != "" {
		for _, in := range insts {
			r := res[in]
			fmt.Printf("  %6.1fs %-40s paths=%d q=%d solver=%.1f %s\n", r.Wall.Seconds(), in.Name, r.Paths, r.Stats.Queries, r.Stats.Time.Seconds(), r.Err)
		}
	}
	return code
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

var commonAssumptions = []string{
	"go/ssa's translation of the current sources is faithful to the compiler; int is 64 bits",
	"klauspost/compress/flate is replaced by a lossless contract model under the engine (output lengths are parameters), golang/protobuf by a lossless contract model; native replays use the real modules",
	"log and fmt printing have no effect on results and are skipped; GC, goroutine scheduling and data races are outside the encoding (the code is sequential)",
	"memory: allocations above the engine's limit end the path and are reported as not covered",
}

func cmdReplay(a []string) int {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var x struct {
		Instance, Pkg, Fn string
		Params            map[string]int
		Vals              map[string]uint64
		Model             bool
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := newReplayer()
	defer rp.close()
	in := &Inst{Name: x.Instance, Pkg: x.Pkg, Fn: x.Fn, Params: x.Params}
	o := rp.run(in, x.Vals, x.Model)
	fmt.Println(o.Verdict)
	if o.fails() {
		return 1
	}
	return 0
}
