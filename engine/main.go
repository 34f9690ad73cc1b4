package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var repoDir = "/repo"
var verifDir = "/verif"

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: engine run|check ...")
		os.Exit(2)
	}
	if p := os.Getenv("VPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		for id, p := range props() {
			fmt.Println(id, len(p.Insts))
		}
	case "check":
		c := cmdCheck(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(c)
	}
}

// cmdRun: engine run pkg fn [k=v ...]
func cmdRun(a []string) {
	t := time.Now()
	l, err := load([]string{"./" + strings.TrimPrefix(a[0], "./")})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t))
	in := &Inst{Pkg: a[0], Fn: a[1], Params: map[string]int{}}
	for _, kv := range a[2:] {
		i := strings.IndexByte(kv, '=')
		n, _ := strconv.Atoi(kv[i+1:])
		switch kv[:i] {
		case "-secs":
			in.Secs = n
		case "-steps":
			in.Steps = n
		case "-hang":
			in.Hang = n != 0
		case "-nomerge":
			in.NoMerge = n != 0
		case "-conc":
			in.Conc = n
		default:
			in.Params[kv[:i]] = n
		}
	}
	r := runInst(l, in)
	printRes(r)
	for i, v := range r.Viol {
		fmt.Printf("--- violation %d: %s %s\n%s vals:", i, v.Kind, v.Msg, v.Stack)
		for _, n := range r.Vars {
			fmt.Printf(" %s=%#x", n, v.Vals[n])
		}
		fmt.Println()
		if os.Getenv("VREPLAY") != "" {
			fmt.Println("   replay:", newReplayer().run(in, v.Vals, false))
			fmt.Println("   replay (model):", newReplayer().run(in, v.Vals, true))
		}
	}
}

func printRes(r *Result) {
	fmt.Printf("%s: wall=%.1fs paths=%d forks=%d merges=%d steps=%d asserts=%d/%d queries=%d (sat %d unsat %d unk %d fb %d os %d) solver=%.1fs max=%.2fs funcs=%d reach=%v missing=%v viol=%d\n", r.Inst.Name+r.Inst.Fn,
		r.Wall.Seconds(), r.Paths, r.Forks, r.Merges, r.Steps, r.Discharged, r.Asserts, r.Stats.Queries, r.Stats.Sat, r.Stats.Unsat, r.Stats.Unknown, r.Stats.Fallback, r.Stats.OneShot, r.Stats.Time.Seconds(), r.Stats.MaxQuery.Seconds(), len(r.Funcs), r.Reached, r.Missing, len(r.Viol))
	if r.Err != "" {
		fmt.Println("  ERR", r.Err)
	}
	for k, v := range r.Incomplete {
		fmt.Println("  INCOMPLETE", v, k)
	}
}
