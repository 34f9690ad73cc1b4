package main

// Symbolic executor over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *FuncV
	args []Value
	bi   *ssa.Builtin
}

type Frame struct {
	own     uint64
	fi      *fnInfo
	fn      *ssa.Function
	regs    []Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	visits  int
	ret     int  // register of the caller receiving the result, -1 for none
	isDefer bool // called by RunDefers or by panic unwinding: do not advance the caller
	unwind  bool // called by panic unwinding
	recov   bool // running the recover block
	result  []Value
}

type pan struct {
	v         Iface
	recovered bool
	msg       string
	parent    *pan
}

type concEnt struct {
	id     uint32
	v      uint64
	parent *concEnt
}

type State struct {
	own    uint64
	heap   Heap
	frames []*Frame
	pc     *PC
	model  *Model
	conc   *concEnt
	concM  map[uint32]uint64 // cache over the conc list
	panic  *pan
	outs   []outRec
	steps  int
	reach  int
}

type outRec struct {
	name string
	e    *Expr
}

type fnInfo struct {
	fn      *ssa.Function
	idx     map[ssa.Value]int
	n       int
	live    []map[int]bool // live-in registers at block entry (after phis)
	ipdom   []*ssa.BasicBlock
	nphi    []int
	instrs  int
	noMerge map[ssa.Instruction]int
}

type forkBool struct{ e *Expr }
type forkInt struct {
	e *Expr
}
type pathEnd struct{ why string } // assume failed etc.
type goPanic struct {
	v   Iface
	msg string
}

type Violation struct {
	Msg    string
	Vals   map[string]uint64
	Stack  string
	Kind   string
	Params map[string]int
}

type Limits struct {
	MaxSteps  int // per path
	MaxConc   int // values of one concretised integer
	MaxPaths  int
	Deadline  time.Time
	MaxAlloc  int
	MaxViol   int
	Trace     bool
	NoMerge   bool
	HangSteps bool // exceeding MaxSteps is a candidate violation
}

type M struct {
	prog    *ssa.Program
	ctx     *Ctx
	sol     *Solver
	lay     *layouts
	lim     Limits
	fis     map[*ssa.Function]*fnInfo
	consts  map[*ssa.Const]Value
	gids    map[*ssa.Global]uint32
	nextID  uint32
	nextOwn uint64
	params  map[string]int
	sizes   types.Sizes
	lookup  map[lkey]*ssa.Function
	initSt  *State
	inited  map[*ssa.Package]bool

	paths, forks, merges int
	ticks                int
	totalSteps           int
	viol                 []Violation
	violSeen             map[string]bool
	incomplete           map[string]int
	funcs                map[*ssa.Function]int
	reached              map[string]*Model
	endModels            []*endRec
	models               []*Model
	maxDepth             int
	asserts              int
	discharged           int
	stop                 bool
	errType              types.Type
	skipInit             func(string) bool
	over                 map[string]*ssa.Function
	states               int
	token                int
	shared               map[string]uint32
}

type endRec struct {
	m    *Model
	outs []outRec
}

type lkey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func NewM(prog *ssa.Program) *M {
	c := NewCtx()
	m := &M{prog: prog, ctx: c, fis: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, gids: map[*ssa.Global]uint32{}, nextID: 1, nextOwn: 1,
		lookup: map[lkey]*ssa.Function{}, violSeen: map[string]bool{}, incomplete: map[string]int{}, funcs: map[*ssa.Function]int{}, reached: map[string]*Model{},
		inited: map[*ssa.Package]bool{}, over: map[string]*ssa.Function{}, shared: map[string]uint32{}}
	m.lay = newLayouts(c)
	m.sizes = types.SizesFor("gc", "amd64")
	return m
}

func (m *M) newOwn() uint64 { m.nextOwn++; return m.nextOwn }

func (m *M) clone(s *State) *State {
	c := *s
	c.own = m.newOwn()
	s.own = m.newOwn()
	c.frames = append([]*Frame(nil), s.frames...)
	c.outs = s.outs[:len(s.outs):len(s.outs)]
	c.concM = nil
	m.states++
	return &c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// wtop returns the top frame, private to the state.
func (m *M) wtop(s *State) *Frame {
	i := len(s.frames) - 1
	f := s.frames[i]
	if f.own != s.own {
		c := *f
		c.own = s.own
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		s.frames[i] = &c
		f = &c
	}
	return f
}

func (m *M) wobj(s *State, id uint32) *Obj {
	o := s.heap.get(id)
	if o == nil {
		panic(unsupported(fmt.Sprintf("internal: dangling object %d", id)))
	}
	if o.own != s.own {
		o = o.clone(s.own)
		s.heap.set(s.own, id, o)
	}
	return o
}

func (m *M) alloc(s *State, zero []Value, count int) uint32 {
	id := m.nextID
	m.nextID++
	if m.nextID >= 1<<25-1 {
		panic(unsupported("object space exhausted"))
	}
	s.heap.set(s.own, id, newObj(s.own, zero, count))
	return id
}

func (m *M) allocType(s *State, t types.Type) uint32 {
	if a, ok := t.Underlying().(*types.Array); ok {
		return m.alloc(s, m.lay.Zero(a.Elem()), int(a.Len()))
	}
	return m.alloc(s, m.lay.Zero(t), 1)
}

func (m *M) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fis[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, noMerge: map[ssa.Instruction]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	fi.nphi = make([]int, nb)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instrs++
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[b.Index]++
			}
		}
	}
	// liveness
	use := make([]map[int]bool, nb)
	def := make([]map[int]bool, nb)
	phiOut := make([]map[int]bool, nb) // registers used by phis of successors along the edge
	for i := range use {
		use[i], def[i], phiOut[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		u, d := use[b.Index], def[b.Index]
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if r, ok := fi.idx[e]; ok {
						phiOut[b.Preds[k].Index][r] = true
					}
				}
				// phi results count as live-in values of the block (the merge point is after them)
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := fi.idx[*o]; ok && !d[r] {
					u[r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[fi.idx[v]] = true
			}
		}
	}
	live := make([]map[int]bool, nb)
	for i := range live {
		live[i] = map[int]bool{}
	}
	phiDef := make([]map[int]bool, nb)
	for _, b := range fn.Blocks {
		phiDef[b.Index] = map[int]bool{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phiDef[b.Index][fi.idx[ph]] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := func(r int) {
				if !live[i][r] {
					live[i][r] = true
					ch = true
				}
			}
			for r := range use[i] {
				set(r)
			}
			out := func(r int) {
				if !def[i][r] {
					set(r)
				}
			}
			for r := range phiOut[i] {
				out(r)
			}
			for _, s := range b.Succs {
				for r := range live[s.Index] {
					if !phiDef[s.Index][r] {
						out(r)
					}
				}
			}
		}
	}
	fi.live = live
	fi.ipdom = ipdoms(fn)
	m.fis[fn] = fi
	return fi
}

// ipdoms computes immediate post-dominators; nil means the function exit.
func ipdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	// post-dominator sets by iteration over bitsets (functions are small)
	type set []uint64
	words := (n + 1 + 63) / 64
	full := func() set {
		s := make(set, words)
		for i := range s {
			s[i] = ^uint64(0)
		}
		return s
	}
	pd := make([]set, n+1)
	for i := range pd {
		pd[i] = full()
	}
	exit := n
	pd[exit] = make(set, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	succ := func(b *ssa.BasicBlock) []int {
		var r []int
		for _, s := range b.Succs {
			r = append(r, s.Index)
		}
		if len(r) == 0 {
			r = []int{exit}
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			ns := full()
			for _, s := range succ(fn.Blocks[i]) {
				for k := range ns {
					ns[k] &= pd[s][k]
				}
			}
			ns[i/64] |= 1 << (i % 64)
			for k := range ns {
				if ns[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = ns
		}
	}
	cnt := func(s set) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	res := make([]*ssa.BasicBlock, n)
	for i := 0; i < n; i++ {
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 != 0 {
				if c := cnt(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			res[i] = fn.Blocks[best]
		}
	}
	return res
}

// ---- operands

func (m *M) get(st *State, f *Frame, v ssa.Value) Value {
	if i, ok := f.fi.idx[v]; ok {
		return f.regs[i]
	}
	switch x := v.(type) {
	case *ssa.Const:
		if r, ok := m.consts[x]; ok {
			return r
		}
		r := m.constVal(x)
		m.consts[x] = r
		return r
	case *ssa.Global:
		return Ptr{m.global(st, x), 0}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	panic(unsupported(fmt.Sprintf("operand %T", v)))
}

func (m *M) global(st *State, g *ssa.Global) uint32 {
	id, ok := m.gids[g]
	if !ok || st.heap.get(id) == nil {
		if g.Pkg != nil && m.skipInit(g.Pkg.Pkg.Path()) && !strings.HasPrefix(g.Name(), "init$") {
			panic(unsupported("global of uninitialised package: " + g.String()))
		}
		if !ok {
			id = m.nextID
			m.nextID++
			m.gids[g] = id
		}
		t := g.Type().(*types.Pointer).Elem()
		var o *Obj
		if a, ok := t.Underlying().(*types.Array); ok {
			o = newObj(st.own, m.lay.Zero(a.Elem()), int(a.Len()))
		} else {
			o = newObj(st.own, m.lay.Zero(t), 1)
		}
		st.heap.set(st.own, id, o)
	}
	return id
}

func (m *M) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return m.lay.ZeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.Int {
				i, _ := constant.Int64Val(x.Value)
				return &Str{s: string(rune(i))}
			}
			return &Str{s: constant.StringVal(x.Value)}
		case u.Info()&types.IsBoolean != 0:
			return m.ctx.B(constant.BoolVal(x.Value))
		case u.Info()&types.IsInteger != 0:
			w, _ := basicWidth(u)
			v := constant.ToInt(x.Value)
			if i, ok := constant.Int64Val(v); ok {
				return m.ctx.K(uint64(i), w)
			}
			i, _ := constant.Uint64Val(v)
			return m.ctx.K(i, w)
		case u.Info()&types.IsFloat != 0:
			w, _ := basicWidth(u)
			if w == 32 {
				f, _ := constant.Float32Val(x.Value)
				return m.ctx.K(fbits(float64(f), 32), 32)
			}
			f, _ := constant.Float64Val(x.Value)
			return m.ctx.K(fbits(f, 64), 64)
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

// ---- decisions

func (s *State) concGet(id uint32) (uint64, bool) {
	if s.concM == nil {
		s.concM = map[uint32]uint64{}
		for c := s.conc; c != nil; c = c.parent {
			if _, ok := s.concM[c.id]; !ok {
				s.concM[c.id] = c.v
			}
		}
	}
	v, ok := s.concM[id]
	return v, ok
}

func (s *State) concSet(id uint32, v uint64) {
	s.conc = &concEnt{id, v, s.conc}
	if s.concM != nil {
		s.concM[id] = v
	}
}

// feasible decides whether pc /\ e is satisfiable, with cached models first.
func (m *M) feasible(st *State, e *Expr) (bool, *Model) {
	if e.isConst() {
		return e.c != 0, st.model
	}
	if st.model.Eval(e) != 0 {
		return true, st.model
	}
	for i := len(m.models) - 1; i >= 0 && i >= len(m.models)-6; i-- {
		mo := m.models[i]
		if mo.Eval(e) == 0 {
			continue
		}
		ok := true
		for p := st.pc; p != nil; p = p.parent {
			if mo.Eval(p.e) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return true, mo
		}
	}
	if time.Now().After(m.lim.Deadline) {
		m.stop = true
		m.incomplete["time limit"]++
		panic(pathEnd{"time limit"})
	}
	r, mo := m.sol.Check(st.pc, e)
	switch r {
	case Sat:
		m.remember(mo)
		return true, mo
	case Unsat:
		return false, nil
	}
	m.incomplete["solver gave no answer on a branch"]++
	panic(pathEnd{"solver unknown"})
}

func (m *M) remember(mo *Model) {
	m.models = append(m.models, mo)
	if len(m.models) > 64 {
		m.models = append([]*Model(nil), m.models[len(m.models)-16:]...)
	}
}

// decide resolves a Boolean; it forks (by Go panic) when both sides are feasible.
func (m *M) decide(st *State, e *Expr) bool {
	if e.isConst() {
		return e.c != 0
	}
	if v, ok := st.concGet(e.id); ok {
		return v != 0
	}
	if e.op == ONot {
		if v, ok := st.concGet(e.a.id); ok {
			return v == 0
		}
	}
	panic(forkBool{e})
}

// concrete resolves an integer, forking over its feasible values.
func (m *M) concrete(st *State, e *Expr) uint64 {
	if e.isConst() {
		return e.c
	}
	if v, ok := st.concGet(e.id); ok {
		return v
	}
	panic(forkInt{e})
}

func (m *M) concInt(st *State, v Value, t types.Type) int64 {
	e := v.(*Expr)
	c := m.concrete(st, e)
	if isSigned(t) {
		return sx(c, e.w)
	}
	return int64(c)
}

// ---- running

type stopPt struct {
	depth int
	block *ssa.BasicBlock
}

func (m *M) atStop(st *State, sp *stopPt) bool {
	if sp == nil {
		return false
	}
	d := len(st.frames)
	if d < sp.depth {
		return true
	}
	if d == sp.depth && sp.block != nil {
		f := st.top()
		return f.block == sp.block && f.pc == f.fi.nphi[f.block.Index]
	}
	return false
}

func (m *M) run(st *State, sp *stopPt, depth int) []*State {
	if depth > m.maxDepth {
		m.maxDepth = depth
	}
	for {
		if m.stop {
			return nil
		}
		if m.ticks++; m.ticks&1023 == 0 && time.Now().After(m.lim.Deadline) {
			m.stop = true
			m.incomplete["time limit"]++
			return nil
		}
		if len(st.frames) == 0 {
			if sp == nil {
				m.finish(st)
				return nil
			}
			return []*State{st}
		}
		if m.atStop(st, sp) {
			return []*State{st}
		}
		fork := m.step(st)
		if fork == nil {
			continue
		}
		if len(fork) == 0 {
			return nil
		}
		f := st.top()
		in := f.block.Instrs[f.pc]
		m.forks++
		if m.lim.NoMerge || f.fi.noMerge[in] >= 6 {
			var out []*State
			for _, a := range fork {
				out = append(out, m.run(a, sp, depth+1)...)
			}
			return out
		}
		nsp := &stopPt{depth: len(st.frames), block: f.fi.ipdom[f.block.Index]}
		fi := f.fi
		base := st
		var res []*State
		for _, a := range fork {
			res = append(res, m.run(a, nsp, depth+1)...)
			if m.stop {
				return nil
			}
		}
		if len(res) > 1 {
			n0 := len(res)
			res = m.mergeAll(base, res, fi)
			if len(res) == n0 {
				fi.noMerge[in]++
			} else {
				fi.noMerge[in] = 0
			}
		}
		if len(res) == 1 {
			st = res[0]
			continue
		}
		var out []*State
		for _, a := range res {
			out = append(out, m.run(a, sp, depth+1)...)
		}
		return out
	}
}

var ended = []*State{}

func (m *M) finish(st *State) {
	m.paths++
	if len(m.endModels) < 400 {
		m.endModels = append(m.endModels, &endRec{st.model, st.outs})
	}
	if m.lim.MaxPaths > 0 && m.paths >= m.lim.MaxPaths {
		m.stop = true
		m.incomplete["path limit"]++
	}
}

// step executes one instruction; it returns nil to continue, `ended` when the
// path is over, or the alternatives of a fork (positioned at the same instruction).
func (m *M) step(st *State) (fork []*State) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkBool:
				fork = m.forkOnBool(st, x.e)
			case forkInt:
				fork = m.forkOnInt(st, x.e)
			case goPanic:
				fork = m.raise(st, x)
			case pathEnd:
				if x.why == "assume" {
				}
				fork = ended
			case unsupported:
				m.incomplete["unsupported: "+string(x)+" at "+m.where(st)]++
				fork = ended
			default:
				if m.lim.Trace {
					fmt.Println("ENGINE PANIC at", m.where(st), m.stack(st), r)
				}
				panic(r)
			}
		}
	}()
	for i := 0; i < 256; i++ {
		st.steps++
		m.totalSteps++
		if st.steps > m.lim.MaxSteps {
			if m.lim.HangSteps {
				m.report(st, st.model, "step bound exceeded (possible hang)", "hang")
			} else {
				m.incomplete["step bound exceeded at "+m.where(st)]++
			}
			return ended
		}
		nf := len(st.frames)
		nb := st.top().block
		m.exec1(st)
		if len(st.frames) != nf || st.frames[nf-1].block != nb {
			return nil // frame or block changed: let run() look at stop points
		}
	}
	return nil
}

func (m *M) forkOnBool(st *State, e *Expr) (res []*State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				res = ended
				return
			}
			panic(r)
		}
	}()
	ne := m.ctx.Not(e)
	v := st.model.Eval(e) != 0
	other := e
	if v {
		other = ne
	}
	ok, mo := m.feasible(st, other)
	if !ok {
		st.concSet(e.id, b2u(v))
		return nil
	}
	o := m.clone(st)
	take := e
	if !v {
		take = ne
	}
	st2 := m.clone(st) // keep st as the merge base
	st2.pc = st.pc.add(take)
	st2.concSet(e.id, b2u(v))
	o.pc = st.pc.add(other)
	o.concSet(e.id, b2u(!v))
	o.model = mo
	if m.lim.MaxPaths > 0 && m.states > 40*m.lim.MaxPaths {
		m.stop = true
		m.incomplete["state limit"]++
	}
	return []*State{st2, o}
}

func (m *M) forkOnInt(st *State, e *Expr) (res []*State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				res = ended
				return
			}
			panic(r)
		}
	}()
	var vals []uint64
	var mods []*Model
	// ite trees over constants list their candidates
	excl := m.ctx.True
	mo := st.model
	for {
		v := mo.Eval(e)
		vals = append(vals, v)
		mods = append(mods, mo)
		if len(vals) > m.lim.MaxConc {
			m.incomplete["more than "+fmt.Sprint(m.lim.MaxConc)+" values of one integer at "+m.where(st)]++
			return ended
		}
		excl = m.ctx.And(excl, m.ctx.Not(m.ctx.Eq(e, m.ctx.K(v, e.w))))
		ok, nm := m.feasible(st, excl)
		if !ok {
			break
		}
		mo = nm
	}
	if len(vals) == 1 {
		st.concSet(e.id, vals[0])
		return nil
	}
	ord := make([]int, len(vals))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(i, j int) bool { return vals[ord[i]] < vals[ord[j]] })
	for _, i := range ord {
		o := m.clone(st)
		o.pc = st.pc.add(m.ctx.Eq(e, m.ctx.K(vals[i], e.w)))
		o.concSet(e.id, vals[i])
		o.model = mods[i]
		res = append(res, o)
	}
	return res
}

func (m *M) where(st *State) string {
	if len(st.frames) == 0 {
		return "exit"
	}
	f := st.top()
	pos := token.NoPos
	for i := f.pc; i >= 0 && i < len(f.block.Instrs) && pos == token.NoPos; i-- {
		pos = f.block.Instrs[i].Pos()
	}
	p := m.prog.Fset.Position(pos)
	fn := p.Filename
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s (%s:%d)", f.fn.String(), fn, p.Line)
}

func (m *M) stack(st *State) string {
	var sb strings.Builder
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		pos := token.NoPos
		for k := f.pc; k >= 0 && k < len(f.block.Instrs) && pos == token.NoPos; k-- {
			pos = f.block.Instrs[k].Pos()
		}
		p := m.prog.Fset.Position(pos)
		fmt.Fprintf(&sb, "%s %s:%d\n", f.fn.String(), p.Filename, p.Line)
	}
	return sb.String()
}

func (m *M) report(st *State, mo *Model, msg, kind string) {
	key := kind + msg + m.where(st)
	if m.violSeen[key] {
		return
	}
	m.violSeen[key] = true
	vals := map[string]uint64{}
	for _, v := range m.ctx.varLst {
		vals[v.name] = mo.vals[v.name]
	}
	m.viol = append(m.viol, Violation{Msg: msg, Kind: kind, Vals: vals, Stack: m.stack(st)})
	if m.lim.MaxViol > 0 && len(m.viol) >= m.lim.MaxViol {
		m.stop = true
	}
}

// ---- panics

func (m *M) rtPanic(msg string) {
	panic(goPanic{v: Iface{types.Typ[types.String], &Str{s: "runtime error: " + msg}}, msg: "runtime error: " + msg})
}

func (m *M) raise(st *State, g goPanic) []*State {
	st.panic = &pan{v: g.v, msg: g.msg + " at " + m.where(st)}
	return m.unwindStep(st)
}

func (m *M) unwindStep(st *State) []*State {
	for len(st.frames) > 0 {
		f := m.wtop(st)
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.bi != nil {
				continue
			}
			if m.pushCall(st, d.fn, d.args, -1, true, true) {
				continue // intrinsic, already done
			}
			return nil
		}
		if len(st.frames) == 1 {
			m.report(st, st.model, "uncaught panic: "+st.panic.msg, "panic")
			return ended
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
	return ended
}

// ---- merging

func (m *M) mergeAll(base *State, res []*State, fi *fnInfo) []*State {
	var out []*State
	for _, s := range res {
		done := false
		for i, g := range out {
			if r := m.merge(base, g, s); r != nil {
				out[i] = r
				m.merges++
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

func suffix(base, p *PC) ([]*Expr, bool) {
	var r []*Expr
	for ; p != base; p = p.parent {
		if p == nil {
			return nil, false
		}
		r = append(r, p.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, true
}

func (m *M) merge(base, a, b *State) *State {
	if len(a.frames) != len(b.frames) || a.panic != b.panic {
		return nil
	}
	if len(a.outs) != len(b.outs) {
		return nil
	}
	n := len(a.frames)
	for i := 0; i < n; i++ {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		if x.fn != y.fn || x.block != y.block || x.pc != y.pc || len(x.defers) != len(y.defers) || x.isDefer != y.isDefer || x.unwind != y.unwind || x.ret != y.ret {
			return nil
		}
		for k := range x.defers {
			if x.defers[k].fn != y.defers[k].fn {
				return nil
			}
		}
	}
	sa, ok1 := suffix(base.pc, a.pc)
	sb, ok2 := suffix(base.pc, b.pc)
	if !ok1 || !ok2 {
		return nil
	}
	c := m.ctx
	k := 0
	for k < len(sa) && k < len(sb) && sa[k] == sb[k] {
		k++
	}
	ca, cb := c.True, c.True
	for _, e := range sa[k:] {
		ca = c.And(ca, e)
	}
	for _, e := range sb[k:] {
		cb = c.And(cb, e)
	}
	cond := ca
	if k < len(sa) && k < len(sb) && c.Not(sa[k]) == sb[k] {
		cond = sa[k]
	}
	mg := &merger{m: m, cond: cond}

	// frames
	frames := append([]*Frame(nil), a.frames...)
	own := m.newOwn()
	for i := 0; i < n; i++ {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		nf := *x
		nf.own = own
		nf.regs = make([]Value, len(x.regs))
		var live map[int]bool
		if i == n-1 && x.pc == x.fi.nphi[x.block.Index] {
			live = x.fi.live[x.block.Index]
		}
		for r := range x.regs {
			if live != nil && !live[r] {
				continue
			}
			v, ok := mg.val(x.regs[r], y.regs[r])
			if !ok {
				if live == nil && i < n {
					// a register that is dead or unset on one side may be dropped only if it is not used later
					if x.regs[r] == nil || y.regs[r] == nil {
						continue
					}
				}
				return nil
			}
			nf.regs[r] = v
		}
		if x.visits < y.visits {
			nf.visits = y.visits
		}
		frames[i] = &nf
	}
	for i := range a.outs {
		if a.outs[i].name != b.outs[i].name {
			return nil
		}
	}
	outs := append([]outRec(nil), a.outs...)
	for i := range outs {
		if a.outs[i].e != b.outs[i].e {
			outs[i].e = c.Ite(cond, a.outs[i].e, b.outs[i].e)
		}
	}
	// heap: start from a, fold in b
	type upd struct {
		id uint32
		o  *Obj
	}
	var ups []upd
	ok := heapDiff(&a.heap, &b.heap, func(id uint32, x, y *Obj) bool {
		if y == nil {
			return true
		}
		if x == nil {
			ups = append(ups, upd{id, y})
			return true
		}
		o, ok := mg.obj(own, x, y)
		if !ok {
			return false
		}
		if o != x {
			ups = append(ups, upd{id, o})
		}
		return true
	})
	if !ok {
		return nil
	}
	r := &State{own: own, heap: a.heap, frames: frames, model: a.model, conc: base.conc, panic: a.panic, outs: outs, steps: max(a.steps, b.steps)}
	for _, u := range ups {
		r.heap.set(own, u.id, u.o)
	}
	r.pc = base.pc
	for _, e := range sa[:k] {
		r.pc = r.pc.add(e)
	}
	r.pc = r.pc.add(c.Or(ca, cb))
	return r
}

type merger struct {
	m    *M
	cond *Expr
}

func (g *merger) val(x, y Value) (Value, bool) {
	switch a := x.(type) {
	case nil:
		return nil, y == nil
	case *Expr:
		b, ok := y.(*Expr)
		if !ok || a.w != b.w {
			return nil, false
		}
		if a == b {
			return a, true
		}
		return g.m.ctx.Ite(g.cond, a, b), true
	case *Str:
		b, ok := y.(*Str)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if a.len() != b.len() {
			return nil, false
		}
		if a.b == nil && b.b == nil && a.s == b.s {
			return a, true
		}
		es := make([]*Expr, a.len())
		for i := range es {
			es[i] = g.m.ctx.Ite(g.cond, g.m.ctx.strAt(a, i), g.m.ctx.strAt(b, i))
		}
		return mkStr(es), true
	case Ptr:
		b, ok := y.(Ptr)
		return a, ok && a == b
	case SliceV:
		b, ok := y.(SliceV)
		return a, ok && a == b
	case MapV:
		b, ok := y.(MapV)
		return a, ok && a == b
	case *FuncV:
		b, ok := y.(*FuncV)
		if !ok {
			return nil, false
		}
		if a == b {
			return a, true
		}
		if a == nil || b == nil || a.fn != b.fn || a.bi != b.bi || len(a.bind) != len(b.bind) {
			return nil, false
		}
		r := &FuncV{fn: a.fn, bi: a.bi}
		for i := range a.bind {
			v, ok := g.val(a.bind[i], b.bind[i])
			if !ok {
				return nil, false
			}
			r.bind = append(r.bind, v)
		}
		return r, true
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return nil, false
		}
		if a.t == nil || b.t == nil {
			return a, a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return nil, false
		}
		v, ok := g.val(a.v, b.v)
		return Iface{a.t, v}, ok
	case *Agg:
		b, ok := y.(*Agg)
		if !ok || len(a.c) != len(b.c) {
			return nil, false
		}
		if a == b {
			return a, true
		}
		r := &Agg{make([]Value, len(a.c))}
		for i := range a.c {
			v, ok := g.val(a.c[i], b.c[i])
			if !ok {
				return nil, false
			}
			r.c[i] = v
		}
		return r, true
	case Tuple:
		b, ok := y.(Tuple)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(Tuple, len(a))
		for i := range a {
			v, ok := g.val(a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *IterV:
		b, ok := y.(*IterV)
		return a, ok && a == b
	case unsupported:
		_, ok := y.(unsupported)
		return a, ok
	}
	return nil, false
}

func (g *merger) obj(own uint64, x, y *Obj) (*Obj, bool) {
	if x.n != y.n || x.isMap != y.isMap {
		return nil, false
	}
	var r *Obj
	w := func() {
		if r == nil {
			r = x.clone(own)
		}
	}
	if x.isMap {
		if len(x.keys) != len(y.keys) {
			return nil, false
		}
		for i := range x.keys {
			k, ok := g.val(x.keys[i], y.keys[i])
			if !ok {
				return nil, false
			}
			if !same(k, x.keys[i]) {
				return nil, false
			}
			for j := range x.vals[i] {
				v, ok := g.val(x.vals[i][j], y.vals[i][j])
				if !ok {
					return nil, false
				}
				if !same(v, x.vals[i][j]) {
					w()
					nv := append([]Value(nil), r.vals[i]...)
					nv[j] = v
					r.vals[i] = nv
				}
			}
		}
		if r == nil {
			r = x
		}
		return r, true
	}
	for i := range x.pages {
		p, q := x.pages[i], y.pages[i]
		if p == q {
			continue
		}
		lim := min(pageSize, x.n-i*pageSize)
		for j := 0; j < lim; j++ {
			a, b := x.load(i*pageSize+j), y.load(i*pageSize+j)
			if same(a, b) {
				continue
			}
			v, ok := g.val(a, b)
			if !ok {
				return nil, false
			}
			if !same(v, a) {
				w()
				r.writablePage(own, i).c[j] = v
			}
		}
	}
	if r == nil {
		r = x
	}
	return r, true
}

// same is a cheap identity test (false negatives are fine).
func same(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || x.b == nil && y.b == nil && x.s == y.s)
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || same(x.v, y.v))
	case *Agg:
		y, ok := b.(*Agg)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}
