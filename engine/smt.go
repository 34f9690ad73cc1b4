package main

// SMT solver process (z3 -in), driven incrementally: the assertion stack
// follows the path condition of the state being explored.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// PC is a persistent path condition.
type PC struct {
	parent *PC
	e      *Expr
	depth  int
}

func (p *PC) add(e *Expr) *PC {
	if e.isConst() && e.c != 0 {
		return p
	}
	d := 0
	if p != nil {
		d = p.depth + 1
	}
	return &PC{p, e, d}
}

type level struct {
	pc   *PC
	defs []*Expr
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Fallback, OneShot            int
	MaxQuery                     time.Duration
}

type Solver struct {
	ctx       *Ctx
	bin       []string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inC       io.WriteCloser
	out       *bufio.Reader
	stack     []level
	stackMode bool
	lits      map[uint32]bool
	ndefs     int
	base      level
	stats     SolverStats
	timeoutMs int
	sb        strings.Builder
	gen       int
	sinceNew  int
	slow      int
	deadline  time.Time
	logic     string
	trace     io.Writer
	shot      *Solver // for stand-alone queries
	incMs     int
	giveUp    int // recent incremental timeouts
	skip      int // stand-alone queries to do before trying incrementally again
}

func NewSolver(ctx *Ctx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: []string{"z3-new", "-in"}, timeoutMs: timeoutMs, lits: map[uint32]bool{}, incMs: envInt("VINC", 150)}
	if v := os.Getenv("VSOLVER"); v != "" {
		f := strings.Split(v, ",")
		s.bin = strings.Fields(f[0])
		s.logic = f[1]
		s.stackMode = f[2] == "stack"
	}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprint("cannot start solver: ", err))
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if strings.HasPrefix(s.bin[0], "z3") {
		ms := s.timeoutMs
		if s.incMs > 0 {
			ms = s.incMs
		}
		s.emit(fmt.Sprintf("(set-option :timeout %d)\n(set-option :model.completion true)\n", ms))
	}
	if s.logic != "" {
		s.emit("(set-logic " + s.logic + ")\n")
	}
	s.sinceNew, s.slow = 0, 0
}

func (s *Solver) Close() {
	if s.shot != nil {
		s.shot.stop()
		s.shot = nil
	}
	s.stop()
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	for _, l := range s.stack {
		for _, e := range l.defs {
			e.defd = -1
		}
	}
	for _, e := range s.base.defs {
		e.defd = -1
	}
	s.base.defs = nil
	s.stack = nil
	s.lits = map[uint32]bool{}
	s.ndefs = 0
}

func (s *Solver) emit(x string) {
	if s.trace != nil {
		io.WriteString(s.trace, x)
	}
	s.in.WriteString(x)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (e *Expr) ref(sb *strings.Builder) {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		if e.w%4 == 0 {
			fmt.Fprintf(sb, "#x%0*x", int(e.w/4), e.c)
		} else {
			fmt.Fprintf(sb, "#b%0*b", int(e.w), e.c)
		}
	case OVar:
		sb.WriteString("v")
		sb.WriteString(strconv.FormatUint(e.c, 10))
	default:
		sb.WriteString("n")
		sb.WriteString(strconv.FormatUint(uint64(e.id), 10))
	}
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (e *Expr) body(sb *strings.Builder) {
	fp := func(x *Expr) {
		sb.WriteString("((_ to_fp " + fpSort(x.w) + ") ")
		x.ref(sb)
		sb.WriteString(")")
	}
	switch e.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) ", e.c>>8, e.c&0xff)
		e.a.ref(sb)
		sb.WriteString(")")
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", e.w-e.a.w)
		e.a.ref(sb)
		sb.WriteString(")")
	case OFLt, OFLe, OFEq:
		sb.WriteString(map[Op]string{OFLt: "(fp.lt ", OFLe: "(fp.leq ", OFEq: "(fp.eq "}[e.op])
		fp(e.a)
		sb.WriteString(" ")
		fp(e.b)
		sb.WriteString(")")
	case OFAdd, OFSub, OFMul, OFDiv:
		sb.WriteString(map[Op]string{OFAdd: "(fp.to_ieee_bv (fp.add RNE ", OFSub: "(fp.to_ieee_bv (fp.sub RNE ", OFMul: "(fp.to_ieee_bv (fp.mul RNE ", OFDiv: "(fp.to_ieee_bv (fp.div RNE "}[e.op])
		fp(e.a)
		sb.WriteString(" ")
		fp(e.b)
		sb.WriteString("))")
	case OFToSI:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ ", e.w)
		fp(e.a)
		sb.WriteString(")")
	case OFToUI:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ ", e.w)
		fp(e.a)
		sb.WriteString(")")
	case OSIToF:
		sb.WriteString("(fp.to_ieee_bv ((_ to_fp " + fpSort(e.w) + ") RNE ")
		e.a.ref(sb)
		sb.WriteString("))")
	case OUIToF:
		sb.WriteString("(fp.to_ieee_bv ((_ to_fp_unsigned " + fpSort(e.w) + ") RNE ")
		e.a.ref(sb)
		sb.WriteString("))")
	case OFToF:
		sb.WriteString("(fp.to_ieee_bv ((_ to_fp " + fpSort(e.w) + ") RNE ")
		fp(e.a)
		sb.WriteString("))")
	default:
		sb.WriteString("(")
		sb.WriteString(opSMT[e.op])
		for _, x := range []*Expr{e.a, e.b, e.d} {
			if x != nil {
				sb.WriteString(" ")
				x.ref(sb)
			}
		}
		sb.WriteString(")")
	}
}

// define makes e and its sub-expressions available in the current level.
func (s *Solver) define(e *Expr, lv *level) {
	if e.op == OConst || e.defd >= 0 {
		return
	}
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.e.defd >= 0 || f.e.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Expr
		for f.i < 3 && ch == nil {
			switch f.i {
			case 0:
				ch = f.e.a
			case 1:
				ch = f.e.b
			case 2:
				ch = f.e.d
			}
			f.i++
		}
		if ch != nil {
			if ch.op != OConst && ch.defd < 0 {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.e
		st = st[:len(st)-1]
		s.sb.Reset()
		if x.op == OVar {
			s.sb.WriteString("(declare-const ")
			x.ref(&s.sb)
			s.sb.WriteString(" " + sortOf(x.w) + ")\n")
			x.bound(&s.sb)
		} else {
			s.sb.WriteString("(define-fun ")
			x.ref(&s.sb)
			s.sb.WriteString(" () " + sortOf(x.w) + " ")
			x.body(&s.sb)
			s.sb.WriteString(")\n")
		}
		s.emit(s.sb.String())
		x.defd = 1
		s.ndefs++
		lv.defs = append(lv.defs, x)
	}
}

func (s *Solver) pop() {
	l := s.stack[len(s.stack)-1]
	for _, e := range l.defs {
		e.defd = -1
	}
	s.stack = s.stack[:len(s.stack)-1]
	s.emit("(pop 1)\n")
}

func (s *Solver) assertTop(e *Expr) {
	lv := &s.stack[len(s.stack)-1]
	s.define(e, lv)
	s.sb.Reset()
	s.sb.WriteString("(assert ")
	e.ref(&s.sb)
	s.sb.WriteString(")\n")
	s.emit(s.sb.String())
}

func (s *Solver) sync(pc *PC) {
	var chain []*PC
	for p := pc; p != nil; p = p.parent {
		chain = append(chain, p)
	}
	n := len(chain)
	k := 0
	for k < len(s.stack) && k < n && s.stack[k].pc == chain[n-1-k] {
		k++
	}
	for len(s.stack) > k {
		s.pop()
	}
	for ; k < n; k++ {
		p := chain[n-1-k]
		s.emit("(push 1)\n")
		s.stack = append(s.stack, level{pc: p})
		s.assertTop(p.e)
	}
}

func (p *PC) hasFP() bool {
	for ; p != nil; p = p.parent {
		if p.e.fp {
			return true
		}
	}
	return false
}

// lit defines a Boolean constant equivalent to e at the base level.
func (s *Solver) lit(e *Expr) string {
	if e.op == OConst || e.op == OVar {
		s.define(e, &s.base)
		s.sb.Reset()
		e.ref(&s.sb)
		return s.sb.String()
	}
	if e.op == ONot {
		return "(not " + s.lit(e.a) + ")"
	}
	n := "b" + strconv.FormatUint(uint64(e.id), 10)
	if !s.lits[e.id] {
		s.define(e, &s.base)
		s.lits[e.id] = true
		s.sb.Reset()
		s.sb.WriteString("(declare-const " + n + " Bool)\n(assert (= " + n + " ")
		e.ref(&s.sb)
		s.sb.WriteString("))\n")
		s.emit(s.sb.String())
	}
	return n
}

func (s *Solver) ask(pc *PC, extra *Expr) (r Res, m *Model, err error) {
	if s.stackMode {
		s.sync(pc)
		s.emit("(push 1)\n")
		s.stack = append(s.stack, level{})
		s.assertTop(extra)
		s.emit("(check-sat)\n")
		r, err = s.readRes()
		if err == nil && r == Sat {
			m, err = s.readModel()
		}
		if err == nil {
			s.pop()
		}
		return
	}
	var ls []string
	for p := pc; p != nil; p = p.parent {
		ls = append(ls, s.lit(p.e))
	}
	ls = append(ls, s.lit(extra))
	s.emit("(check-sat-assuming (" + strings.Join(ls, " ") + "))\n")
	r, err = s.readRes()
	if err == nil && r == Sat {
		m, err = s.readModel()
	}
	return
}

var restartMin, restartSlow = envInt("VRMIN", 30), envInt("VRSLOW", 3)

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

// Check decides pc /\ extra; with Sat it returns a model.
func (s *Solver) Check(pc *PC, extra *Expr) (Res, *Model) {
	if extra.isConst() && extra.c == 0 {
		return Unsat, nil
	}
	t0 := time.Now()
	if s.cmd != nil && (s.sinceNew > 3000 || s.ndefs > 60000 || (s.sinceNew > restartMin && s.slow > restartSlow)) {
		s.stop()
	}
	if s.logic != "" && (extra.fp || pc.hasFP()) {
		s.Close()
		s.logic = ""
	}
	var r Res
	var m *Model
	if s.skip > 0 {
		s.skip--
		r, m = s.oneShots(pc, extra)
	} else {
		if s.cmd == nil {
			s.start()
		}
		s.sinceNew++
		var err error
		r, m, err = s.ask(pc, extra)
		if err != nil {
			if os.Getenv("VDEBUG") != "" {
				fmt.Println("solver error:", err)
			}
			s.stop()
			r = Unknown
		}
		if r == Unknown {
			if s.giveUp += 4; s.giveUp >= 12 {
				s.giveUp, s.skip = 8, 40
			}
			r, m = s.oneShots(pc, extra)
		} else if s.giveUp > 0 {
			s.giveUp--
		}
	}
	if r == Unknown {
		if dq := os.Getenv("VSLOW"); dq != "" {
			txt, _ := s.script(pc, extra)
			os.WriteFile(fmt.Sprintf("%s/u%d.smt2", dq, s.stats.Queries), []byte(txt+"(check-sat)\n"), 0644)
		}
		r, m = s.fallback(pc, extra)
	}
	d := time.Since(t0)
	if d > 60*time.Millisecond {
		s.slow++
	}
	if dq := os.Getenv("VSLOW"); dq != "" && d > 500*time.Millisecond {
		txt, _ := s.script(pc, extra)
		os.WriteFile(fmt.Sprintf("%s/q%d_%dms_%d.smt2", dq, s.stats.Queries, d.Milliseconds(), r), []byte(txt+"(check-sat)\n"), 0644)
	}
	s.stats.Time += d
	if d > s.stats.MaxQuery {
		s.stats.MaxQuery = d
	}
	s.stats.Queries++
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return r, m
}

func (s *Solver) readLine() (string, error) {
	type rr struct {
		s string
		e error
	}
	s.in.Flush()
	ch := make(chan rr, 1)
	out := s.out
	go func() {
		l, e := out.ReadString('\n')
		ch <- rr{l, e}
	}()
	select {
	case r := <-ch:
		return strings.TrimSpace(r.s), r.e
	case <-time.After(time.Duration(s.timeoutMs)*time.Millisecond + 10*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("solver stuck")
	}
}

func (s *Solver) readRes() (Res, error) {
	l, err := s.readLine()
	if err != nil {
		return Unknown, err
	}
	switch l {
	case "sat":
		return Sat, nil
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		return Unknown, nil
	}
	return Unknown, fmt.Errorf("solver said %q", l)
}

func (s *Solver) readModel() (*Model, error) {
	var vs []*Expr
	for _, v := range s.ctx.varLst {
		if v.defd >= 0 {
			vs = append(vs, v)
		}
	}
	return s.readModelOf(vs)
}

func (s *Solver) readModelOf(vs []*Expr) (*Model, error) {
	vals := map[string]uint64{}
	s.sb.Reset()
	s.sb.WriteString("(get-value (")
	for _, v := range vs {
		v.ref(&s.sb)
		s.sb.WriteString(" ")
	}
	if len(vs) == 0 {
		return NewModel(vals), nil
	}
	s.sb.WriteString("))\n")
	s.emit(s.sb.String())
	depth := 0
	var text strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil, err
		}
		if strings.HasPrefix(l, "(error") {
			return nil, fmt.Errorf("solver: %s", l)
		}
		text.WriteString(l)
		text.WriteString(" ")
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 && text.Len() > 1 {
			break
		}
	}
	fs := strings.FieldsFunc(text.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	if len(fs) != 2*len(vs) {
		return nil, fmt.Errorf("model parse: %d fields for %d variables", len(fs), len(vs))
	}
	for i, v := range vs {
		t := fs[2*i+1]
		var x uint64
		var err error
		switch {
		case t == "true":
			x = 1
		case t == "false":
			x = 0
		case strings.HasPrefix(t, "#x"):
			x, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			x, err = strconv.ParseUint(t[2:], 2, 64)
		default:
			err = fmt.Errorf("value %q", t)
		}
		if err != nil {
			return nil, err
		}
		vals[v.name] = x
	}
	return NewModel(vals), nil
}

// script renders pc /\ extra as a stand-alone SMT-LIB problem.
func (s *Solver) script(pc *PC, extra *Expr) (string, []*Expr) {
	var sb strings.Builder
	seen := map[*Expr]bool{}
	var vs []*Expr
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || e.op == OConst || seen[e] {
			return
		}
		seen[e] = true
		rec(e.a)
		rec(e.b)
		rec(e.d)
		if e.op == OVar {
			vs = append(vs, e)
			sb.WriteString("(declare-const ")
			e.ref(&sb)
			sb.WriteString(" " + sortOf(e.w) + ")\n")
			e.bound(&sb)
			return
		}
		sb.WriteString("(define-fun ")
		e.ref(&sb)
		sb.WriteString(" () " + sortOf(e.w) + " ")
		e.body(&sb)
		sb.WriteString(")\n")
	}
	add := func(e *Expr) {
		rec(e)
		sb.WriteString("(assert ")
		e.ref(&sb)
		sb.WriteString(")\n")
	}
	for p := pc; p != nil; p = p.parent {
		add(p.e)
	}
	add(extra)
	return sb.String(), vs
}

// oneShot decides the query as a fresh problem in a second solver process: the
// preprocessing that the incremental mode does without often decides it at once.
func (s *Solver) oneShot(pc *PC, extra *Expr, ms int) (Res, *Model) {
	s.stats.OneShot++
	if s.shot == nil {
		s.shot = &Solver{ctx: s.ctx, bin: s.bin, timeoutMs: s.timeoutMs, lits: map[uint32]bool{}}
	}
	o := s.shot
	if o.sinceNew > 500 {
		o.stop()
	}
	if o.cmd == nil {
		o.start()
	}
	o.sinceNew++
	txt, vs := s.script(pc, extra)
	o.emit(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", ms))
	if !extra.fp && !pc.hasFP() {
		o.emit("(set-logic QF_BV)\n")
	}
	o.emit(txt)
	o.emit("(check-sat)\n")
	r, err := o.readRes()
	var m *Model
	if err == nil && r == Sat {
		m, err = o.readModelOf(vs)
	}
	if err != nil {
		if os.Getenv("VDEBUG") != "" {
			fmt.Println("solver error (one shot):", err)
		}
		o.stop()
		return Unknown, nil
	}
	return r, m
}

// oneShots tries a fresh context; when the negation of a conjunction does not fall
// at once its conjuncts are decided one after another, each assuming those before it.
func (s *Solver) oneShots(pc *PC, extra *Expr) (Res, *Model) {
	if extra.op != ONot || extra.a.op != OAnd {
		return s.oneShot(pc, extra, s.timeoutMs)
	}
	var l []*Expr
	seen := map[*Expr]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if seen[e] {
			return
		}
		seen[e] = true
		if e.op == OAnd {
			rec(e.a)
			rec(e.b)
			return
		}
		l = append(l, e)
	}
	rec(extra.a)
	ms := s.timeoutMs
	if len(l) <= 64 {
		ms = min(ms, 5000)
	}
	r, m := s.oneShot(pc, extra, ms)
	if r != Unknown || len(l) > 64 {
		return r, m
	}
	for _, e := range l {
		if r, m := s.Check(pc, s.ctx.Not(e)); r != Unsat {
			return r, m
		}
		pc = pc.add(e)
	}
	return Unsat, nil
}

// fallback runs one stand-alone query with a longer limit on other back ends.
func (s *Solver) fallback(pc *PC, extra *Expr) (Res, *Model) {
	s.stats.Fallback++
	txt, vs := s.script(pc, extra)
	var names strings.Builder
	for _, v := range vs {
		v.ref(&names)
		names.WriteString(" ")
	}
	for _, bin := range [][]string{{"z3-new", "-in"}, {"cvc5", "--produce-models", "--lang=smt2", "-"}} {
		lim := 3 * s.timeoutMs
		var pre string
		if bin[0] == "cvc5" {
			bin = append([]string{bin[0], fmt.Sprintf("--tlimit=%d", lim)}, bin[1:]...)
			pre = "(set-logic ALL)\n"
		} else {
			pre = fmt.Sprintf("(set-option :timeout %d)\n", lim)
		}
		cmd := exec.Command(bin[0], bin[1:]...)
		q := pre + txt + "(check-sat)\n"
		if len(vs) > 0 {
			q += "(get-value (" + names.String() + "))\n"
		}
		cmd.Stdin = strings.NewReader(q)
		timer := time.AfterFunc(time.Duration(lim+10000)*time.Millisecond, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		o, _ := cmd.Output()
		timer.Stop()
		txtOut := string(o)
		if strings.HasPrefix(txtOut, "unsat") {
			return Unsat, nil
		}
		if strings.HasPrefix(txtOut, "sat") {
			if strings.Contains(txtOut, "(error") {
				continue
			}
			fs := strings.FieldsFunc(txtOut[3:], func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			vals := map[string]uint64{}
			ok := len(fs) == 2*len(vs)
			for i := 0; ok && i < len(vs); i++ {
				t := fs[2*i+1]
				var x uint64
				var err error
				switch {
				case t == "true":
					x = 1
				case t == "false":
				case strings.HasPrefix(t, "#x"):
					x, err = strconv.ParseUint(t[2:], 16, 64)
				case strings.HasPrefix(t, "#b"):
					x, err = strconv.ParseUint(t[2:], 2, 64)
				default:
					ok = false
				}
				if err != nil {
					ok = false
				}
				vals[vs[i].name] = x
			}
			if ok {
				return Sat, NewModel(vals)
			}
		}
	}
	return Unknown, nil
}
