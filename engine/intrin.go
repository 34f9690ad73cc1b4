package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, st *State, fn *ssa.Function, args []Value) Value

const vpPkg = "github.com/patrickhuang888/goorc/verifvp"

func concStr(v Value) string {
	s := v.(*Str)
	if s.b != nil {
		panic(unsupported("symbolic name"))
	}
	return s.s
}

func nondet(w uint8) intrinsic {
	return func(m *M, st *State, fn *ssa.Function, args []Value) Value {
		return m.ctx.Var(concStr(args[0]), w)
	}
}

func (m *M) assume(st *State, c *Expr) {
	if c.isConst() {
		if c.c == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	ok, mo := m.feasible(st, c)
	if !ok {
		panic(pathEnd{"assume"})
	}
	st.model = mo
	st.pc = st.pc.add(c)
}

func (m *M) assert(st *State, c *Expr, msg string) {
	m.asserts++
	if c.isConst() {
		if c.c == 0 {
			m.report(st, st.model, msg, "assert")
			panic(pathEnd{"assert"})
		}
		return
	}
	bad, mo := m.feasible(st, m.ctx.Not(c))
	if bad {
		m.report(st, mo, msg, "assert")
		// continue on the side where it holds
		m.assume(st, c)
		return
	}
	m.discharged++
	if st.model.Eval(c) == 0 {
		panic("internal: witness model falsifies a valid assertion")
	}
}

func pure(f func(m *M, a []*Expr) *Expr) intrinsic {
	return func(m *M, st *State, fn *ssa.Function, args []Value) Value {
		es := make([]*Expr, len(args))
		for i, a := range args {
			es[i] = a.(*Expr)
		}
		return f(m, es)
	}
}

// float function of one argument evaluated on constants (or constant-leaved ite trees).
func ffun(f func(float64) float64) intrinsic {
	return func(m *M, st *State, fn *ssa.Function, args []Value) Value {
		e := args[0].(*Expr)
		if iteLeaves(e, iteCap) <= iteCap {
			return m.ctx.mapIte(e, func(x *Expr) *Expr {
				return m.ctx.K(math.Float64bits(f(math.Float64frombits(x.c))), 64)
			})
		}
		v := m.concrete(st, e)
		return m.ctx.K(math.Float64bits(f(math.Float64frombits(v))), 64)
	}
}

func ident(m *M, st *State, fn *ssa.Function, args []Value) Value { return args[0] }
func nop(m *M, st *State, fn *ssa.Function, args []Value) Value   { return m.zeroResult(fn) }
func opaqueStr(m *M, st *State, fn *ssa.Function, args []Value) Value {
	return &Str{s: "fmt"}
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		vpPkg + ".U64": nondet(64), vpPkg + ".U32": nondet(32), vpPkg + ".U16": nondet(16), vpPkg + ".U8": nondet(8),
		vpPkg + ".I64": nondet(64), vpPkg + ".I32": nondet(32), vpPkg + ".I16": nondet(16), vpPkg + ".I8": nondet(8),
		vpPkg + ".Bool": nondet(0),
		vpPkg + ".Range": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			lo, hi := args[1].(*Expr), args[2].(*Expr)
			name := concStr(args[0])
			if lo.isConst() && hi.isConst() && sx(lo.c, 64) >= 0 && lo.c <= hi.c {
				// a narrow variable keeps the range visible to the simplifier
				w := uint8(1)
				for mask(w) < hi.c-lo.c {
					w++
				}
				v, ok := m.ctx.VarMax(name, w, hi.c-lo.c)
				if !ok {
					m.assume(st, m.ctx.Ule(v, m.ctx.K(hi.c-lo.c, w)))
				}
				return m.ctx.Add(m.ctx.Zext(v, 64), lo)
			}
			v := m.ctx.Var(name, 64)
			m.assume(st, m.ctx.And(m.ctx.Sle(lo, v), m.ctx.Sle(v, hi)))
			return v
		},
		vpPkg + ".Conc": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.ctx.K(m.concrete(st, args[0].(*Expr)), 64)
		},
		vpPkg + ".N": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return &Str{s: concStr(args[0]) + "." + strconv.Itoa(int(sx(m.concrete(st, args[1].(*Expr)), 64)))}
		},
		vpPkg + ".Param": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			if v, ok := m.params[concStr(args[0])]; ok {
				return m.ctx.K(uint64(v), 64)
			}
			return args[1]
		},
		vpPkg + ".Assume": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			m.assume(st, args[0].(*Expr))
			return Tuple{}
		},
		vpPkg + ".Assert": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			m.assert(st, args[0].(*Expr), concStr(args[1]))
			return Tuple{}
		},
		vpPkg + ".Reach": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			if k := concStr(args[0]); m.reached[k] == nil {
				m.reached[k] = st.model
			}
			return Tuple{}
		},
		vpPkg + ".Out": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			st.outs = append(st.outs, outRec{concStr(args[0]), args[1].(*Expr)})
			return Tuple{}
		},
		vpPkg + ".Symbolic": func(m *M, st *State, fn *ssa.Function, args []Value) Value { return m.ctx.True },
		vpPkg + ".And":      pure(func(m *M, a []*Expr) *Expr { return m.ctx.And(a[0], a[1]) }),
		vpPkg + ".Or":       pure(func(m *M, a []*Expr) *Expr { return m.ctx.Or(a[0], a[1]) }),
		vpPkg + ".Ite64":    pure(func(m *M, a []*Expr) *Expr { return m.ctx.Ite(a[0], a[1], a[2]) }),
		vpPkg + ".Clone": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.deepClone(st, args[0], map[uint32]uint32{})
		},
		vpPkg + ".CopyInto": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			d, s := args[0].(Iface), args[1].(Iface)
			if d.t == nil || s.t == nil || !types.Identical(d.t, s.t) {
				return m.ctx.False
			}
			s = m.deepClone(st, s, map[uint32]uint32{}).(Iface)
			dp, sp := d.v.(Ptr), s.v.(Ptr)
			t := d.t.Underlying().(*types.Pointer).Elem()
			m.store(st, dp, m.load(st, sp, t), t)
			return m.ctx.True
		},
		vpPkg + ".TypeOf": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			i := args[0].(Iface)
			if i.t == nil {
				return &Str{s: "nil"}
			}
			return &Str{s: i.t.String()}
		},

		"math.Float64bits": ident, "math.Float64frombits": ident, "math.Float32bits": ident, "math.Float32frombits": ident,
		"math.Ceil": ffun(math.Ceil), "math.Floor": ffun(math.Floor), "math.Trunc": ffun(math.Trunc), "math.Sqrt": ffun(math.Sqrt), "math.Log2": ffun(math.Log2),
		"math.Round": ffun(math.Round),
		"math.IsNaN": pure(func(m *M, a []*Expr) *Expr { return m.ctx.Not(m.ctx.FCmp(OFEq, a[0], a[0])) }),
		"math.Abs":   pure(func(m *M, a []*Expr) *Expr { return m.ctx.BAnd(a[0], m.ctx.K(1<<63-1, 64)) }),

		"fmt.Sprint": opaqueStr, "fmt.Sprintln": opaqueStr,
		"github.com/pkg/errors.callers": nop,
		"runtime.Callers":               nop, "runtime.KeepAlive": nop, "runtime.GC": nop,
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"internal/abi.NoEscape": ident, "internal/abi.Escape": ident,
		"internal/godebug.New": nop, "internal/reflectlite.TypeOf": nop,
		"(*strings.Builder).String": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			p := args[0].(Ptr)
			s := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "buf" {
					return m.bytesToStr(st, m.load(st, Ptr{p.id, p.off + int32(m.lay.Off(s, i))}, s.Field(i).Type()).(SliceV))
				}
			}
			panic(unsupported("strings.Builder layout"))
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.IndexByte": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.indexByte(m.bytesToStr(st, args[0].(SliceV)), args[1].(*Expr))
		},
		"internal/bytealg.IndexByteString": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.indexByte(args[0].(*Str), args[1].(*Expr))
		},
		"internal/bytealg.Compare": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.cmp3(m.bytesToStr(st, args[0].(SliceV)), m.bytesToStr(st, args[1].(SliceV)))
		},
		"bytes.Compare": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.cmp3(m.bytesToStr(st, args[0].(SliceV)), m.bytesToStr(st, args[1].(SliceV)))
		},
		"bytes.Equal": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.strEq(m.bytesToStr(st, args[0].(SliceV)), m.bytesToStr(st, args[1].(SliceV)))
		},
		"strings.Compare": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			return m.cmp3(args[0].(*Str), args[1].(*Str))
		},
		"internal/bytealg.MakeNoZero": func(m *M, st *State, fn *ssa.Function, args []Value) Value {
			n := int(m.concrete(st, args[0].(*Expr)))
			id := m.alloc(st, []Value{m.ctx.K(0, 8)}, roundup(n, true))
			return SliceV{id, 0, n, roundup(n, true)}
		},
		"time.now": nop, "time.runtimeNano": nop, "time.runtimeNow": nop,
		"strings.Clone": ident,
	}
}

func (m *M) indexByte(s *Str, b *Expr) *Expr {
	c := m.ctx
	r := c.K(^uint64(0), 64)
	for i := s.len() - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(c.strAt(s, i), b), c.K(uint64(i), 64), r)
	}
	return r
}

func (m *M) cmp3(a, b *Str) *Expr {
	c := m.ctx
	return c.Ite(m.strEq(a, b), c.K(0, 64), c.Ite(m.strLess(a, b, false), c.K(^uint64(0), 64), c.K(1, 64)))
}

// deepClone copies everything reachable from v.
func (m *M) deepClone(st *State, v Value, seen map[uint32]uint32) Value {
	obj := func(id uint32) uint32 {
		if id == 0 {
			return 0
		}
		if n, ok := seen[id]; ok {
			return n
		}
		src := st.heap.get(id)
		n := m.nextID
		m.nextID++
		seen[id] = n
		c := src.clone(st.own)
		for k, p := range c.pages { // pages may be owned by st
			if p != nil {
				c.pages[k] = &page{own: st.own, c: append([]Value(nil), p.c...)}
			}
		}
		st.heap.set(st.own, n, c)
		if c.isMap {
			for i := range c.keys {
				c.keys[i] = m.deepClone(st, src.keys[i], seen)
				nv := make([]Value, len(src.vals[i]))
				for j := range nv {
					nv[j] = m.deepClone(st, src.vals[i][j], seen)
				}
				c.vals[i] = nv
			}
			return n
		}
		for i := 0; i < c.n; i++ {
			if c.pages[i/pageSize] == nil {
				continue
			}
			w := c.load(i)
			switch w.(type) {
			case Ptr, SliceV, Iface, MapV, *Agg:
				m.setCell(st, c, i, m.deepClone(st, w, seen))
			}
		}
		return n
	}
	switch x := v.(type) {
	case Ptr:
		return Ptr{obj(x.id), x.off}
	case SliceV:
		return SliceV{obj(x.id), x.off, x.len, x.cap}
	case MapV:
		return MapV{obj(x.id)}
	case Iface:
		if x.t == nil {
			return x
		}
		return Iface{x.t, m.deepClone(st, x.v, seen)}
	case *Agg:
		r := &Agg{make([]Value, len(x.c))}
		for i := range x.c {
			r.c[i] = m.deepClone(st, x.c[i], seen)
		}
		return r
	}
	return v
}

var _ = fmt.Sprint
