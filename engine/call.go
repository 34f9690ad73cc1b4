package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (m *M) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := lkey{t, name, pkg}
	if f, ok := m.lookup[k]; ok {
		return f
	}
	f := m.prog.LookupMethod(t, pkg, name)
	m.lookup[k] = f
	return f
}

func (m *M) call(st *State, f *Frame, x *ssa.Call) {
	c := &x.Call
	ret := f.fi.idx[x]
	if c.IsInvoke() {
		v := m.get(st, f, c.Value).(Iface)
		if v.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.method(v.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsupported("no method " + c.Method.Name() + " on " + v.t.String()))
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, v.v)
		for _, a := range c.Args {
			args = append(args, m.get(st, f, a))
		}
		m.pushCall(st, &FuncV{fn: fn}, args, ret, false, false)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r := m.builtin(st, f, b, c)
		f = m.wtop(st)
		f.regs[ret] = r
		f.pc++
		return
	}
	fv, _ := m.get(st, f, c.Value).(*FuncV)
	if fv == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = m.get(st, f, a)
	}
	m.pushCall(st, fv, args, ret, false, false)
}

func (m *M) mkDefer(st *State, f *Frame, x *ssa.Defer) deferred {
	c := &x.Call
	if c.IsInvoke() {
		v := m.get(st, f, c.Value).(Iface)
		if v.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.method(v.t, c.Method.Pkg(), c.Method.Name())
		args := []Value{v.v}
		for _, a := range c.Args {
			args = append(args, m.get(st, f, a))
		}
		return deferred{fn: &FuncV{fn: fn}, args: args}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() != "print" && b.Name() != "println" {
			panic(unsupported("deferred builtin " + b.Name()))
		}
		return deferred{bi: b}
	}
	fv, _ := m.get(st, f, c.Value).(*FuncV)
	if fv == nil {
		m.rtPanic("nil func in defer")
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, m.get(st, f, a))
	}
	return deferred{fn: fv, args: args}
}

// pushCall enters fv, or runs it as an intrinsic (and then returns true).
func (m *M) pushCall(st *State, fv *FuncV, args []Value, ret int, isDefer, unwind bool) bool {
	fn := fv.fn
	if fv.bi != nil {
		panic(unsupported("builtin as a value"))
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if g, ok := m.over[name]; ok && g != fn {
		fn = g
		name = fn.String()
		fv = &FuncV{fn: g}
	} else if h, ok := intrinsics[name]; ok {
		r := h(m, st, fn, args)
		if !isDefer {
			f := m.wtop(st)
			if ret >= 0 {
				f.regs[ret] = r
			}
			f.pc++
		}
		return true
	}
	if isStub(name, fn) {
		r := m.zeroResult(fn)
		if !isDefer {
			f := m.wtop(st)
			if ret >= 0 {
				f.regs[ret] = r
			}
			f.pc++
		}
		return true
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			panic(unsupported("no body for " + name))
		}
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && m.skipInit(fn.Pkg.Pkg.Path()) {
		f := m.wtop(st)
		f.pc++
		return true
	}
	if len(st.frames) > 400 {
		panic(unsupported("call depth"))
	}
	fi := m.info(fn)
	m.funcs[fn]++
	nf := &Frame{own: st.own, fi: fi, fn: fn, regs: make([]Value, fi.n), block: fn.Blocks[0], ret: ret, isDefer: isDefer, unwind: unwind}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("internal: call %s with %d args for %d params", name, len(args), len(fn.Params)))
	}
	for i := range args {
		nf.regs[i] = args[i]
	}
	for i := range fv.bind {
		nf.regs[len(args)+i] = fv.bind[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], nf)
	return false
}

func (m *M) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return m.lay.ZeroVal(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = m.lay.ZeroVal(res.At(i).Type())
	}
	return t
}

// isStub names functions with an empty body: logging and formatting to a sink.
func isStub(name string, fn *ssa.Function) bool {
	if strings.Contains(name, "github.com/sirupsen/logrus") {
		return true
	}
	if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "log.") {
		return true
	}
	return false
}

func (m *M) builtin(st *State, f *Frame, b *ssa.Builtin, c *ssa.CallCommon) Value {
	ctx := m.ctx
	arg := func(i int) Value { return m.get(st, f, c.Args[i]) }
	switch b.Name() {
	case "len", "cap":
		switch v := arg(0).(type) {
		case *Str:
			return ctx.K(uint64(v.len()), 64)
		case SliceV:
			if b.Name() == "cap" {
				return ctx.K(uint64(v.cap), 64)
			}
			return ctx.K(uint64(v.len), 64)
		case MapV:
			if v.id == 0 {
				return ctx.K(0, 64)
			}
			return ctx.K(uint64(len(st.heap.get(v.id).keys)), 64)
		case *Agg:
			return ctx.K(uint64(c.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		case Ptr:
			return ctx.K(uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "append":
		s := arg(0).(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch v := arg(1).(type) {
		case SliceV:
			if v.len == 0 {
				return s
			}
			src := st.heap.get(v.id)
			return m.appendSlice(st, s, et, v.len, func(i int) Value { return src.load(v.off + i) })
		case *Str:
			return m.appendSlice(st, s, et, v.len(), func(i int) Value { return ctx.strAt(v, i) })
		}
	case "copy":
		d := arg(0).(SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		sz := m.lay.Size(et)
		var n int
		var vals []Value
		switch v := arg(1).(type) {
		case SliceV:
			n = min(d.len, v.len)
			if n > 0 {
				src := st.heap.get(v.id)
				vals = make([]Value, n*sz)
				for i := range vals {
					vals[i] = src.load(v.off + i)
				}
			}
		case *Str:
			n = min(d.len, v.len())
			vals = make([]Value, n)
			for i := range vals {
				vals[i] = ctx.strAt(v, i)
			}
		}
		if n > 0 {
			o := m.wobj(st, d.id)
			for i, v := range vals {
				m.setCell(st, o, d.off+i, v)
			}
		}
		return ctx.K(uint64(n), 64)
	case "delete":
		mv := arg(0).(MapV)
		if mv.id == 0 {
			return Tuple{}
		}
		o := st.heap.get(mv.id)
		i := m.mapFind(st, o, arg(1), c.Args[0].Type().Underlying().(*types.Map).Key())
		if i >= 0 {
			o = m.wobj(st, mv.id)
			o.keys = append(append([]Value(nil), o.keys[:i]...), o.keys[i+1:]...)
			o.vals = append(append([][]Value(nil), o.vals[:i]...), o.vals[i+1:]...)
		}
		return Tuple{}
	case "clear":
		switch v := arg(0).(type) {
		case MapV:
			if v.id != 0 {
				o := m.wobj(st, v.id)
				o.keys, o.vals = nil, nil
			}
		case SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := m.lay.Zero(et)
			if v.len > 0 {
				o := m.wobj(st, v.id)
				for i := 0; i < v.len*len(z); i++ {
					m.setCell(st, o, v.off+i, z[i%len(z)])
				}
			}
		}
		return Tuple{}
	case "print", "println":
		return Tuple{}
	case "recover":
		// valid only when called directly by a function deferred during unwinding
		if st.panic != nil && !st.panic.recovered && f.unwind {
			v := st.panic.v
			p := *st.panic
			p.recovered = true
			st.panic = &p
			return v
		}
		return Iface{}
	case "min", "max":
		t := c.Args[0].Type()
		r := arg(0)
		for i := 1; i < len(c.Args); i++ {
			y := arg(i)
			if isString(t) || isFloat(t) {
				panic(unsupported("min/max of non-integers"))
			}
			a, bb := r.(*Expr), y.(*Expr)
			var lt *Expr
			if isSigned(t) {
				lt = ctx.Slt(bb, a)
			} else {
				lt = ctx.Ult(bb, a)
			}
			if b.Name() == "max" {
				if isSigned(t) {
					lt = ctx.Slt(a, bb)
				} else {
					lt = ctx.Ult(a, bb)
				}
			}
			r = ctx.Ite(lt, bb, a)
		}
		return r
	case "ssa:wrapnilchk":
		p := arg(0)
		if q, ok := p.(Ptr); ok && q.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	panic(unsupported("builtin " + b.Name()))
}
