package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func (m *M) exec1(st *State) {
	f := m.wtop(st)
	if f.pc >= len(f.block.Instrs) {
		panic(fmt.Sprintf("internal: ran off block %s in %s", f.block, f.fn))
	}
	in := f.block.Instrs[f.pc]
	c := m.ctx
	set := func(v ssa.Value, x Value) {
		f.regs[f.fi.idx[v]] = x
		f.pc++
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		set(x, Ptr{m.allocType(st, t), 0})
	case *ssa.BinOp:
		set(x, m.binop(st, x.Op, x.X.Type(), x.Y.Type(), m.get(st, f, x.X), m.get(st, f, x.Y)))
	case *ssa.UnOp:
		set(x, m.unop(st, f, x))
	case *ssa.Phi:
		panic("internal: phi")
	case *ssa.Jump:
		m.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		cond := m.get(st, f, x.Cond).(*Expr)
		if m.decide(st, cond) {
			m.jump(st, f, f.block.Succs[0])
		} else {
			m.jump(st, f, f.block.Succs[1])
		}
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = Tuple{}
		case 1:
			r = m.get(st, f, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, v := range x.Results {
				t[i] = m.get(st, f, v)
			}
			r = t
		}
		m.doReturn(st, f, r)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.bi != nil {
				return
			}
			m.pushCall(st, d.fn, d.args, -1, true, false)
			return
		}
		f.pc++
	case *ssa.Panic:
		v := m.get(st, f, x.X).(Iface)
		panic(goPanic{v: v, msg: m.showPanic(st, v)})
	case *ssa.Store:
		m.store(st, m.get(st, f, x.Addr), m.get(st, f, x.Val), x.Val.Type())
		f.pc++
	case *ssa.Call:
		m.call(st, f, x)
	case *ssa.Defer:
		d := m.mkDefer(st, f, x)
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var src ssa.Value
		if y, ok := x.(*ssa.ChangeType); ok {
			src = y.X
		} else {
			src = x.(*ssa.ChangeInterface).X
		}
		set(x.(ssa.Value), m.get(st, f, src))
	case *ssa.Convert:
		set(x, m.convert(st, x.X.Type(), x.Type(), m.get(st, f, x.X)))
	case *ssa.MultiConvert:
		set(x, m.convert(st, x.X.Type(), x.Type(), m.get(st, f, x.X)))
	case *ssa.MakeInterface:
		set(x, Iface{x.X.Type(), m.get(st, f, x.X)})
	case *ssa.Extract:
		set(x, m.get(st, f, x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		set(x, m.slice(st, f, x))
	case *ssa.FieldAddr:
		p := m.get(st, f, x.X)
		pt, ok := p.(Ptr)
		if !ok {
			if _, sy := p.(*SymPtr); sy {
				p = m.concPtr(st, p)
				pt = p.(Ptr)
			} else {
				panic(fmt.Sprintf("internal: FieldAddr of %T", p))
			}
		}
		if pt.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(x, Ptr{pt.id, pt.off + int32(m.lay.Off(s, x.Field))})
	case *ssa.Field:
		a := m.get(st, f, x.X).(*Agg)
		s := x.X.Type().Underlying().(*types.Struct)
		o := m.lay.Off(s, x.Field)
		ft := s.Field(x.Field).Type()
		if isAgg(ft) {
			set(x, &Agg{a.c[o : o+m.lay.Size(ft)]})
		} else {
			set(x, a.c[o])
		}
	case *ssa.IndexAddr:
		set(x, m.indexAddr(st, f, x))
	case *ssa.Index:
		set(x, m.index(st, f, x))
	case *ssa.Lookup:
		set(x, m.mapLookup(st, f, x))
	case *ssa.MakeMap:
		id := m.nextID
		m.nextID++
		st.heap.set(st.own, id, &Obj{own: st.own, isMap: true})
		set(x, MapV{id})
	case *ssa.MapUpdate:
		mv := m.get(st, f, x.Map).(MapV)
		if mv.id == 0 {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapUpdate(st, mv, x.Map.Type(), m.get(st, f, x.Key), m.get(st, f, x.Value))
		f.pc++
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l := m.lenArg(st, m.get(st, f, x.Len), x.Len.Type(), "makeslice: len out of range")
		cp := m.lenArg(st, m.get(st, f, x.Cap), x.Cap.Type(), "makeslice: cap out of range")
		if cp < l {
			m.rtPanic("makeslice: cap out of range")
		}
		id := m.alloc(st, m.lay.Zero(et), cp)
		set(x, SliceV{id, 0, l, cp})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, m.get(st, f, v))
		}
		set(x, &FuncV{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.TypeAssert:
		set(x, m.typeAssert(st, x, m.get(st, f, x.X).(Iface)))
	case *ssa.Range:
		pos := m.alloc(st, []Value{c.K(0, 64)}, 1)
		it := &IterV{pos: pos}
		switch v := m.get(st, f, x.X).(type) {
		case *Str:
			it.str = v
		case MapV:
			it.m = v.id
			if v.id != 0 {
				it.keys = append([]Value(nil), st.heap.get(v.id).keys...)
			}
		}
		set(x, it)
	case *ssa.Next:
		set(x, m.next(st, f, x))
	case *ssa.SliceToArrayPointer:
		s := m.get(st, f, x.X).(SliceV)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		set(x, Ptr{s.id, int32(s.off)})
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (m *M) showPanic(st *State, v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	if s, ok := v.v.(*Str); ok {
		if s.b == nil {
			return "panic: " + s.s
		}
		return "panic: <symbolic string>"
	}
	return "panic: value of type " + v.t.String()
}

func (m *M) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	f.prev = from
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	// when a block has the same predecessor twice (both arms of an If), phis agree or the builder split them
	n := f.fi.nphi[to.Index]
	if n > 0 {
		tmp := make([]Value, 0, n)
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			tmp = append(tmp, m.get(st, f, ph.Edges[k]))
		}
		for i := 0; i < n; i++ {
			f.regs[f.fi.idx[to.Instrs[i].(*ssa.Phi)]] = tmp[i]
		}
	}
	f.block = to
	f.pc = n
}

func (m *M) doReturn(st *State, f *Frame, r Value) {
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		return
	}
	if f.isDefer {
		if f.unwind {
			if st.panic != nil && st.panic.recovered {
				st.panic = nil
				// the panicking function returns to its caller through its recover block
				g := m.wtop(st)
				if g.fn.Recover != nil {
					g.block = g.fn.Recover
					g.pc = 0
					g.recov = true
					return
				}
				// no named results: return zero values
				res := g.fn.Signature.Results()
				var zv Value
				switch res.Len() {
				case 0:
					zv = Tuple{}
				case 1:
					zv = m.lay.ZeroVal(res.At(0).Type())
				default:
					t := make(Tuple, res.Len())
					for i := range t {
						t[i] = m.lay.ZeroVal(res.At(i).Type())
					}
					zv = t
				}
				m.doReturn(st, g, zv)
				return
			}
			if m.unwindStep(st) != nil {
				panic(pathEnd{"panic"})
			}
		}
		return
	}
	g := m.wtop(st)
	if f.ret >= 0 {
		g.regs[f.ret] = r
	}
	g.pc++
}

// ---- memory

func (m *M) concPtr(st *State, p Value) Value {
	if s, ok := p.(*SymPtr); ok {
		i := m.concrete(st, s.idx)
		return Ptr{s.id, int32(s.base + int(i)*s.stride)}
	}
	return p
}

func (m *M) load(st *State, p Value, t types.Type) Value {
	switch x := p.(type) {
	case Ptr:
		if x.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o := st.heap.get(x.id)
		if o == nil {
			panic(unsupported(fmt.Sprintf("internal: dangling object %d", x.id)))
		}
		if isAgg(t) {
			n := m.lay.Size(t)
			a := &Agg{make([]Value, n)}
			for i := 0; i < n; i++ {
				a.c[i] = o.load(int(x.off) + i)
			}
			return a
		}
		v := o.load(int(x.off))
		if u, ok := v.(unsupported); ok {
			panic(u)
		}
		return v
	case *SymPtr:
		o := st.heap.get(x.id)
		if isAgg(t) || x.n > 4096 {
			return m.load(st, m.concPtr(st, p), t)
		}
		// all cells must be scalars
		lo, hi := int(x.idx.lo), x.n-1
		if x.idx.hi < uint64(hi) {
			hi = int(x.idx.hi)
		}
		if hi-lo > 600 {
			return m.load(st, m.concPtr(st, p), t)
		}
		var r *Expr
		for i := hi; i >= lo; i-- {
			e, ok := o.load(x.base + i*x.stride).(*Expr)
			if !ok {
				return m.load(st, m.concPtr(st, p), t)
			}
			if r == nil {
				r = e
			} else {
				r = m.ctx.Ite(m.ctx.Eq(x.idx, m.ctx.K(uint64(i), x.idx.w)), e, r)
			}
		}
		return r
	}
	panic(fmt.Sprintf("internal: load through %T", p))
}

func (m *M) store(st *State, p Value, v Value, t types.Type) {
	switch x := p.(type) {
	case Ptr:
		if x.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o := m.wobj(st, x.id)
		if a, ok := v.(*Agg); ok {
			for i, cv := range a.c {
				m.setCell(st, o, int(x.off)+i, cv)
			}
			return
		}
		m.setCell(st, o, int(x.off), v)
	case *SymPtr:
		e, ok := v.(*Expr)
		lo, hi := int(x.idx.lo), x.n-1
		if x.idx.hi < uint64(hi) {
			hi = int(x.idx.hi)
		}
		if !ok || hi-lo > 600 {
			m.store(st, m.concPtr(st, p), v, t)
			return
		}
		o := m.wobj(st, x.id)
		for i := lo; i <= hi; i++ {
			k := x.base + i*x.stride
			old := o.load(k).(*Expr)
			m.setCell(st, o, k, m.ctx.Ite(m.ctx.Eq(x.idx, m.ctx.K(uint64(i), x.idx.w)), e, old))
		}
	default:
		panic(fmt.Sprintf("internal: store through %T", p))
	}
}

func (m *M) setCell(st *State, o *Obj, i int, v Value) {
	if i < 0 || i >= o.n {
		panic(fmt.Sprintf("internal: store cell %d of %d", i, o.n))
	}
	o.writablePage(st.own, i/pageSize).c[i%pageSize] = v
}

func (m *M) ext64(v Value, t types.Type) *Expr {
	e := v.(*Expr)
	if e.w == 64 {
		return e
	}
	if isSigned(t) {
		return m.ctx.Sext(e, 64)
	}
	return m.ctx.Zext(e, 64)
}

func (m *M) bounds(st *State, i *Expr, n int, signed bool) {
	// i is 64 bits wide; unsigned comparison covers negative indices
	if !m.decide(st, m.ctx.Ult(i, m.ctx.K(uint64(n), 64))) {
		if i.isConst() {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.c), n))
		}
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *M) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	i := m.ext64(m.get(st, f, x.Index), x.Index.Type())
	var id uint32
	var base, n int
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := m.get(st, f, x.X).(SliceV)
		id, base, n, et = s.id, s.off, s.len, u.Elem()
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := m.concPtr(st, m.get(st, f, x.X)).(Ptr)
		if p.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		id, base, n, et = p.id, int(p.off), int(a.Len()), a.Elem()
	}
	m.bounds(st, i, n, true)
	sz := m.lay.Size(et)
	if v, ok := st.concGet(i.id); ok {
		i = m.ctx.K(v, 64)
	}
	if i.isConst() {
		return Ptr{id, int32(base + int(i.c)*sz)}
	}
	if n == 1 {
		return Ptr{id, int32(base)}
	}
	if sz != 1 {
		i = m.ctx.K(m.concrete(st, i), 64)
		return Ptr{id, int32(base + int(i.c)*sz)}
	}
	return &SymPtr{id: id, base: base, stride: 1, n: n, idx: i}
}

func (m *M) index(st *State, f *Frame, x *ssa.Index) Value {
	i := m.ext64(m.get(st, f, x.Index), x.Index.Type())
	switch v := m.get(st, f, x.X).(type) {
	case *Str:
		m.bounds(st, i, v.len(), true)
		return m.strIndex(st, v, i)
	case *Agg:
		a := x.X.Type().Underlying().(*types.Array)
		m.bounds(st, i, int(a.Len()), true)
		k := int(m.concrete(st, i))
		sz := m.lay.Size(a.Elem())
		if isAgg(a.Elem()) {
			return &Agg{v.c[k*sz : (k+1)*sz]}
		}
		return v.c[k]
	}
	panic("internal: index")
}

func (m *M) strIndex(st *State, v *Str, i *Expr) Value {
	if i.isConst() {
		return m.ctx.strAt(v, int(i.c))
	}
	if v.len() > 600 {
		return m.ctx.strAt(v, int(m.concrete(st, i)))
	}
	r := m.ctx.strAt(v, v.len()-1)
	for k := v.len() - 2; k >= 0; k-- {
		r = m.ctx.Ite(m.ctx.Eq(i, m.ctx.K(uint64(k), 64)), m.ctx.strAt(v, k), r)
	}
	return r
}

func (m *M) lenArg(st *State, v Value, t types.Type, msg string) int {
	e := m.ext64(v, t)
	lim := m.ctx.K(uint64(m.lim.MaxAlloc), 64)
	if !m.decide(st, m.ctx.Ule(e, lim)) {
		// beyond what the engine materialises: a length the runtime refuses is a panic;
		// anything else is an allocation of more than MaxAlloc elements
		if !m.decide(st, m.ctx.Ule(e, m.ctx.K(1<<46, 64))) {
			m.rtPanic(msg)
		}
		m.rtPanic(fmt.Sprintf("oversized allocation (more than %d elements)", m.lim.MaxAlloc))
	}
	return int(m.concrete(st, e))
}

func (m *M) slice(st *State, f *Frame, x *ssa.Slice) Value {
	var lo, hi, mx *Expr
	if x.Low != nil {
		lo = m.ext64(m.get(st, f, x.Low), x.Low.Type())
	}
	if x.High != nil {
		hi = m.ext64(m.get(st, f, x.High), x.High.Type())
	}
	if x.Max != nil {
		mx = m.ext64(m.get(st, f, x.Max), x.Max.Type())
	}
	v := m.get(st, f, x.X)
	c := m.ctx
	chk := func(cond *Expr, msg string) {
		if !m.decide(st, cond) {
			m.rtPanic(msg)
		}
	}
	if s, ok := v.(*Str); ok {
		n := c.K(uint64(s.len()), 64)
		if lo == nil {
			lo = c.K(0, 64)
		}
		if hi == nil {
			hi = n
		}
		chk(c.Ule(hi, n), "slice bounds out of range")
		chk(c.Ule(lo, hi), "slice bounds out of range")
		h, l := m.concrete(st, hi), m.concrete(st, lo)
		if s.b == nil {
			return &Str{s: s.s[l:h]}
		}
		return mkStr(s.b[l:h])
	}
	var id uint32
	var off, ln, cp, sz int
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(SliceV)
		id, off, ln, cp = s.id, s.off, s.len, s.cap
		sz = m.lay.Size(u.Elem())
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := m.concPtr(st, v).(Ptr)
		if p.id == 0 {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		id, off, ln, cp = p.id, int(p.off), int(a.Len()), int(a.Len())
		sz = m.lay.Size(a.Elem())
	default:
		panic(unsupported("slice of " + x.X.Type().String()))
	}
	if lo == nil {
		lo = c.K(0, 64)
	}
	if hi == nil {
		hi = c.K(uint64(ln), 64)
	}
	top := c.K(uint64(cp), 64)
	if mx != nil {
		chk(c.Ule(mx, top), "slice bounds out of range (max)")
		top = mx
	}
	chk(c.Ule(hi, top), "slice bounds out of range (high)")
	chk(c.Ule(lo, hi), "slice bounds out of range (low)")
	l, h, t := int(m.concrete(st, lo)), int(m.concrete(st, hi)), int(m.concrete(st, top))
	if id == 0 {
		return SliceV{}
	}
	return SliceV{id, off + l*sz, h - l, t - l}
}

// ---- maps

func (m *M) mapFind(st *State, o *Obj, k Value, kt types.Type) int {
	for i, x := range o.keys {
		if m.decide(st, m.eq(st, x, k, kt)) {
			return i
		}
	}
	return -1
}

func (m *M) mapLookup(st *State, f *Frame, x *ssa.Lookup) Value {
	v := m.get(st, f, x.X)
	if s, ok := v.(*Str); ok {
		i := m.ext64(m.get(st, f, x.Index), x.Index.Type())
		m.bounds(st, i, s.len(), true)
		return m.strIndex(st, s, i)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	mv := v.(MapV)
	var res Value
	found := false
	if mv.id != 0 {
		o := st.heap.get(mv.id)
		if i := m.mapFind(st, o, m.get(st, f, x.Index), mt.Key()); i >= 0 {
			found = true
			if isAgg(mt.Elem()) {
				res = &Agg{o.vals[i]}
			} else {
				res = o.vals[i][0]
			}
		}
	}
	if !found {
		res = m.lay.ZeroVal(mt.Elem())
	}
	if x.CommaOk {
		return Tuple{res, m.ctx.B(found)}
	}
	return res
}

func cellsOf(v Value) []Value {
	if a, ok := v.(*Agg); ok {
		return a.c
	}
	return []Value{v}
}

func (m *M) mapUpdate(st *State, mv MapV, t types.Type, k, v Value) {
	mt := t.Underlying().(*types.Map)
	o := st.heap.get(mv.id)
	i := m.mapFind(st, o, k, mt.Key())
	o = m.wobj(st, mv.id)
	if i >= 0 {
		o.vals[i] = cellsOf(v)
		return
	}
	o.keys = append(o.keys, k)
	o.vals = append(o.vals, cellsOf(v))
}

func (m *M) next(st *State, f *Frame, x *ssa.Next) Value {
	it := m.get(st, f, x.Iter).(*IterV)
	pos := int(st.heap.get(it.pos).load(0).(*Expr).c)
	c := m.ctx
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		if pos >= it.str.len() {
			return Tuple{c.False, c.K(0, 64), c.K(0, 32)}
		}
		b := c.strAt(it.str, pos)
		if !m.decide(st, c.Ult(b, c.K(0x80, 8))) {
			if it.str.b != nil {
				panic(unsupported("range over a symbolic non-ASCII string"))
			}
			for i, r := range it.str.s[pos:] {
				_ = i
				n := 1
				for pos+n < len(it.str.s) && it.str.s[pos+n]&0xc0 == 0x80 && n < 4 {
					n++
				}
				if r == 0xfffd {
					n = 1
				}
				m.setCell(st, m.wobj(st, it.pos), 0, c.K(uint64(pos+n), 64))
				return Tuple{c.True, c.K(uint64(pos), 64), c.K(uint64(r), 32)}
			}
		}
		m.setCell(st, m.wobj(st, it.pos), 0, c.K(uint64(pos+1), 64))
		return Tuple{c.True, c.K(uint64(pos), 64), c.Zext(b, 32)}
	}
	if pos >= len(it.keys) {
		zero := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return m.lay.ZeroVal(t)
		}
		return Tuple{c.False, zero(tt.At(1).Type()), zero(tt.At(2).Type())}
	}
	k := it.keys[pos]
	m.setCell(st, m.wobj(st, it.pos), 0, c.K(uint64(pos+1), 64))
	o := st.heap.get(it.m)
	for i := range o.keys {
		if same(o.keys[i], k) {
			var v Value
			if len(o.vals[i]) == 1 {
				v = o.vals[i][0]
			}
			if len(o.vals[i]) != 1 {
				v = &Agg{o.vals[i]}
			}
			return Tuple{c.True, k, v}
		}
	}
	return m.next(st, f, x) // deleted during iteration
}

// ---- operators

func (m *M) binop(st *State, op token.Token, t, ty types.Type, a, b Value) Value {
	c := m.ctx
	switch op {
	case token.EQL:
		return m.eq(st, a, b, t)
	case token.NEQ:
		return c.Not(m.eq(st, a, b, t))
	}
	if isString(t) {
		x, y := a.(*Str), b.(*Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return &Str{s: x.s + y.s}
			}
			es := make([]*Expr, 0, x.len()+y.len())
			for i := 0; i < x.len(); i++ {
				es = append(es, c.strAt(x, i))
			}
			for i := 0; i < y.len(); i++ {
				es = append(es, c.strAt(y, i))
			}
			return mkStr(es)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	}
	x, ok1 := a.(*Expr)
	y, ok2 := b.(*Expr)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
	}
	if isFloat(t) {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, x, y)
		case token.SUB:
			return c.FBin(OFSub, x, y)
		case token.MUL:
			return c.FBin(OFMul, x, y)
		case token.QUO:
			return c.FBin(OFDiv, x, y)
		case token.LSS:
			return c.FCmp(OFLt, x, y)
		case token.LEQ:
			return c.FCmp(OFLe, x, y)
		case token.GTR:
			return c.FCmp(OFLt, y, x)
		case token.GEQ:
			return c.FCmp(OFLe, y, x)
		}
	}
	sg := isSigned(t)
	if x.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		if m.decide(st, c.Eq(y, c.K(0, y.w))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return c.Sdiv(x, y)
		case op == token.QUO:
			return c.Udiv(x, y)
		case sg:
			return c.Srem(x, y)
		default:
			return c.Urem(x, y)
		}
	case token.AND:
		return c.BAnd(x, y)
	case token.OR:
		return c.BOr(x, y)
	case token.XOR:
		return c.BXor(x, y)
	case token.AND_NOT:
		return c.BAnd(x, c.BNot(y))
	case token.SHL, token.SHR:
		// shift count: unsigned value of its own width; negative signed counts panic
		if isSigned(ty) && !y.isConst() {
			if m.decide(st, c.Slt(y, c.K(0, y.w))) {
				m.rtPanic("negative shift amount")
			}
		} else if isSigned(ty) && sx(y.c, y.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if !y.isConst() {
			if v, ok := st.concGet(y.id); ok {
				y = c.K(v, y.w)
			}
		}
		var big *Expr // count >= width
		if y.w > x.w {
			big = c.Ule(c.K(uint64(x.w), y.w), y)
			y = c.Extract(y, x.w-1, 0)
		} else {
			y = c.Zext(y, x.w)
		}
		var r *Expr
		var over *Expr
		switch {
		case op == token.SHL:
			r, over = c.Shl(x, y), c.K(0, x.w)
		case sg:
			r, over = c.Ashr(x, y), c.Ashr(x, c.K(uint64(x.w)-1, x.w))
		default:
			r, over = c.Lshr(x, y), c.K(0, x.w)
		}
		if big != nil {
			r = c.Ite(big, over, r)
		}
		return r
	case token.LSS:
		if sg {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if sg {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if sg {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if sg {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	panic(unsupported("binop " + op.String()))
}

func (m *M) strLess(x, y *Str, orEq bool) *Expr {
	c := m.ctx
	if x.b == nil && y.b == nil {
		if orEq {
			return c.B(x.s <= y.s)
		}
		return c.B(x.s < y.s)
	}
	n := min(x.len(), y.len())
	var r *Expr
	if orEq {
		r = c.B(x.len() <= y.len())
	} else {
		r = c.B(x.len() < y.len())
	}
	for i := n - 1; i >= 0; i-- {
		a, b := c.strAt(x, i), c.strAt(y, i)
		r = c.Ite(c.Eq(a, b), r, c.Ult(a, b))
	}
	return r
}

func (m *M) strEq(x, y *Str) *Expr {
	c := m.ctx
	if x.len() != y.len() {
		return c.False
	}
	if x.b == nil && y.b == nil {
		return c.B(x.s == y.s)
	}
	r := c.True
	for i := 0; i < x.len(); i++ {
		r = c.And(r, c.Eq(c.strAt(x, i), c.strAt(y, i)))
	}
	return r
}

func (m *M) eq(st *State, a, b Value, t types.Type) *Expr {
	c := m.ctx
	switch x := a.(type) {
	case *Expr:
		y := b.(*Expr)
		if t != nil && isFloat(t) {
			return c.FCmp(OFEq, x, y)
		}
		return c.Eq(x, y)
	case *Str:
		return m.strEq(x, b.(*Str))
	case Ptr:
		y := m.concPtr(st, b).(Ptr)
		return c.B(x == y)
	case *SymPtr:
		return m.eq(st, m.concPtr(st, a), b, t)
	case MapV:
		return c.B(x == b.(MapV))
	case SliceV: // comparison with nil only
		y := b.(SliceV)
		return c.B((x.id == 0) == (y.id == 0))
	case *FuncV:
		y := b.(*FuncV)
		return c.B((x == nil) == (y == nil))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported("interface compared with a concrete value"))
		}
		if x.t == nil || y.t == nil {
			return c.B(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type")
		}
		return m.eq(st, x.v, y.v, x.t)
	case *Agg:
		y := b.(*Agg)
		r := c.True
		if t == nil {
			panic(unsupported("comparison of an untyped aggregate"))
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				o, n := m.lay.Off(u, i), m.lay.Size(ft)
				if isAgg(ft) {
					r = c.And(r, m.eq(st, &Agg{x.c[o : o+n]}, &Agg{y.c[o : o+n]}, ft))
				} else {
					r = c.And(r, m.eq(st, x.c[o], y.c[o], ft))
				}
			}
		case *types.Array:
			n := m.lay.Size(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				if isAgg(u.Elem()) {
					r = c.And(r, m.eq(st, &Agg{x.c[i*n : i*n+n]}, &Agg{y.c[i*n : i*n+n]}, u.Elem()))
				} else {
					r = c.And(r, m.eq(st, x.c[i], y.c[i], u.Elem()))
				}
			}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func (m *M) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	v := m.get(st, f, x.X)
	c := m.ctx
	switch x.Op {
	case token.MUL:
		return m.load(st, v, x.Type())
	case token.NOT:
		return c.Not(v.(*Expr))
	case token.SUB:
		e := v.(*Expr)
		if isFloat(x.Type()) {
			return c.FNeg(e)
		}
		return c.Sub(c.K(0, e.w), e)
	case token.XOR:
		return c.BNot(v.(*Expr))
	}
	panic(unsupported("unary " + x.Op.String()))
}

func (m *M) convert(st *State, from, to types.Type, v Value) Value {
	c := m.ctx
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return v
			}
			if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
				e := v.(*Expr)
				if m.decide(st, c.Ult(e, c.K(0x80, e.w))) {
					return mkStr([]*Expr{c.Extract(e, 7, 0)})
				}
				if e.isConst() {
					return &Str{s: string(rune(e.c))}
				}
				panic(unsupported("symbolic rune to string"))
			}
			e, ok := v.(*Expr)
			if !ok {
				panic(unsupported("conversion " + from.String() + " -> " + to.String()))
			}
			w, ok2 := basicWidth(tb)
			if !ok2 {
				panic(unsupported("conversion to " + to.String()))
			}
			switch {
			case isFloat(from) && isFloat(to):
				return c.FConv(OFToF, e, w)
			case isFloat(to):
				if isSigned(from) {
					return c.FConv(OSIToF, e, w)
				}
				return c.FConv(OUIToF, e, w)
			case isFloat(from):
				// amd64 converts through 64-bit signed
				if isSigned(to) || w < 64 {
					return c.Zext(c.FConv(OFToSI, e, 64), w)
				}
				return c.FConv(OFToUI, e, w)
			}
			if w <= e.w {
				return c.Zext(e, w)
			}
			if isSigned(from) {
				return c.Sext(e, w)
			}
			return c.Zext(e, w)
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			s := v.(*Str)
			if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				id := m.alloc(st, m.lay.Zero(ts.Elem()), s.len())
				o := st.heap.get(id)
				for i := 0; i < s.len(); i++ {
					m.setCell(st, o, i, c.strAt(s, i))
				}
				return SliceV{id, 0, s.len(), s.len()}
			}
			if s.b == nil {
				rs := []rune(s.s)
				id := m.alloc(st, m.lay.Zero(ts.Elem()), len(rs))
				o := st.heap.get(id)
				for i, r := range rs {
					m.setCell(st, o, i, c.K(uint64(r), 32))
				}
				return SliceV{id, 0, len(rs), len(rs)}
			}
		}
		if fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if isString(to) {
			if b, ok := fs.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				s := v.(SliceV)
				return m.bytesToStr(st, s)
			}
			s := v.(SliceV)
			var rs []rune
			for i := 0; i < s.len; i++ {
				e := st.heap.get(s.id).load(s.off + i).(*Expr)
				rs = append(rs, rune(m.concrete(st, e)))
			}
			return &Str{s: string(rs)}
		}
	}
	if _, ok := tu.(*types.Basic); ok {
		return v // unsafe.Pointer
	}
	if _, ok := fu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func (m *M) bytesToStr(st *State, s SliceV) *Str {
	if s.len == 0 {
		return &Str{}
	}
	o := st.heap.get(s.id)
	es := make([]*Expr, s.len)
	for i := range es {
		es[i] = o.load(s.off + i).(*Expr)
	}
	return mkStr(es)
}

func (m *M) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *M) typeAssert(st *State, x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && m.implements(v.t, it) {
			ok, r = true, v
		} else {
			r = Iface{}
		}
	} else {
		if v.t != nil && types.Identical(v.t, x.AssertedType) {
			ok, r = true, v.v
		} else {
			r = m.lay.ZeroVal(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{r, m.ctx.B(ok)}
	}
	if !ok {
		d := "nil"
		if v.t != nil {
			d = v.t.String()
		}
		m.rtPanic("interface conversion: interface is " + d + ", not " + x.AssertedType.String())
	}
	return r
}

// ---- growth of slices (the runtime's rule, including size classes)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func roundup(n int, noscan bool) int {
	req := n
	if req <= 32768-8 {
		if !noscan && req > 512 { // malloc header
			req += 8
			for _, s := range sizeClasses {
				if s >= req {
					return s - 8
				}
			}
		}
		for _, s := range sizeClasses {
			if s >= req {
				return s
			}
		}
	}
	const pg = 8192
	return (req + pg - 1) / pg * pg
}

func (m *M) growCap(old, need int, et types.Type) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := int(m.sizes.Sizeof(et))
	if es == 0 {
		return need
	}
	return roundup(nc*es, !hasPointers(et)) / es
}

func (m *M) appendSlice(st *State, s SliceV, et types.Type, n int, cell func(i int) Value) SliceV {
	sz := m.lay.Size(et)
	if n == 0 {
		return s
	}
	nl := s.len + n
	if nl > s.cap {
		if nl > 1<<24 {
			panic(unsupported("slice too large"))
		}
		nc := m.growCap(s.cap, nl, et)
		id := m.alloc(st, m.lay.Zero(et), nc)
		o := st.heap.get(id)
		// read the appended cells before anything moves (they may alias)
		vals := make([]Value, n*sz)
		for i := range vals {
			vals[i] = cell(i)
		}
		if s.len > 0 {
			src := st.heap.get(s.id)
			for i := 0; i < s.len*sz; i++ {
				m.setCell(st, o, i, src.load(s.off+i))
			}
		}
		for i, v := range vals {
			m.setCell(st, o, s.len*sz+i, v)
		}
		return SliceV{id, 0, nl, nc}
	}
	vals := make([]Value, n*sz)
	for i := range vals {
		vals[i] = cell(i)
	}
	o := m.wobj(st, s.id)
	for i, v := range vals {
		m.setCell(st, o, s.off+s.len*sz+i, v)
	}
	return SliceV{s.id, s.off, nl, s.cap}
}

var _ = bits.Len64
