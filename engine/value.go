package main

// Run-time values and the copy-on-write heap.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr, *Str, Ptr, *SymPtr, SliceV, *FuncV, Iface, MapV, *Agg, Tuple, *IterV, nil (unset).
type Value interface{}

type Ptr struct {
	id  uint32
	off int32
}

type SymPtr struct {
	id     uint32
	base   int
	stride int
	n      int
	idx    *Expr
}

type SliceV struct {
	id       uint32
	off      int // in cells
	len, cap int // in elements
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}

type Iface struct {
	t types.Type
	v Value
}

type MapV struct{ id uint32 }

type Agg struct{ c []Value } // struct or array value, flattened

type Tuple []Value

type IterV struct {
	pos  uint32 // object holding the position
	keys []Value
	m    uint32
	str  *Str
}

type Str struct {
	s string
	b []*Expr
}

func (s *Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (c *Ctx) strAt(s *Str, i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return c.K(uint64(s.s[i]), 8)
}

func mkStr(b []*Expr) *Str {
	buf := make([]byte, len(b))
	for i, e := range b {
		if !e.isConst() {
			return &Str{b: b}
		}
		buf[i] = byte(e.c)
	}
	return &Str{s: string(buf)}
}

type unsupported string

type page struct {
	own uint64
	c   []Value
}

const pageSize = 64

type Obj struct {
	own   uint64
	n     int
	zero  []Value // cells of one element
	pages []*page
	// maps
	isMap  bool
	keys   []Value
	vals   [][]Value
	frozen bool
}

type tleaf struct {
	own uint64
	o   [32]*Obj
}
type tnode struct {
	own uint64
	ch  [32]interface{}
}

const trieDepth = 4 // inner levels above the leaves: 32^5 objects

type Heap struct {
	root *tnode
}

func (h *Heap) get(id uint32) *Obj {
	n := h.root
	for l := trieDepth; l > 1; l-- {
		x, _ := n.ch[(id>>(5*uint(l)))&31].(*tnode)
		if x == nil {
			return nil
		}
		n = x
	}
	lf, _ := n.ch[(id>>5)&31].(*tleaf)
	if lf == nil {
		return nil
	}
	return lf.o[id&31]
}

func (h *Heap) set(own uint64, id uint32, o *Obj) {
	if h.root == nil {
		h.root = &tnode{own: own}
	} else if h.root.own != own {
		c := *h.root
		c.own = own
		h.root = &c
	}
	n := h.root
	for l := trieDepth; l > 1; l-- {
		i := (id >> (5 * uint(l))) & 31
		x, _ := n.ch[i].(*tnode)
		if x == nil {
			x = &tnode{own: own}
			n.ch[i] = x
		} else if x.own != own {
			c := *x
			c.own = own
			x = &c
			n.ch[i] = x
		}
		n = x
	}
	i := (id >> 5) & 31
	lf, _ := n.ch[i].(*tleaf)
	if lf == nil {
		lf = &tleaf{own: own}
		n.ch[i] = lf
	} else if lf.own != own {
		c := *lf
		c.own = own
		lf = &c
		n.ch[i] = lf
	}
	lf.o[id&31] = o
}

// diff calls f for every id whose object differs between a and b.
func heapDiff(a, b *Heap, f func(id uint32, x, y *Obj) bool) bool {
	var rec func(x, y interface{}, l int, pre uint32) bool
	rec = func(x, y interface{}, l int, pre uint32) bool {
		if l == 0 {
			p, _ := x.(*tleaf)
			q, _ := y.(*tleaf)
			if p == q {
				return true
			}
			for i := 0; i < 32; i++ {
				var u, v *Obj
				if p != nil {
					u = p.o[i]
				}
				if q != nil {
					v = q.o[i]
				}
				if u != v {
					if !f(pre<<5|uint32(i), u, v) {
						return false
					}
				}
			}
			return true
		}
		p, _ := x.(*tnode)
		q, _ := y.(*tnode)
		if p == q {
			return true
		}
		for i := 0; i < 32; i++ {
			var u, v interface{}
			if p != nil {
				u = p.ch[i]
			}
			if q != nil {
				v = q.ch[i]
			}
			if u == v {
				continue
			}
			if !rec(u, v, l-1, pre<<5|uint32(i)) {
				return false
			}
		}
		return true
	}
	return rec(a.root, b.root, trieDepth, 0)
}

// ---- cells of an object

func (o *Obj) load(i int) Value {
	if i < 0 || i >= o.n {
		panic(fmt.Sprintf("internal: cell %d of %d", i, o.n))
	}
	p := o.pages[i/pageSize]
	if p == nil {
		return o.zero[i%len(o.zero)]
	}
	return p.c[i%pageSize]
}

func newObj(own uint64, zero []Value, count int) *Obj {
	n := len(zero) * count
	o := &Obj{own: own, n: n, zero: zero, pages: make([]*page, (n+pageSize-1)/pageSize)}
	return o
}

func (o *Obj) writablePage(own uint64, k int) *page {
	p := o.pages[k]
	if p == nil {
		sz := min(pageSize, o.n-k*pageSize)
		p = &page{own: own, c: make([]Value, sz)}
		for j := range p.c {
			p.c[j] = o.zero[(k*pageSize+j)%len(o.zero)]
		}
		o.pages[k] = p
	} else if p.own != own {
		c := make([]Value, len(p.c))
		copy(c, p.c)
		p = &page{own: own, c: c}
		o.pages[k] = p
	}
	return p
}

func (o *Obj) clone(own uint64) *Obj {
	c := *o
	c.own = own
	c.pages = append([]*page(nil), o.pages...)
	if o.isMap {
		c.keys = append([]Value(nil), o.keys...)
		c.vals = append([][]Value(nil), o.vals...)
	}
	return &c
}

// ---- layout

type layouts struct {
	size map[types.Type]int
	zero map[types.Type][]Value
	offs map[*types.Struct][]int
	ctx  *Ctx
}

func newLayouts(c *Ctx) *layouts {
	return &layouts{map[types.Type]int{}, map[types.Type][]Value{}, map[*types.Struct][]int{}, c}
}

func (l *layouts) Size(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += l.Size(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * l.Size(u.Elem())
	}
	l.size[t] = n
	return n
}

func (l *layouts) Off(s *types.Struct, f int) int {
	o, ok := l.offs[s]
	if !ok {
		n := 0
		for i := 0; i < s.NumFields(); i++ {
			o = append(o, n)
			n += l.Size(s.Field(i).Type())
		}
		l.offs[s] = o
	}
	return o[f]
}

func basicWidth(b *types.Basic) (w uint8, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Zero returns the flattened zero cells of t.
func (l *layouts) Zero(t types.Type) []Value {
	if z, ok := l.zero[t]; ok {
		return z
	}
	var z []Value
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z = append(z, l.Zero(u.Field(i).Type())...)
		}
	case *types.Array:
		e := l.Zero(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			z = append(z, e...)
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			z = []Value{&Str{}}
		} else if w, ok := basicWidth(u); ok {
			z = []Value{l.ctx.K(0, w)}
		} else if u.Kind() == types.UnsafePointer {
			z = []Value{Ptr{}}
		} else if u.Kind() == types.UntypedNil {
			z = []Value{Ptr{}}
		} else {
			z = []Value{unsupported("value of type " + t.String())}
		}
	case *types.Pointer:
		z = []Value{Ptr{}}
	case *types.Slice:
		z = []Value{SliceV{}}
	case *types.Map:
		z = []Value{MapV{}}
	case *types.Signature:
		z = []Value{(*FuncV)(nil)}
	case *types.Interface:
		z = []Value{Iface{}}
	default:
		z = []Value{unsupported("value of type " + t.String())}
	}
	l.zero[t] = z
	return z
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (l *layouts) ZeroVal(t types.Type) Value {
	if isAgg(t) {
		return &Agg{l.Zero(t)}
	}
	return l.Zero(t)[0]
}
