package main

// Bit-vector / boolean expression DAG, hash-consed, with rewriting.
//
// Width 0 is the Boolean sort; widths 1..64 are bit-vectors.  Floating point
// values are carried as their IEEE-754 bit patterns; the F* operators are
// emitted to SMT as operations of the FloatingPoint theory.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OFLt
	OFLe
	OFEq
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFToSI // float(width of a) -> signed int (w)
	OFToUI
	OSIToF // signed int -> float of width w
	OUIToF
	OFToF
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

type Expr struct {
	op      Op
	w       uint8
	fp      bool // contains a floating point operator
	id      uint32
	c       uint64 // constant value, or extract hi<<8|lo
	a, b, d *Expr
	name    string
	lo, hi  uint64 // unsigned range (bit-vectors)
	defd    int    // solver generation in which the node was declared
}

type ekey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d uint32
}

// Ctx owns the expressions of one machine; it is not safe for concurrent use.
type Ctx struct {
	tab    map[ekey]*Expr
	vars   map[string]*Expr
	varLst []*Expr
	next   uint32
	True   *Expr
	False  *Expr
	consts map[uint8]map[uint64]*Expr
	small  [65][257]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, vars: map[string]*Expr{}, next: 1}
	c.True = c.mk(&Expr{op: OConst, w: 0, c: 1})
	c.False = c.mk(&Expr{op: OConst, w: 0, c: 0})
	return c
}

func (c *Ctx) mk(e *Expr) *Expr {
	k := ekey{op: e.op, w: e.w, c: e.c}
	if e.a != nil {
		k.a = e.a.id
		e.fp = e.fp || e.a.fp
	}
	if e.b != nil {
		k.b = e.b.id
		e.fp = e.fp || e.b.fp
	}
	if e.d != nil {
		k.d = e.d.id
		e.fp = e.fp || e.d.fp
	}
	if e.op >= OFLt {
		e.fp = true
	}
	if r, ok := c.tab[k]; ok {
		return r
	}
	e.id = c.next
	c.next++
	e.defd = -1
	c.setRange(e)
	c.tab[k] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 { // sign extend
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) setRange(e *Expr) {
	if e.w == 0 {
		return
	}
	m := mask(e.w)
	e.lo, e.hi = 0, m
	switch e.op {
	case OConst:
		e.lo, e.hi = e.c, e.c
	case OIte:
		e.lo, e.hi = min(e.b.lo, e.d.lo), max(e.b.hi, e.d.hi)
	case OAdd:
		s, carry := bits.Add64(e.a.hi, e.b.hi, 0)
		if carry == 0 && s <= m {
			e.lo, e.hi = e.a.lo+e.b.lo, s
		}
	case OSub:
		if e.a.lo >= e.b.hi {
			e.lo, e.hi = e.a.lo-e.b.hi, e.a.hi-e.b.lo
		}
	case OMul:
		h, l := bits.Mul64(e.a.hi, e.b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = e.a.lo*e.b.lo, l
		}
	case OUdiv:
		if e.b.lo > 0 {
			e.lo, e.hi = e.a.lo/e.b.hi, e.a.hi/e.b.lo
		}
	case OUrem:
		if e.b.lo > 0 {
			e.hi = min(e.a.hi, e.b.hi-1)
		}
	case OBAnd:
		e.hi = min(e.a.hi, e.b.hi)
	case OBOr:
		e.lo = max(e.a.lo, e.b.lo)
		n := bits.Len64(e.a.hi | e.b.hi)
		e.hi = mask(uint8(n))
		if n == 0 {
			e.hi = 0
		}
	case OBXor:
		n := bits.Len64(e.a.hi | e.b.hi)
		e.hi = mask(uint8(n))
		if n == 0 {
			e.hi = 0
		}
	case OLshr:
		if e.b.op == OConst {
			if e.b.c < 64 {
				e.lo, e.hi = e.a.lo>>e.b.c, e.a.hi>>e.b.c
			} else {
				e.lo, e.hi = 0, 0
			}
		} else {
			e.hi = e.a.hi
		}
	case OConcat:
		e.lo, e.hi = e.a.lo<<e.b.w, e.a.hi<<e.b.w|mask(e.b.w)
		if e.a.lo == e.a.hi {
			e.lo, e.hi = e.a.lo<<e.b.w|e.b.lo, e.a.lo<<e.b.w|e.b.hi
		}
	case OExtract:
		lo := uint8(e.c & 0xff)
		if lo == 0 && e.a.hi <= m {
			e.lo, e.hi = e.a.lo, e.a.hi
		} else if e.a.hi>>lo <= m {
			e.lo, e.hi = e.a.lo>>lo, e.a.hi>>lo
		}
	case OSext:
		if e.a.hi < uint64(1)<<(e.a.w-1) {
			e.lo, e.hi = e.a.lo, e.a.hi
		}
	}
}

func (e *Expr) isConst() bool { return e.op == OConst }

func (c *Ctx) K(v uint64, w uint8) *Expr {
	if w == 0 {
		return c.B(v != 0)
	}
	v &= mask(w)
	if v <= 256 {
		if e := c.small[w][v]; e != nil {
			return e
		}
		e := c.mk(&Expr{op: OConst, w: w, c: v})
		c.small[w][v] = e
		return e
	}
	return c.mk(&Expr{op: OConst, w: w, c: v})
}

func (c *Ctx) B(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	if v, ok := c.vars[name]; ok {
		if v.w != w {
			panic(unsupported("variable " + name + " used at two widths"))
		}
		return v
	}
	v := &Expr{op: OVar, w: w, name: name, id: c.next, defd: -1, c: uint64(len(c.varLst))}
	c.next++
	c.setRange(v)
	c.vars[name] = v
	c.varLst = append(c.varLst, v)
	return v
}

// VarMax is a variable of at most max; every declaration to a solver says so.
// ok is false when the name was used before with another bound.
func (c *Ctx) VarMax(name string, w uint8, max uint64) (*Expr, bool) {
	if v, ok := c.vars[name]; ok {
		c.Var(name, w)
		if v.hi < max {
			panic(unsupported("variable " + name + " used with two ranges"))
		}
		return v, v.hi == max
	}
	v := c.Var(name, w)
	v.hi = max
	return v, true
}

// bound is the assertion that goes with the declaration of a variable.
func (e *Expr) bound(sb *strings.Builder) {
	if e.w != 0 && e.hi < mask(e.w) {
		sb.WriteString("(assert (bvule ")
		e.ref(sb)
		fmt.Fprintf(sb, " (_ bv%d %d)))\n", e.hi, e.w)
	}
}

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.B(a.c == 0)
	case ONot:
		return a.a
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(&Expr{op: ONot, a: a})
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	// x == k1 && x == k2
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isConst() && b.b.isConst() && a.b != b.b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OAnd, a: a, b: b})
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.c != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	na, nb := c.Not(a), c.Not(b)
	if na == b {
		return c.True
	}
	// a | (!a & x)  ->  a | x ; (a&x)|(!a&x) -> x ; (a&x)|(a&y) -> a&(x|y)
	if b.op == OAnd {
		if b.a == na {
			return c.Or(a, b.b)
		}
		if b.b == na {
			return c.Or(a, b.a)
		}
		if b.a == a || b.b == a {
			return a
		}
	}
	if a.op == OAnd {
		if a.a == nb {
			return c.Or(b, a.b)
		}
		if a.b == nb {
			return c.Or(b, a.a)
		}
		if a.a == b || a.b == b {
			return b
		}
	}
	if a.op == OAnd && b.op == OAnd {
		switch {
		case a.a == b.a:
			return c.And(a.a, c.Or(a.b, b.b))
		case a.a == b.b:
			return c.And(a.a, c.Or(a.b, b.a))
		case a.b == b.a:
			return c.And(a.b, c.Or(a.a, b.b))
		case a.b == b.b:
			return c.And(a.b, c.Or(a.a, b.a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OOr, a: a, b: b})
}

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k.isConst() {
		if k.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c != 0 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.isConst() {
			if b.c != 0 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if a.op == OIte && a.a == k {
		return c.Ite(k, a.b, b)
	}
	if b.op == OIte && b.a == k {
		return c.Ite(k, a, b.d)
	}
	if b.op == OIte && b.b == a { // ite(k,a,ite(k2,a,d)) = ite(k|k2,a,d)
		return c.Ite(c.Or(k, b.a), a, b.d)
	}
	if a.op == OIte && a.d == b { // ite(k,ite(k2,x,b),b) = ite(k&k2,x,b)
		return c.Ite(c.And(k, a.a), a.b, b)
	}
	if a.w > 0 && (a.op == OBNot && a.a == b || b.op == OBNot && b.a == a) { // conditional complement
		if bit := c.boolBit(k); bit != nil {
			if a.op == OBNot && a.a == b {
				return c.BXor(b, c.Sext(bit, a.w))
			}
			return c.BXor(a, c.Sext(c.BNot(bit), a.w))
		}
	}
	return c.mk(&Expr{op: OIte, w: a.w, a: k, b: a, d: b})
}

// boolBit is the bit vector of width 1 that k tests, if it has that form.
func (c *Ctx) boolBit(k *Expr) *Expr {
	switch {
	case k.op == ONot:
		if b := c.boolBit(k.a); b != nil {
			return c.BNot(b)
		}
	case k.op == OEq && k.a.w == 1 && k.b.isConst():
		if k.b.c == 1 {
			return k.a
		}
		return c.BNot(k.a)
	case k.op == OEq && k.a.w == 1 && k.a.isConst():
		if k.a.c == 1 {
			return k.b
		}
		return c.BNot(k.b)
	case k.op == OSlt && k.b.isConst() && k.b.c == 0:
		return c.Extract(k.a, k.a.w-1, k.a.w-1)
	case k.op == OSle && k.a.isConst() && k.a.c == 0:
		return c.BNot(c.Extract(k.b, k.b.w-1, k.b.w-1))
	}
	return nil
}

// replBit is the bit that e repeats, if e is a sign extension of one.
func replBit(e *Expr) *Expr {
	if e.w == 1 {
		return e
	}
	if e.op == OSext && e.a.w == 1 {
		return e.a
	}
	return nil
}

// isIteTree reports that e is an ite tree with constant leaves, at most n of them.
func iteLeaves(e *Expr, n int) int {
	if e.isConst() {
		return 1
	}
	if e.op != OIte || n <= 0 {
		return 1 << 20
	}
	l := iteLeaves(e.b, n-1)
	if l > n {
		return l
	}
	return l + iteLeaves(e.d, n-l)
}

func (c *Ctx) mapIte(e *Expr, f func(*Expr) *Expr) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(*Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.op != OIte {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := c.Ite(x.a, rec(x.b), rec(x.d))
		memo[x] = r
		return r
	}
	return rec(e)
}

const iteCap = 80

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c != 0 {
				return b
			}
			return c.Not(b)
		}
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Expr{op: OEq, a: a, b: b})
	}
	if a.isConst() && b.isConst() {
		return c.B(a.c == b.c)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 && a.w == 1 {
		return c.Not(c.Eq(a, c.K(1, 1)))
	}
	if b.isConst() {
		switch a.op {
		case OConcat:
			return c.And(c.Eq(a.a, c.K(b.c>>a.b.w, a.a.w)), c.Eq(a.b, c.K(b.c, a.b.w)))
		case OIte:
			if a.b.isConst() || a.d.isConst() || iteLeaves(a, iteCap) <= iteCap {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.d, b))
			}
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.K(b.c-a.b.c, a.w))
			}
		case OSub:
			if b.c == 0 {
				return c.Eq(a.a, a.b)
			}
			if a.a.isConst() {
				return c.Eq(a.b, c.K(a.a.c-b.c, a.w))
			}
		case OBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.K(b.c^a.b.c, a.w))
			}
			if b.c == 0 {
				return c.Eq(a.a, a.b)
			}
		case OBNot:
			return c.Eq(a.a, c.K(^b.c, a.w))
		case OSext:
			if sx(b.c&mask(a.a.w), a.a.w) == sx(b.c, a.w) {
				return c.Eq(a.a, c.K(b.c, a.a.w))
			}
			return c.False
		case OBOr:
			if b.c == 0 {
				return c.And(c.Eq(a.a, b), c.Eq(a.b, b))
			}
		}
	} else if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	} else if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	} else if a.op == OAdd && b.op == OAdd && (a.a == b.a) {
		return c.Eq(a.b, b.b)
	} else if a.op == OAdd && b.op == OAdd && (a.b == b.b) {
		return c.Eq(a.a, b.a)
	} else if a.op == OConcat || b.op == OConcat {
		// split along the concat boundary
		if b.op == OConcat {
			a, b = b, a
		}
		lw := a.b.w
		hiB, loB := c.Extract(b, b.w-1, lw), c.Extract(b, lw-1, 0)
		if hiB.isConst() || loB.isConst() || hiB == a.a || loB == a.b {
			return c.And(c.Eq(a.a, hiB), c.Eq(a.b, loB))
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(&Expr{op: OEq, a: a, b: b})
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if b.isConst() && b.c == 1 {
		return c.Eq(a, c.K(0, a.w))
	}
	if a.isConst() && a.c == 0 {
		return c.Not(c.Eq(b, a))
	}
	if r := c.cmpSimp(a, b, c.Ult, true); r != nil {
		return r
	}
	return c.mk(&Expr{op: OUlt, a: a, b: b})
}

// cmpSimp strips common zero extensions and distributes over constant ite trees.
func (c *Ctx) cmpSimp(a, b *Expr, f func(a, b *Expr) *Expr, unsigned bool) *Expr {
	if a.op == OIte && b.isConst() && iteLeaves(a, iteCap) <= iteCap {
		return c.mapIte(a, func(x *Expr) *Expr { return f(x, b) })
	}
	if b.op == OIte && a.isConst() && iteLeaves(b, iteCap) <= iteCap {
		return c.mapIte(b, func(x *Expr) *Expr { return f(a, x) })
	}
	if unsigned {
		az, bz := zextOf(a), zextOf(b)
		if az != nil && bz != nil && az.w == bz.w {
			return f(az, bz)
		}
		if az != nil && b.isConst() && b.c <= mask(az.w) {
			return f(az, c.K(b.c, az.w))
		}
		if bz != nil && a.isConst() && a.c <= mask(bz.w) {
			return f(c.K(a.c, bz.w), bz)
		}
	}
	return nil
}

// zextOf returns x when e is a zero extension of x.
func zextOf(e *Expr) *Expr {
	if e.op == OConcat && e.a.isConst() && e.a.c == 0 {
		return e.b
	}
	return nil
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if b.isConst() && b.c == 0 {
		return c.Eq(a, b)
	}
	if r := c.cmpSimp(a, b, c.Ule, true); r != nil {
		return r
	}
	return c.mk(&Expr{op: OUle, a: a, b: b})
}

func (c *Ctx) nonneg(a *Expr) bool { return a.hi < uint64(1)<<(a.w-1) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.B(sx(a.c, a.w) < sx(b.c, b.w))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if a.lo > mask(a.w)>>1 && c.nonneg(b) {
		return c.True
	}
	if b.lo > mask(b.w)>>1 && c.nonneg(a) {
		return c.False
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OSext && b.isConst() && sx(b.c&mask(a.a.w), a.a.w) == sx(b.c, b.w) {
		return c.Slt(a.a, c.K(b.c, a.a.w))
	}
	if b.op == OSext && a.isConst() && sx(a.c&mask(b.a.w), b.a.w) == sx(a.c, a.w) {
		return c.Slt(c.K(a.c, b.a.w), b.a)
	}
	if r := c.cmpSimp(a, b, c.Slt, false); r != nil {
		return r
	}
	return c.mk(&Expr{op: OSlt, a: a, b: b})
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.B(sx(a.c, a.w) <= sx(b.c, b.w))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if a.lo > mask(a.w)>>1 && c.nonneg(b) {
		return c.True
	}
	if b.lo > mask(b.w)>>1 && c.nonneg(a) {
		return c.False
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Sle(a.a, b.a)
	}
	if a.op == OSext && b.isConst() && sx(b.c&mask(a.a.w), a.a.w) == sx(b.c, b.w) {
		return c.Sle(a.a, c.K(b.c, a.a.w))
	}
	if b.op == OSext && a.isConst() && sx(a.c&mask(b.a.w), b.a.w) == sx(a.c, a.w) {
		return c.Sle(c.K(a.c, b.a.w), b.a)
	}
	if r := c.cmpSimp(a, b, c.Sle, false); r != nil {
		return r
	}
	return c.mk(&Expr{op: OSle, a: a, b: b})
}

// ---- arithmetic

// bin2 distributes a binary operator over constant-leaved ite trees.
func (c *Ctx) iteBin(a, b *Expr, f func(a, b *Expr) *Expr) *Expr {
	if a.op == OIte && b.isConst() && iteLeaves(a, iteCap) <= iteCap {
		return c.mapIte(a, func(x *Expr) *Expr { return f(x, b) })
	}
	if b.op == OIte && a.isConst() && iteLeaves(b, iteCap) <= iteCap {
		return c.mapIte(b, func(x *Expr) *Expr { return f(a, x) })
	}
	return nil
}

type linTerm struct {
	e *Expr
	k uint64
}

// linTerms adds k*e to the list of terms and the constant; false if it grows too long.
func linTerms(e *Expr, k uint64, l *[]linTerm, c0 *uint64, d int) bool {
	switch {
	case e.isConst():
		*c0 += k * e.c
		return true
	case d < 8 && e.op == OAdd:
		return linTerms(e.a, k, l, c0, d+1) && linTerms(e.b, k, l, c0, d+1)
	case d < 8 && e.op == OSub:
		return linTerms(e.a, k, l, c0, d+1) && linTerms(e.b, -k, l, c0, d+1)
	case d < 8 && e.op == OMul && e.b.isConst():
		return linTerms(e.a, k*e.b.c, l, c0, d+1)
	case d < 8 && e.op == OConcat && e.b.isConst() && e.b.c == 0 && e.a.op == OExtract && e.a.a.w == e.w && uint8(e.a.c&0xff) == 0:
		return linTerms(e.a.a, k<<e.b.w, l, c0, d+1)
	}
	*l = append(*l, linTerm{e, k})
	return len(*l) <= 12
}

// linear rebuilds a+b or a-b when terms of the two cancel or join.
func (c *Ctx) linear(a, b *Expr, sub bool) *Expr {
	if a.op != OAdd && a.op != OSub && a.op != OMul && b.op != OAdd && b.op != OSub && b.op != OMul && a.op != OConcat && b.op != OConcat {
		return nil
	}
	var l []linTerm
	c0 := uint64(0)
	k := uint64(1)
	if sub {
		k = mask(a.w)
	}
	if !linTerms(a, 1, &l, &c0, 0) || !linTerms(b, k, &l, &c0, 0) {
		return nil
	}
	var o []linTerm
	for _, t := range l {
		found := false
		for i := range o {
			if o[i].e == t.e {
				o[i].k += t.k
				found = true
			}
		}
		if !found {
			o = append(o, t)
		}
	}
	if len(o) == len(l) {
		return nil
	}
	m := mask(a.w)
	var pos, neg *Expr
	for _, t := range o {
		k := t.k & m
		if k == 0 {
			continue
		}
		p := &pos
		if k>>(a.w-1) != 0 {
			p = &neg
			k = -k & m
		}
		x := t.e
		if k != 1 {
			x = c.mk(&Expr{op: OMul, w: a.w, a: x, b: c.K(k, a.w)})
		}
		if *p == nil {
			*p = x
		} else {
			u, v := *p, x
			if u.id > v.id {
				u, v = v, u
			}
			*p = c.mk(&Expr{op: OAdd, w: a.w, a: u, b: v})
		}
	}
	var r *Expr
	switch {
	case pos == nil && neg == nil:
		return c.K(c0, a.w)
	case neg == nil:
		r = pos
	case pos == nil:
		return c.Sub(c.K(c0, a.w), neg)
	default:
		r = c.mk(&Expr{op: OSub, w: a.w, a: pos, b: neg})
	}
	return c.Add(r, c.K(c0, a.w))
}

func (c *Ctx) Add(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.isConst() {
			return c.K(a.c+b.c, a.w)
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(a.a, c.K(a.b.c+b.c, a.w))
		}
		if a.op == OSub && a.a.isConst() {
			return c.Sub(c.K(a.a.c+b.c, a.w), a.b)
		}
		if r := c.iteBin(a, b, c.Add); r != nil {
			return r
		}
		return c.mk(&Expr{op: OAdd, w: a.w, a: a, b: b})
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if r := c.linear(a, b, false); r != nil {
		return r
	}
	// hoist constants
	if a.op == OAdd && a.b.isConst() {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OAdd, w: a.w, a: a, b: b})
}

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.K(0, a.w)
	}
	if b.isConst() {
		return c.Add(a, c.K(-b.c, a.w))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.isConst() {
			if b.op == OAdd && b.b.isConst() {
				return c.Add(c.Sub(a.a, b.a), c.K(a.b.c-b.b.c, a.w))
			}
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.isConst() {
		return c.Add(c.Sub(a, b.a), c.K(-b.b.c, a.w))
	}
	if a.op == OSub && a.a == b {
		return c.Sub(c.K(0, a.w), a.b)
	}
	if b.op == OSub && b.a == a {
		return b.b
	}
	if b.op == OSub && b.a.isConst() && b.a.c == 0 {
		return c.Add(a, b.b)
	}
	if a.isConst() && a.c == 0 && b.op == OConcat && b.a.isConst() && b.a.c == 0 && b.b.w == 1 {
		return c.Sext(b.b, a.w)
	}
	if r := c.linear(a, b, true); r != nil {
		return r
	}
	if r := c.iteBin(a, b, c.Sub); r != nil {
		return r
	}
	return c.mk(&Expr{op: OSub, w: a.w, a: a, b: b})
}

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.K(a.c*b.c, a.w)
		}
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return c.Shl(a, c.K(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if r := c.iteBin(a, b, c.Mul); r != nil {
			return r
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OMul, w: a.w, a: a, b: b})
}

func (c *Ctx) Udiv(a, b *Expr) *Expr {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return c.K(a.c/b.c, a.w)
		}
		if b.c&(b.c-1) == 0 {
			return c.Lshr(a, c.K(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if a.hi < b.c {
			return c.K(0, a.w)
		}
		if r := c.iteBin(a, b, c.Udiv); r != nil {
			return r
		}
		// narrow the division when the dividend is small
		if n := uint8(bits.Len64(a.hi | b.c)); n < a.w {
			return c.Zext(c.mk(&Expr{op: OUdiv, w: n, a: c.Extract(a, n-1, 0), b: c.K(b.c, n)}), a.w)
		}
	}
	return c.mk(&Expr{op: OUdiv, w: a.w, a: a, b: b})
}

func (c *Ctx) Urem(a, b *Expr) *Expr {
	if b.isConst() && b.c != 0 {
		if a.isConst() {
			return c.K(a.c%b.c, a.w)
		}
		if b.c&(b.c-1) == 0 {
			return c.BAnd(a, c.K(b.c-1, a.w))
		}
		if a.hi < b.c {
			return a
		}
		if r := c.iteBin(a, b, c.Urem); r != nil {
			return r
		}
		if n := uint8(bits.Len64(a.hi | b.c)); n < a.w {
			return c.Zext(c.mk(&Expr{op: OUrem, w: n, a: c.Extract(a, n-1, 0), b: c.K(b.c, n)}), a.w)
		}
	}
	return c.mk(&Expr{op: OUrem, w: a.w, a: a, b: b})
}

// srange bounds e as a signed number.
func srange(e *Expr, d int) (lo, hi int64) {
	top := uint64(1) << (e.w - 1)
	if e.hi < top || e.lo >= top {
		return sx(e.lo, e.w), sx(e.hi, e.w)
	}
	lo, hi = sx(top, e.w), int64(top-1)
	if d == 0 {
		return
	}
	switch e.op {
	case OSext:
		return srange(e.a, d-1)
	case OIte:
		l0, h0 := srange(e.b, d-1)
		l1, h1 := srange(e.d, d-1)
		return min(l0, l1), max(h0, h1)
	}
	return
}

// divParts splits a signed a into e*b+r with 0 <= r < b, b constant, when the
// summands of a tell so without overflow.
func (c *Ctx) divParts(a, b *Expr) (e, r *Expr, ok bool) {
	if !b.isConst() || a.w != 64 || sx(b.c, 64) <= 1 || b.c >= 1<<40 {
		return
	}
	var l []linTerm
	c0 := uint64(0)
	if !linTerms(a, 1, &l, &c0, 0) {
		return
	}
	C := int64(b.c)
	k0 := int64(c0)
	q, rem := k0/C, k0%C
	if rem < 0 {
		q, rem = q-1, rem+C
	}
	const big = int64(1) << 61
	add := func(s *[2]int64, k int64, t *Expr) bool { // s += k*t, within big
		lo, hi := srange(t, 4)
		for i, x := range [2]int64{lo, hi} {
			if k < 0 {
				i = 1 - i
			}
			h, p := bits.Mul64(absU(k), absU(x))
			if h != 0 || p > uint64(big) {
				return false
			}
			s[i] += k * x
			if s[i] > big || s[i] < -big {
				return false
			}
		}
		return true
	}
	er, rr := [2]int64{q, q}, [2]int64{rem, rem}
	e, r = c.K(uint64(q), 64), c.K(uint64(rem), 64)
	some := false
	for _, t := range l {
		k := int64(t.k)
		if k%C == 0 {
			if !add(&er, k/C, t.e) {
				return
			}
			some = true
			e = c.Add(e, c.Mul(t.e, c.K(uint64(k/C), 64)))
		} else {
			if !add(&rr, k, t.e) {
				return
			}
			r = c.Add(r, c.Mul(t.e, c.K(t.k, 64)))
		}
	}
	lim := big / C
	ok = some && rr[0] >= 0 && rr[1] < C && er[0] >= -lim && er[1] <= lim
	return
}

func absU(x int64) uint64 {
	if x < 0 {
		return -uint64(x)
	}
	return uint64(x)
}

func (c *Ctx) Sdiv(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sx(a.c, a.w), sx(b.c, b.w)
		if y == -1 {
			return c.K(uint64(-x), a.w)
		}
		return c.K(uint64(x/y), a.w)
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Udiv(a, b)
	}
	if b.isConst() && b.c == 1 {
		return a
	}
	if e, r, ok := c.divParts(a, b); ok {
		neg := c.And(c.Slt(e, c.K(0, a.w)), c.Not(c.Eq(r, c.K(0, a.w))))
		return c.Add(e, c.Ite(neg, c.K(1, a.w), c.K(0, a.w)))
	}
	return c.mk(&Expr{op: OSdiv, w: a.w, a: a, b: b})
}

func (c *Ctx) Srem(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() && b.c != 0 {
		x, y := sx(a.c, a.w), sx(b.c, b.w)
		if y == -1 {
			return c.K(0, a.w)
		}
		return c.K(uint64(x%y), a.w)
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Urem(a, b)
	}
	if e, r, ok := c.divParts(a, b); ok {
		neg := c.And(c.Slt(e, c.K(0, a.w)), c.Not(c.Eq(r, c.K(0, a.w))))
		return c.Ite(neg, c.Sub(r, b), r)
	}
	return c.mk(&Expr{op: OSrem, w: a.w, a: a, b: b})
}

// ---- bit operations

func (c *Ctx) Extract(a *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.K(a.c>>lo, w)
	case OExtract:
		l2 := uint8(a.c & 0xff)
		return c.Extract(a.a, hi+l2, lo+l2)
	case OConcat:
		bw := a.b.w
		if hi < bw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= bw {
			return c.Extract(a.a, hi-bw, lo-bw)
		}
		return c.Concat(c.Extract(a.a, hi-bw, 0), c.Extract(a.b, bw-1, lo))
	case OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if lo < a.a.w {
			return c.Sext(c.Extract(a.a, a.a.w-1, lo), w)
		}
		return c.Sext(c.Extract(a.a, a.a.w-1, a.a.w-1), w)
	case OBAnd:
		return c.BAnd(c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBOr:
		return c.BOr(c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBXor:
		return c.BXor(c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OBNot:
		return c.BNot(c.Extract(a.a, hi, lo))
	case OIte:
		if a.b.isConst() || a.d.isConst() || iteLeaves(a, iteCap) <= iteCap {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.d, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 && hi < a.w-1 {
			x, y := c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0)
			switch a.op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	if a.hi>>lo == 0 {
		return c.K(0, w)
	}
	return c.mk(&Expr{op: OExtract, w: w, a: a, c: uint64(hi)<<8 | uint64(lo)})
}

func (c *Ctx) Concat(a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.K(a.c<<b.w|b.c, a.w+b.w)
	}
	// right-nested normal form: (x.y).b -> x.(y.b)
	if a.op == OConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	// merge adjacent constants / extracts
	if b.op == OConcat {
		if a.isConst() && b.a.isConst() {
			return c.Concat(c.K(a.c<<b.a.w|b.a.c, a.w+b.a.w), b.b)
		}
		if m := c.adj(a, b.a); m != nil {
			return c.Concat(m, b.b)
		}
	} else if m := c.adj(a, b); m != nil {
		return m
	}
	// the upper bits of a sum over its lower ones, which Extract computed apart
	if a.op == OExtract && uint8(a.c&0xff) == b.w && (a.a.op == OAdd || a.a.op == OSub || a.a.op == OMul) && b.op == a.a.op && c.Extract(a.a, b.w-1, 0) == b {
		return c.Extract(a.a, uint8(a.c>>8), 0)
	}
	return c.mk(&Expr{op: OConcat, w: a.w + b.w, a: a, b: b})
}

func (c *Ctx) adj(a, b *Expr) *Expr {
	if a.op == OExtract && b.op == OExtract && a.a == b.a && uint8(a.c&0xff) == uint8(b.c>>8)+1 {
		return c.Extract(a.a, uint8(a.c>>8), uint8(b.c&0xff))
	}
	if x := replBit(a); x != nil && !x.isConst() && x == replBit(b) {
		return c.Sext(x, a.w+b.w)
	}
	return nil
}

func (c *Ctx) Zext(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OIte && iteLeaves(a, iteCap) <= iteCap {
		return c.mapIte(a, func(x *Expr) *Expr { return c.K(x.c, w) })
	}
	return c.Concat(c.K(0, w-a.w), a)
}

func (c *Ctx) Sext(a *Expr, w uint8) *Expr {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.K(uint64(sx(a.c, a.w)), w)
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	if a.op == OIte && iteLeaves(a, iteCap) <= iteCap {
		return c.mapIte(a, func(x *Expr) *Expr { return c.K(uint64(sx(x.c, x.w)), w) })
	}
	return c.mk(&Expr{op: OSext, w: w, a: a})
}

// splitAt finds the boundary of the lowest concat piece (0 if not a concat).
func lowW(e *Expr) uint8 {
	if e.op == OConcat {
		x := e
		for x.b.op == OConcat {
			x = x.b
		}
		return x.b.w
	}
	return 0
}

func (c *Ctx) constRuns(k *Expr) uint8 {
	// width of the lowest run of equal bits in constant k (0 if uniform)
	v := k.c
	var n int
	if v&1 == 0 {
		n = bits.TrailingZeros64(v)
	} else {
		n = bits.TrailingZeros64(^v)
	}
	if n >= int(k.w) {
		return 0
	}
	return uint8(n)
}

func (c *Ctx) bitSplit(a, b *Expr, f func(a, b *Expr) *Expr) *Expr {
	// choose a split point: concat boundary, or a run boundary in a constant
	s := uint8(0)
	if a.op == OConcat && (s == 0 || a.b.w < s) {
		s = a.b.w
	}
	if b.op == OConcat && (s == 0 || a.op != OConcat) {
		s = b.b.w
	}
	if s == 0 {
		if b.isConst() {
			s = c.constRuns(b)
		} else if a.isConst() {
			s = c.constRuns(a)
		}
	}
	if s == 0 {
		return nil
	}
	return c.Concat(f(c.Extract(a, a.w-1, s), c.Extract(b, b.w-1, s)), f(c.Extract(a, s-1, 0), c.Extract(b, s-1, 0)))
}

func (c *Ctx) BAnd(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.K(a.c&b.c, a.w)
		}
		if b.c == 0 {
			return b
		}
		if b.c == mask(b.w) {
			return a
		}
		if r := c.iteBin(a, b, c.BAnd); r != nil {
			return r
		}
		if r := c.bitSplit(a, b, c.BAnd); r != nil {
			return r
		}
	} else if (a.op == OConcat && (a.a.isConst() || a.b.isConst())) || (b.op == OConcat && (b.a.isConst() || b.b.isConst())) {
		return c.bitSplit(a, b, c.BAnd)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OBAnd, w: a.w, a: a, b: b})
}

func (c *Ctx) BOr(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.K(a.c|b.c, a.w)
		}
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return b
		}
		if r := c.iteBin(a, b, c.BOr); r != nil {
			return r
		}
		if r := c.bitSplit(a, b, c.BOr); r != nil {
			return r
		}
	} else if a.op == OConcat || b.op == OConcat {
		return c.bitSplit(a, b, c.BOr)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OBOr, w: a.w, a: a, b: b})
}

func (c *Ctx) BXor(a, b *Expr) *Expr {
	if a == b {
		return c.K(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.K(a.c^b.c, a.w)
		}
		if b.c == 0 {
			return a
		}
		if b.c == mask(b.w) {
			return c.BNot(a)
		}
		if r := c.iteBin(a, b, c.BXor); r != nil {
			return r
		}
		if r := c.bitSplit(a, b, c.BXor); r != nil {
			return r
		}
	} else {
		// cancel equal operands
		var l []*Expr
		inv := false
		l, inv = xorList(a, l, inv, 0)
		n := len(l)
		l, inv = xorList(b, l, inv, 0)
		if n+1 < len(l) || n > 1 || inv {
			sort.SliceStable(l, func(i, j int) bool { return l[i].id < l[j].id })
			o := l[:0:0]
			for i := 0; i < len(l); i++ {
				if i+1 < len(l) && l[i] == l[i+1] {
					i++
					continue
				}
				o = append(o, l[i])
			}
			if len(o) < len(l) || inv {
				r := c.K(0, a.w)
				for _, x := range o {
					r = c.BXor(x, r)
				}
				if inv {
					r = c.BNot(r)
				}
				return r
			}
		}
		spl := func(e *Expr) bool { return e.op == OConcat || e.op == OSext }
		if a.op == OConcat && (spl(b) || a.a.isConst() || a.b.isConst()) || b.op == OConcat && (spl(a) || b.a.isConst() || b.b.isConst()) {
			return c.bitSplit(a, b, c.BXor)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Expr{op: OBXor, w: a.w, a: a, b: b})
}

func xorList(e *Expr, l []*Expr, inv bool, d int) ([]*Expr, bool) {
	switch {
	case e.op == OBXor && d < 6:
		l, inv = xorList(e.a, l, inv, d+1)
		return xorList(e.b, l, inv, d+1)
	case e.op == OBNot:
		return xorList(e.a, l, !inv, d+1)
	}
	return append(l, e), inv
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return c.K(^a.c, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	if a.op == OIte && iteLeaves(a, iteCap) <= iteCap {
		return c.mapIte(a, c.BNot)
	}
	switch a.op {
	case OConcat:
		return c.Concat(c.BNot(a.a), c.BNot(a.b))
	case OSext:
		return c.Sext(c.BNot(a.a), a.w)
	}
	return c.mk(&Expr{op: OBNot, w: a.w, a: a})
}

// shifts: b has the same width as a; amounts >= width follow Go semantics.
func (c *Ctx) Shl(a, b *Expr) *Expr {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return c.K(0, a.w)
		}
		if b.c == 0 {
			return a
		}
		k := uint8(b.c)
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.K(0, k))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	if r := c.iteBin(a, b, c.Shl); r != nil {
		return r
	}
	return c.mk(&Expr{op: OShl, w: a.w, a: a, b: b})
}

func (c *Ctx) Lshr(a, b *Expr) *Expr {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return c.K(0, a.w)
		}
		if b.c == 0 {
			return a
		}
		k := uint8(b.c)
		return c.Zext(c.Extract(a, a.w-1, k), a.w)
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	if r := c.iteBin(a, b, c.Lshr); r != nil {
		return r
	}
	return c.mk(&Expr{op: OLshr, w: a.w, a: a, b: b})
}

func (c *Ctx) Ashr(a, b *Expr) *Expr {
	if b.isConst() {
		k := b.c
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, a.w-1, uint8(k)), a.w)
	}
	if c.nonneg(a) {
		return c.Lshr(a, b)
	}
	if r := c.iteBin(a, b, c.Ashr); r != nil {
		return r
	}
	return c.mk(&Expr{op: OAshr, w: a.w, a: a, b: b})
}

// ---- floating point (bit patterns)

func f64(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *Ctx) FCmp(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.B(evalOp(op, 0, 0, a.w, a.c, b.c, 0) != 0)
	}
	return c.mk(&Expr{op: op, a: a, b: b})
}

func (c *Ctx) FBin(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.K(evalOp(op, a.w, 0, a.w, a.c, b.c, 0), a.w)
	}
	return c.mk(&Expr{op: op, w: a.w, a: a, b: b})
}

func (c *Ctx) FNeg(a *Expr) *Expr {
	return c.BXor(a, c.K(uint64(1)<<(a.w-1), a.w))
}

func (c *Ctx) FConv(op Op, a *Expr, w uint8) *Expr {
	if op == OFToF && a.w == w {
		return a
	}
	if op == OFToF && w == 32 && a.op == OFToF && a.a.w == 32 {
		// float32 -> float64 -> float32 is the identity except on NaN payload quieting
		return c.mk(&Expr{op: op, w: w, a: a})
	}
	if op == OSIToF && c.nonneg(a) {
		op = OUIToF
	}
	if (op == OUIToF || op == OSIToF) && !a.isConst() {
		if n := iteLeaves(a, iteCap); n <= iteCap {
			return c.mapIte(a, func(x *Expr) *Expr { return c.FConv(op, x, w) })
		}
	}
	if a.isConst() {
		return c.K(evalOp(op, w, 0, a.w, a.c, 0, 0), w)
	}
	return c.mk(&Expr{op: op, w: w, a: a})
}

// ---- concrete evaluation

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates one operator; w is the result width, aw the width of the first operand.
func evalOp(op Op, w uint8, cc uint64, aw uint8, a, b, d uint64) uint64 {
	m := mask(w)
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return d
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sx(a, aw), sx(b, aw)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sx(a, aw), sx(b, aw)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, aw)>>b) & m
	case OSext:
		return uint64(sx(a, aw)) & m
	case OFLt:
		return b2u(f64(a, aw) < f64(b, aw))
	case OFLe:
		return b2u(f64(a, aw) <= f64(b, aw))
	case OFEq:
		return b2u(f64(a, aw) == f64(b, aw))
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
			var r float32
			switch op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			default:
				r = x / y
			}
			return uint64(math.Float32bits(r))
		}
		x, y := math.Float64frombits(a), math.Float64frombits(b)
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		default:
			r = x / y
		}
		return math.Float64bits(r)
	case OFToSI:
		return uint64(int64(f64(a, aw))) & m
	case OFToUI:
		return uint64(f64(a, aw)) & m
	case OSIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(a, aw))))
		}
		return math.Float64bits(float64(sx(a, aw)))
	case OUIToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OFToF:
		return fbits(f64(a, aw), w)
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Model is a total assignment (missing variables are 0) with memoised evaluation.
type Model struct {
	vals map[string]uint64
	memo map[uint32]uint64
}

func NewModel(vals map[string]uint64) *Model {
	return &Model{vals: vals, memo: map[uint32]uint64{}}
}

func (m *Model) Eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.c
	case OVar:
		return m.vals[e.name]
	}
	if v, ok := m.memo[e.id]; ok {
		return v
	}
	var r uint64
	switch e.op {
	case OIte:
		if m.Eval(e.a) != 0 {
			r = m.Eval(e.b)
		} else {
			r = m.Eval(e.d)
		}
	case OAnd:
		r = 0
		if m.Eval(e.a) != 0 {
			r = m.Eval(e.b)
		}
	case OOr:
		r = 1
		if m.Eval(e.a) == 0 {
			r = m.Eval(e.b)
		}
	case OConcat:
		r = m.Eval(e.a)<<e.b.w | m.Eval(e.b)
	case OExtract:
		r = m.Eval(e.a) >> (e.c & 0xff) & mask(e.w)
	default:
		a := m.Eval(e.a)
		var b, d uint64
		if e.b != nil {
			b = m.Eval(e.b)
		}
		if e.d != nil {
			d = m.Eval(e.d)
		}
		r = evalOp(e.op, e.w, e.c, e.a.w, a, b, d)
	}
	m.memo[e.id] = r
	return r
}
