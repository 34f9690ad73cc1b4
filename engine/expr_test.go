package main

import (
	"math/rand"
	"testing"
)

// The simplifying constructors agree with evalOp on random expressions and inputs.
func TestSimplifier(t *testing.T) {
	type pair struct {
		e *Expr
		v [4]uint64
	}
	for round := 0; round < 20000; round++ {
		r := rand.New(rand.NewSource(int64(round)))
		c := NewCtx()
		var vals [4]map[string]uint64
		for i := range vals {
			vals[i] = map[string]uint64{}
		}
		var pool []pair
		for i := 0; i < 3; i++ {
			w := []uint8{1, 8, 16, 64}[r.Intn(4)]
			n := string(rune('a' + i))
			p := pair{e: c.Var(n, w)}
			for k := range vals {
				x := r.Uint64()
				if r.Intn(3) == 0 {
					x = uint64(r.Intn(4)) - 2
				}
				x &= mask(w)
				vals[k][n], p.v[k] = x, x
			}
			pool = append(pool, p)
		}
		pick := func(w uint8) pair {
			for try := 0; try < 20; try++ {
				p := pool[r.Intn(len(pool))]
				if p.e.w == w {
					return p
				}
			}
			x := []uint64{0, 1, mask(w), r.Uint64() & mask(w), 2, uint64(1) << (w - 1)}[r.Intn(6)] & mask(w)
			p := pair{e: c.K(x, w)}
			for k := range p.v {
				p.v[k] = x
			}
			return p
		}
		pickB := func() pair {
			for try := 0; try < 20; try++ {
				p := pool[r.Intn(len(pool))]
				if p.e.w == 0 {
					return p
				}
			}
			return pair{e: c.B(true), v: [4]uint64{1, 1, 1, 1}}
		}
		for i := 0; i < 40; i++ {
			w := pool[r.Intn(len(pool))].e.w
			if w == 0 {
				w = 8
			}
			a, b := pick(w), pick(w)
			var q pair
			bin := func(e *Expr, f func(x, y uint64) uint64) {
				q.e = e
				for k := range q.v {
					q.v[k] = f(a.v[k], b.v[k])
				}
			}
			m := mask(w)
			bb := func(x bool) uint64 {
				if x {
					return 1
				}
				return 0
			}
			switch r.Intn(24) {
			case 0:
				bin(c.Add(a.e, b.e), func(x, y uint64) uint64 { return (x + y) & m })
			case 1:
				bin(c.Sub(a.e, b.e), func(x, y uint64) uint64 { return (x - y) & m })
			case 2:
				bin(c.BXor(a.e, b.e), func(x, y uint64) uint64 { return x ^ y })
			case 3:
				bin(c.BAnd(a.e, b.e), func(x, y uint64) uint64 { return x & y })
			case 4:
				bin(c.BOr(a.e, b.e), func(x, y uint64) uint64 { return x | y })
			case 5:
				bin(c.BNot(a.e), func(x, y uint64) uint64 { return ^x & m })
			case 6:
				k := uint64(r.Intn(int(w) + 2))
				if r.Intn(2) == 0 {
					k = 1
				}
				b.e = c.K(k, w)
				k &= m
				switch r.Intn(3) {
				case 0:
					bin(c.Shl(a.e, b.e), func(x, y uint64) uint64 { return x << k & m })
				case 1:
					bin(c.Lshr(a.e, b.e), func(x, y uint64) uint64 { return x >> k })
				default:
					kk := k
					if kk > 63 {
						kk = 63
					}
					bin(c.Ashr(a.e, b.e), func(x, y uint64) uint64 { return uint64(sx(x, w)>>kk) & m })
				}
			case 7:
				k := r.Uint64() & m
				if r.Intn(2) == 0 {
					k = 2
				}
				bin(c.Mul(a.e, c.K(k, w)), func(x, y uint64) uint64 { return x * (k & m) & m })
			case 8:
				hi := uint8(r.Intn(int(w)))
				lo := uint8(r.Intn(int(hi) + 1))
				bin(c.Extract(a.e, hi, lo), func(x, y uint64) uint64 { return x >> lo & mask(hi-lo+1) })
			case 9:
				b = pool[r.Intn(len(pool))]
				if b.e.w == 0 || int(w)+int(b.e.w) > 64 {
					continue
				}
				bw := b.e.w
				bin(c.Concat(a.e, b.e), func(x, y uint64) uint64 { return x<<bw | y })
			case 10:
				nw := w + uint8(r.Intn(65-int(w)))
				bin(c.Zext(a.e, nw), func(x, y uint64) uint64 { return x })
			case 11:
				nw := w + uint8(r.Intn(65-int(w)))
				bin(c.Sext(a.e, nw), func(x, y uint64) uint64 { return uint64(sx(x, w)) & mask(nw) })
			case 12:
				bin(c.Eq(a.e, b.e), func(x, y uint64) uint64 { return bb(x == y) })
			case 13:
				bin(c.Ult(a.e, b.e), func(x, y uint64) uint64 { return bb(x < y) })
			case 14:
				bin(c.Ule(a.e, b.e), func(x, y uint64) uint64 { return bb(x <= y) })
			case 15:
				bin(c.Slt(a.e, b.e), func(x, y uint64) uint64 { return bb(sx(x, w) < sx(y, w)) })
			case 16:
				bin(c.Sle(a.e, b.e), func(x, y uint64) uint64 { return bb(sx(x, w) <= sx(y, w)) })
			case 17, 18:
				p := pickB()
				if r.Intn(4) == 0 {
					b.e = c.BNot(a.e)
					for k := range b.v {
						b.v[k] = ^a.v[k] & m
					}
				}
				q.e = c.Ite(p.e, a.e, b.e)
				for k := range q.v {
					q.v[k] = b.v[k]
					if p.v[k] != 0 {
						q.v[k] = a.v[k]
					}
				}
			case 19:
				a, b = pickB(), pickB()
				bin(c.And(a.e, b.e), func(x, y uint64) uint64 { return x & y })
			case 20:
				a, b = pickB(), pickB()
				bin(c.Or(a.e, b.e), func(x, y uint64) uint64 { return x | y })
			case 21:
				a = pickB()
				bin(c.Not(a.e), func(x, y uint64) uint64 { return x ^ 1 })
			case 22:
				bin(c.Udiv(a.e, b.e), func(x, y uint64) uint64 {
					if y == 0 {
						return m
					}
					return x / y
				})
			case 23:
				bin(c.Urem(a.e, b.e), func(x, y uint64) uint64 {
					if y == 0 {
						return x
					}
					return x % y
				})
			}
			pool = append(pool, q)
			for k := range vals {
				if g := NewModel(vals[k]).Eval(q.e); g != q.v[k] {
					t.Fatalf("round %d step %d: got %x want %x (op %d w %d)", round, i, g, q.v[k], q.e.op, q.e.w)
				}
			}
		}
	}
}

// Quotients by constants of sums that split into a multiple and a small rest.
func TestSimplifierDivision(t *testing.T) {
	for round := 0; round < 20000; round++ {
		r := rand.New(rand.NewSource(int64(round)))
		c := NewCtx()
		C := []int64{7, 1000, 86400, 1000000000}[r.Intn(4)]
		d, s := c.Var("d", 32), c.Var("s", 16)
		q := int64(r.Intn(5)) - 2
		k := c.K(uint64(q*C+int64(r.Intn(3))-1), 64)
		a := c.Add(c.Add(c.Mul(c.Sext(d, 64), c.K(uint64(C), 64)), c.Zext(s, 64)), k)
		if r.Intn(3) == 0 {
			a = c.Sub(c.Zext(s, 64), a)
		}
		vals := map[string]uint64{"d": uint64(uint32(r.Int31n(9) - 4)), "s": uint64(r.Intn(9))}
		if r.Intn(2) == 0 {
			vals["d"], vals["s"] = uint64(r.Uint32()), uint64(r.Intn(65536))
		}
		m := NewModel(vals)
		x := int64(m.Eval(a))
		if g, w := int64(m.Eval(c.Sdiv(a, c.K(uint64(C), 64)))), x/C; g != w {
			t.Fatalf("round %d: %d / %d = %d, got %d", round, x, C, w, g)
		}
		if g, w := int64(m.Eval(c.Srem(a, c.K(uint64(C), 64)))), x%C; g != w {
			t.Fatalf("round %d: %d %% %d = %d, got %d", round, x, C, w, g)
		}
	}
}
