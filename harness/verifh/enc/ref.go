package enc

// An independent decoder of RLEv2, written from the ORC specification.

type refBits struct {
	b   []byte
	pos int // in bits
	bad bool
}

func (r *refBits) byte() byte {
	r.pos = (r.pos + 7) / 8 * 8
	i := r.pos / 8
	if i >= len(r.b) {
		r.bad = true
		return 0
	}
	r.pos += 8
	return r.b[i]
}

// bits reads w bits, most significant first.
func (r *refBits) bits(w int) uint64 {
	if r.pos+w > 8*len(r.b) {
		r.bad = true
		return 0
	}
	var v uint64
	for w > 0 {
		in := r.pos & 7
		n := 8 - in
		if n > w {
			n = w
		}
		x := uint64(r.b[r.pos/8]) >> uint(8-in-n) & (1<<uint(n) - 1)
		v = v<<uint(n) | x
		r.pos += n
		w -= n
	}
	return v
}

func (r *refBits) align() { r.pos = (r.pos + 7) / 8 * 8 }

func (r *refBits) varint() uint64 {
	var v uint64
	for s := uint(0); s < 70; s += 7 {
		b := r.byte()
		if r.bad {
			return 0
		}
		if s == 63 && b > 1 {
			r.bad = true
			return 0
		}
		v |= uint64(b&0x7f) << s
		if b < 0x80 {
			return v
		}
	}
	r.bad = true
	return 0
}

func unzig(x uint64) int64 { return int64(x>>1) ^ -int64(x&1) }

// unzigSign is unzig, with the sign a branch.
func unzigSign(x uint64) int64 {
	if x&1 != 0 {
		return ^int64(x >> 1)
	}
	return int64(x >> 1)
}

func refWidth(code int) int {
	if code <= 23 {
		return code + 1
	}
	return [...]int{26, 28, 30, 32, 40, 48, 56, 64}[code-24]
}

func refClosest(n int) int {
	for c := 0; c < 32; c++ {
		if refWidth(c) >= n {
			return refWidth(c)
		}
	}
	return 64
}

// refRLE2 decodes every run of b. Values of signed streams are two's complement.
func refRLE2(b []byte, signed bool, conc func(int) int) ([]uint64, bool) {
	r := &refBits{b: b}
	var out []uint64
	for r.pos < 8*len(b) {
		if out = r.run(out, signed, conc); r.bad {
			return nil, false
		}
		r.align()
	}
	return out, true
}

func (r *refBits) run(out []uint64, signed bool, conc func(int) int) []uint64 {
	h := int(r.byte())
	switch conc(h >> 6) {
	case 0: // short repeat
		w := conc(h>>3&7) + 1
		n := conc(h&7) + 3
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(r.byte())
		}
		if signed {
			v = uint64(unzig(v))
		}
		for i := 0; i < n; i++ {
			out = append(out, v)
		}
	case 1: // direct
		w := refWidth(conc(h >> 1 & 31))
		n := conc((h&1)<<8|int(r.byte())) + 1
		for i := 0; i < n && !r.bad; i++ {
			v := r.bits(w)
			if signed {
				v = uint64(unzig(v))
			}
			out = append(out, v)
		}
	case 2: // patched base
		w := refWidth(conc(h >> 1 & 31))
		n := conc((h&1)<<8|int(r.byte())) + 1
		h2 := int(r.byte())
		h3 := int(r.byte())
		if r.bad {
			return out
		}
		bw := conc(h2>>5&7) + 1
		pw := refWidth(conc(h2 & 31))
		pgw := conc(h3>>5&7) + 1
		pl := conc(h3 & 31)
		if pw+pgw > 64 {
			r.bad = true
			return out
		}
		raw := r.bits(8 * bw)
		sign := uint64(1) << uint(8*bw-1)
		base := raw &^ sign
		if raw&sign != 0 {
			base = -base
		}
		at := len(out)
		d := make([]uint64, n)
		for i := 0; i < n && !r.bad; i++ {
			d[i] = r.bits(w)
		}
		r.align()
		p := 0
		for i := 0; i < pl && !r.bad; i++ {
			e := r.bits(refClosest(pw + pgw))
			g := conc(int(e >> uint(pw) & 0xff))
			p += g
			if p >= n {
				r.bad = true
				break
			}
			if w < 64 {
				d[p] |= (e & (1<<uint(pw) - 1)) << uint(w)
			}
		}
		_ = at
		for i := 0; i < n; i++ {
			out = append(out, base+d[i])
		}
	case 3: // delta
		w := 0
		if c := conc(h >> 1 & 31); c > 0 {
			w = refWidth(c)
		}
		n := conc((h&1)<<8|int(r.byte())) + 1
		v := r.varint()
		if signed {
			v = uint64(unzigSign(v))
		}
		db := unzigSign(r.varint())
		if r.bad {
			return out
		}
		out = append(out, v)
		if n > 1 {
			v += uint64(db)
			out = append(out, v)
		}
		for i := 2; i < n && !r.bad; i++ {
			if w == 0 {
				v += uint64(db)
			} else if x := r.bits(w); db >= 0 {
				v += x
			} else {
				v -= x
			}
			out = append(out, v)
		}
	}
	return out
}
