// Package enc holds the harnesses over orc/encoding.
package enc

import (
	"bytes"

	"github.com/patrickhuang888/goorc/orc/encoding"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// encodeInts runs the values (two's complement) through the RLEv2 encoder.
func encodeInts(vs []uint64, signed bool) []byte {
	enc := encoding.NewIntRLV2(signed, vp.Param("pos", 0) != 0)
	buf := &bytes.Buffer{}
	for i, v := range vs {
		var x interface{} = v
		if signed {
			x = int64(v)
		}
		if err := enc.Encode(x, buf); err != nil {
			vp.Assert(false, "encoder returned an error")
		}
		if f := vp.Param("flushat", 0); f > 0 && i+1 == f {
			if err := enc.Flush(buf); err != nil {
				vp.Assert(false, "flush returned an error")
			}
		}
	}
	if err := enc.Flush(buf); err != nil {
		vp.Assert(false, "flush returned an error")
	}
	return buf.Bytes()
}

// decodeInts is the implementation's view of a whole stream.
func decodeInts(b []byte, signed bool) ([]uint64, error) {
	dec := encoding.NewIntDecoder(signed)
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	var got []uint64
	for buf.Len() > 0 {
		if signed {
			g, err := dec.DecodeInt(buf)
			if err != nil {
				return nil, err
			}
			for _, v := range g {
				got = append(got, uint64(v))
			}
		} else {
			g, err := dec.DecodeUInt(buf)
			if err != nil {
				return nil, err
			}
			got = append(got, g...)
		}
	}
	return got, nil
}

func same(a, b []uint64, msg string) {
	vp.Assert(len(a) == len(b), "number of values changed")
	ok := true
	for i := range a {
		ok = vp.And(ok, a[i] == b[i])
	}
	vp.Assert(ok, msg)
}

// IntRound: values through the RLEv2 encoder and back, and through the
// reference decoder when ref is set.
func IntRound() {
	signed := vp.Param("unsigned", 0) == 0
	vs := intValues()
	b := encodeInts(vs, signed)
	got, err := decodeInts(b, signed)
	if err != nil {
		vp.Assert(false, "decoder rejects encoder output")
	}
	same(vs, got, "values changed")
	if vp.Param("ref", 0) != 0 {
		g, ok := refRLE2(b, signed, vp.Conc)
		vp.Assert(ok, "output is not valid RLEv2")
		same(vs, g, "output means other values")
	}
	vp.Reach("done")
}

// intValues builds up to three segments. seg kinds: 0 copies of one value,
// 1 fixed steps, 2 arbitrary values, 3 a fixed pattern, 4 a fixed pattern with an
// arbitrary value at pos, 5 monotone with arbitrary steps.
func intValues() []uint64 {
	var vs []uint64
	if n := vp.Param("n", 0); n > 0 {
		for i := 0; i < n; i++ {
			vs = append(vs, intVal(vp.N("v", i), vp.Param("w", 64)))
		}
		return vs
	}
	for s := 0; s < 4; s++ {
		p := func(n string, d int) int { return vp.Param(string(rune('a'+s))+n, d) }
		nm := vp.N("s", s)
		n := p("len", 0)
		base := uint64(p("base", 0))
		switch p("kind", 0) {
		case 0:
			v := base + intVal(nm, p("w", 64))
			for i := 0; i < n; i++ {
				vs = append(vs, v)
			}
		case 1:
			v := base + intVal(nm, p("w", 64))
			d := intVal(vp.N("d", s), p("dw", 64)) + uint64(p("step", 0))
			for i := 0; i < n; i++ {
				vs = append(vs, v)
				v += d
			}
		case 2:
			for i := 0; i < n; i++ {
				vs = append(vs, base+intVal(vp.N(nm, i), p("w", 4)))
			}
		case 3, 4:
			for i := 0; i < n; i++ {
				vs = append(vs, base+uint64(i*p("mul", 7)%p("mod", 23)))
			}
			if p("kind", 0) == 4 {
				vs[len(vs)-n+p("pos", 0)] = intVal(nm, p("w", 64)) << uint(p("sh", 0))
				if q := p("pos2", -1); q >= 0 {
					vs[len(vs)-n+q] = intVal(vp.N(nm, 1), p("w", 64)) << uint(p("sh", 0))
				}
			}
		case 5:
			v := base
			for i := 0; i < n; i++ {
				vs = append(vs, v)
				d := intVal(vp.N(nm, i), p("w", 2)) + uint64(p("step", 0))
				if p("down", 0) != 0 {
					d = -d
				}
				v += d
			}
		}
	}
	return vs
}

func intVal(name string, w int) uint64 {
	switch {
	case w == 0:
		return 0
	case w < 0: // unsigned
		return uint64(vp.Range(name, 0, 1<<uint(-w)-1))
	case w < 8:
		return uint64(int64(vp.Range(name, 0, 1<<uint(w)-1)) - 1<<uint(w-1))
	case w == 8:
		return uint64(int64(vp.I8(name)))
	case w == 16:
		return uint64(int64(vp.I16(name)))
	case w == 32:
		return uint64(int64(vp.I32(name)))
	}
	return vp.U64(name)
}

// IntDiff: on arbitrary bytes the decoder gives what the specification says, or an
// error when the bytes are not valid RLEv2.
func IntDiff() {
	n := vp.Param("n", 6)
	signed := vp.Param("unsigned", 0) == 0
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N("b", i))
	}
	if sub := vp.Param("sub", -1); sub >= 0 {
		b[0] = b[0]&0x3f | byte(sub<<6)
	}
	if l := vp.Param("len", -1); l >= 0 { // fixed run length - 1
		b[0] = b[0]&0xfe | byte(l>>8)
		b[1] = byte(l)
	}
	if w := vp.Param("wc", -1); w >= 0 { // fixed width code
		b[0] = b[0]&0xc1 | byte(w<<1)
	}
	for i := 0; i < 4; i++ {
		if h := vp.Param(vp.N("h", i), -1); h >= 0 && i < n {
			b[i] = byte(h)
		}
		if t := vp.Param(vp.N("t", i), -1); t >= 0 && i <= n {
			b[n-i] = byte(t)
		}
	}
	at := 2
	for _, name := range [...]string{"vb", "vd"} { // varints of fixed length
		if k := vp.Param(name, 0); k > 0 {
			for i := 0; i < k && at < n; i, at = i+1, at+1 {
				if b[at] |= 0x80; i == k-1 {
					b[at] &= 0x7f
				}
			}
			if k == 10 && at <= n {
				b[at-1] &= 1
			}
		}
	}
	want, ok := refRLE2(b, signed, vp.Conc)
	got, err := decodeInts(b, signed)
	if !ok {
		vp.Assert(err != nil, "invalid RLEv2 decoded without an error")
		vp.Reach("invalid")
		return
	}
	vp.Assert(err == nil, "valid RLEv2 rejected")
	same(want, got, "decoded values differ from the specification")
	vp.Reach("valid")
}
