package enc

import (
	"bytes"
	"io"
	"math"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// primBytes builds a sequence of bytes from segments (see intValues): kind 0 copies of
// an arbitrary byte, 1 arbitrary bytes, 2 alternating fixed bytes, 3 alternating fixed
// bytes with arbitrary ones at the end.
func primBytes() []byte {
	var bs []byte
	if n := vp.Param("n", 0); n > 0 {
		for i := 0; i < n; i++ {
			bs = append(bs, vp.U8(vp.N("b", i)))
		}
		return bs
	}
	for s := 0; s < 4; s++ {
		p := func(n string, d int) int { return vp.Param(string(rune('a'+s))+n, d) }
		n := p("len", 0)
		switch p("kind", 0) {
		case 0:
			v := vp.U8(vp.N("s", s))
			for i := 0; i < n; i++ {
				bs = append(bs, v)
			}
		case 1:
			for i := 0; i < n; i++ {
				bs = append(bs, vp.U8(vp.N(vp.N("s", s), i)))
			}
		case 2, 3:
			k := p("sym", 0)
			for i := 0; i < n; i++ {
				if i >= n-k {
					bs = append(bs, vp.U8(vp.N(vp.N("s", s), i)))
				} else {
					bs = append(bs, byte(i*7%5+i%2*100))
				}
			}
		}
	}
	return bs
}

// refByteRL decodes byte run length from the specification.
func refByteRL(b []byte) (out []byte, ok bool) {
	for at := 0; at < len(b); {
		c := vp.Conc(int(b[at]))
		at++
		if c < 128 {
			if at >= len(b) {
				return nil, false
			}
			for i := 0; i < c+3; i++ {
				out = append(out, b[at])
			}
			at++
			continue
		}
		n := 256 - c
		if at+n > len(b) {
			return nil, false
		}
		out = append(out, b[at:at+n]...)
		at += n
	}
	return out, true
}

func flushHere(i int) bool {
	if f := vp.Param("flushat", 0); f != 0 && i == f {
		return true
	}
	return vp.Param("flushes", 0) != 0 && vp.Bool(vp.N("flush", i))
}

func sameBytes(a, b []byte, msg string) {
	vp.Assert(len(a) == len(b), "number of values changed")
	ok := true
	for i := range a {
		ok = vp.And(ok, a[i] == b[i])
	}
	vp.Assert(ok, msg)
}

// ByteRound: any bytes, flushed anywhere, through the byte run length encoder.
func ByteRound() {
	bs := primBytes()
	e := encoding.NewByteEncoder(vp.Param("pos", 0) != 0)
	buf := &bytes.Buffer{}
	for i, v := range bs {
		if i > 0 && flushHere(i) {
			vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		}
		vp.Assert(e.Encode(v, buf) == nil, "encoder returned an error")
	}
	vp.Assert(e.Flush(buf) == nil, "flush returned an error")
	out := append([]byte(nil), buf.Bytes()...)
	want, ok := refByteRL(out)
	vp.Assert(ok, "output is not valid byte run length")
	sameBytes(bs, want, "output means other values")
	in := bytes.NewBuffer(out)
	var got []byte
	for in.Len() > 0 {
		var err error
		if got, err = encoding.DecodeByteRL(in, got); err != nil {
			vp.Assert(false, "decoder rejects encoder output")
		}
	}
	sameBytes(bs, got, "values changed")
	vp.Reach("done")
}

// ByteDiff: arbitrary bytes decode to what the specification says.
func ByteDiff() {
	n := vp.Param("n", 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N("b", i))
	}
	if c := vp.Param("ctl", -1); c >= 0 {
		b[0] = byte(c)
	}
	want, ok := refByteRL(b)
	in := bytes.NewBuffer(append([]byte(nil), b...))
	var got []byte
	var err error
	for in.Len() > 0 && err == nil {
		got, err = encoding.DecodeByteRL(in, got)
	}
	vp.Assert((err == nil) == ok, "valid input rejected or invalid accepted")
	if ok {
		sameBytes(want, got, "decoded bytes differ from the specification")
	}
	vp.Reach("done")
}

// BoolRound: any booleans, flushed anywhere.
func BoolRound() {
	n := vp.Param("n", 10)
	e := encoding.NewBoolEncoder(vp.Param("pos", 0) != 0)
	buf := &bytes.Buffer{}
	var want []byte // bits by the specification, a flush starts a new byte
	var vs []bool
	var at []int // bit of a value
	bit := 0
	k := vp.Param("sym", n)
	for i := 0; i < n; i++ {
		if i > 0 && flushHere(i) {
			vp.Assert(e.Flush(buf) == nil, "flush returned an error")
			bit = len(want) * 8
		}
		v := i%3 == 0
		if i >= n-k {
			v = vp.Bool(vp.N("v", i))
		}
		vp.Assert(e.Encode(v, buf) == nil, "encoder returned an error")
		if bit == len(want)*8 {
			want = append(want, 0)
		}
		if v {
			want[bit/8] |= 0x80 >> uint(bit%8)
		}
		vs, at = append(vs, v), append(at, bit)
		bit++
	}
	vp.Assert(e.Flush(buf) == nil, "flush returned an error")
	out := append([]byte(nil), buf.Bytes()...)
	ref, ok := refByteRL(out)
	vp.Assert(ok, "output is not valid byte run length")
	sameBytes(want, ref, "output means other values")
	in := bytes.NewBuffer(out)
	var got []bool
	for in.Len() > 0 {
		var err error
		if got, err = encoding.DecodeBools(in, got); err != nil {
			vp.Assert(false, "decoder rejects encoder output")
		}
	}
	vp.Assert(len(got) == len(want)*8, "number of bits changed")
	var one []bool
	for _, b := range ref {
		one = append(one, encoding.DecodeBoolsFromByte(b)...)
	}
	good := len(one) == len(got)
	for i, v := range vs {
		good = vp.And(good, vp.And(got[at[i]] == v, one[at[i]] == v))
	}
	vp.Assert(good, "values changed")
	vp.Reach("done")
}

// FloatRound: any float and double bit patterns are stored as little endian IEEE 754.
func FloatRound() {
	n := vp.Param("n", 3)
	buf := &bytes.Buffer{}
	good := true
	if vp.Param("double", 0) == 0 {
		e := encoding.NewFloatEncoder()
		var bits []uint32
		for i := 0; i < n; i++ {
			b := vp.U32(vp.N("f", i))
			bits = append(bits, b)
			vp.Assert(e.Encode(math.Float32frombits(b), buf) == nil, "encoder returned an error")
			if flushHere(i) {
				vp.Assert(e.Flush(buf) == nil, "flush returned an error")
			}
		}
		vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		vp.Assert(buf.Len() == 4*n, "wrong number of bytes")
		out := append([]byte(nil), buf.Bytes()...)
		for i := 0; i < n; i++ {
			v, err := encoding.DecodeFloat(buf)
			vp.Assert(err == nil, "decoder rejects encoder output")
			good = vp.And(good, math.Float32bits(v) == bits[i])
			o := out[4*i:]
			good = vp.And(good, uint32(o[0])|uint32(o[1])<<8|uint32(o[2])<<16|uint32(o[3])<<24 == bits[i])
		}
	} else {
		e := encoding.NewDoubleEncoder()
		var bits []uint64
		for i := 0; i < n; i++ {
			b := vp.U64(vp.N("f", i))
			bits = append(bits, b)
			vp.Assert(e.Encode(math.Float64frombits(b), buf) == nil, "encoder returned an error")
			if flushHere(i) {
				vp.Assert(e.Flush(buf) == nil, "flush returned an error")
			}
		}
		vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		vp.Assert(buf.Len() == 8*n, "wrong number of bytes")
		out := append([]byte(nil), buf.Bytes()...)
		for i := 0; i < n; i++ {
			v, err := encoding.DecodeDouble(buf)
			vp.Assert(err == nil, "decoder rejects encoder output")
			good = vp.And(good, math.Float64bits(v) == bits[i])
			var w uint64
			for j := 0; j < 8; j++ {
				w |= uint64(out[8*i+j]) << uint(8*j)
			}
			good = vp.And(good, w == bits[i])
		}
	}
	vp.Assert(good, "bit pattern changed")
	vp.Assert(buf.Len() == 0, "bytes left over")
	_, err := encoding.DecodeDouble(bytes.NewBuffer(make([]byte, vp.Choose("cut", 8))))
	vp.Assert(err != nil, "double decoded from too few bytes")
	_, err = encoding.DecodeFloat(bytes.NewBuffer(make([]byte, vp.Choose("cut4", 4))))
	vp.Assert(err != nil, "float decoded from too few bytes")
	vp.Reach("done")
}

// VarintRound: any signed 64-bit values as base 128 varints with zigzag.
func VarintRound() {
	n := vp.Param("n", 2)
	e := encoding.NewVarint64Encoder()
	buf := &bytes.Buffer{}
	var vs []int64
	for i := 0; i < n; i++ {
		v := vp.I64(vp.N("v", i))
		vs = append(vs, v)
		vp.Assert(e.Encode(v, buf) == nil, "encoder returned an error")
		if flushHere(i) {
			vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		}
	}
	vp.Assert(e.Flush(buf) == nil, "flush returned an error")
	out := append([]byte(nil), buf.Bytes()...)
	r := &refBits{b: out}
	good := true
	for i := 0; i < n; i++ {
		v, err := encoding.DecodeVarInt64(buf)
		vp.Assert(err == nil, "decoder rejects encoder output")
		good = vp.And(good, v == vs[i])
		good = vp.And(good, unzig(r.varint()) == vs[i])
	}
	vp.Assert(!r.bad && r.pos == 8*len(out), "not a sequence of varints")
	vp.Assert(good, "value changed")
	vp.Assert(buf.Len() == 0, "bytes left over")
	vp.Reach("done")
}

// VarintDiff: arbitrary bytes read as varints.
func VarintDiff() {
	n := vp.Param("n", 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N("b", i))
		if vp.Param("long", 0) != 0 && i < n-2 {
			b[i] |= 0x80
		}
	}
	r := &refBits{b: b}
	w := r.varint()
	v, err := encoding.DecodeVarInt64(bytes.NewBuffer(append([]byte(nil), b...)))
	vp.Assert((err == nil) == !r.bad, "valid varint rejected or invalid accepted")
	if !r.bad {
		vp.Assert(v == unzig(w), "signed varint differs from the specification")
	}
	u, err := encoding.ReadVUint(bytes.NewBuffer(append([]byte(nil), b...)))
	if !r.bad {
		vp.Assert(err == nil, "valid varint rejected")
		vp.Assert(u == w, "unsigned varint differs from the specification")
	}
	vp.Reach("done")
}

// StringRound: strings are stored as their bytes.
func StringRound() {
	n := vp.Param("n", 3)
	e := encoding.NewStringContentsEncoder()
	buf := &bytes.Buffer{}
	var all []byte
	var lens []int
	for i := 0; i < n; i++ {
		l := vp.Choose(vp.N("len", i), 3)
		b := make([]byte, l)
		for j := range b {
			b[j] = vp.U8(vp.N(vp.N("b", i), j))
		}
		all = append(all, b...)
		lens = append(lens, l)
		vp.Assert(e.Encode(b, buf) == nil, "encoder returned an error")
		for j := range b { // the caller may reuse its buffer
			b[j] = 0xee
		}
		if flushHere(i) {
			vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		}
	}
	vp.Assert(e.Flush(buf) == nil, "flush returned an error")
	sameBytes(all, append([]byte(nil), buf.Bytes()...), "stored bytes differ")
	var got []byte
	for _, l := range lens {
		b, err := encoding.DecodeBytes(buf, l)
		vp.Assert(err == nil && len(b) == l, "string of another length")
		got = append(got, b...)
	}
	sameBytes(all, got, "values changed")
	_, err := encoding.DecodeBytes(bytes.NewBuffer(all), len(all)+1)
	vp.Assert(err != nil && err != io.ErrShortBuffer, "string longer than the data decoded")
	vp.Reach("done")
}

// NanoRound: every nanosecond value of a second survives, encoded as specified:
// the value without its trailing zeros if there are at least two, and their number less one.
func NanoRound() {
	lo := vp.Param("lo", 0)
	n := uint64(vp.Range("n", lo, vp.Param("hi", 999999999)))
	if m := vp.Param("mul", 1); m > 1 {
		n *= uint64(m)
		vp.Assume(n < 1000000000)
	}
	for k := 0; k < 2; k++ {
		var e, d uint64
		if k == 0 {
			e = encoding.EncodingNano(n)
			d = uint64(encoding.DecodingNano(e))
		} else {
			e = api.EncodingTimestampNanos(n)
			d = api.DecodingTimestampNanos(e)
		}
		vp.Assert(d == n, "nanoseconds changed")
		z, m := e&7, e>>3
		ok := m == n
		for i, t := 1, uint64(100); i < 8; i, t = i+1, t*10 {
			ok = vp.Or(vp.And(z != uint64(i), ok), vp.And(z == uint64(i), m*t == n))
		}
		ok = vp.And(ok, vp.Or(z != 0, vp.Or(n == 0, n%100 != 0)))
		ok = vp.And(ok, vp.Or(z == 0, m%10 != 0))
		vp.Assert(ok, "nanoseconds are not encoded as specified")
	}
	vp.Reach("done")
}
