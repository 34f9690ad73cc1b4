package enc

import (
	"bytes"

	"github.com/patrickhuang888/goorc/orc/encoding"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// Any: any bytes are decoded, piece after piece, to values or an error; every piece
// consumes bytes and holds no more values than the encoding allows.
func Any() {
	n := vp.Param("n", 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N("b", i))
	}
	for i := 0; i < 2 && i < n; i++ {
		if s := vp.Param(vp.N("sub", i), -1); s >= 0 {
			b[i] = b[i]&0x3f | byte(s<<6)
		}
		if h := vp.Param(vp.N("h", i), -1); h >= 0 {
			b[i] = byte(h)
		}
	}
	in := bytes.NewBuffer(b)
	kind := vp.Param("kind", 0)
	id := encoding.NewIntDecoder(true)
	ud := encoding.NewIntDecoder(false)
	dd := encoding.NewDateV2DeCoder()
	for in.Len() > 0 {
		before := in.Len()
		var err error
		count := 1
		most := 1
		switch kind {
		case 0:
			var vs []byte
			vs, err = encoding.DecodeByteRL(in, nil)
			count, most = len(vs), 130
		case 1:
			var vs []bool
			vs, err = encoding.DecodeBools(in, nil)
			count, most = len(vs), 8*130
		case 2:
			var vs []int64
			vs, err = id.DecodeInt(in)
			count, most = len(vs), 512
		case 3:
			var vs []uint64
			vs, err = ud.DecodeUInt(in)
			count, most = len(vs), 512
		case 4:
			vs, e := dd.Decode(in)
			count, most, err = len(vs), 512, e
		case 5:
			_, err = encoding.DecodeVarInt64(in)
		case 6:
			_, err = encoding.DecodeFloat(in)
		case 7:
			_, err = encoding.DecodeDouble(in)
		case 8:
			lens := [...]int{0, 1, 2, 3, 5, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 40, 1<<63 - 1, -1, -1 << 63}
			l := lens[vp.Choose(vp.N("len", in.Len()), len(lens))]
			vs, e := encoding.DecodeBytes(in, l)
			err = e
			vp.Assert(err != nil || len(vs) == l, "other number of bytes than asked for")
			if l == 0 {
				vp.Assert(err == nil, "no bytes are an error")
				vp.Reach("none")
				return
			}
		case 9:
			_, err = encoding.ReadVUint(in)
		}
		if err != nil {
			vp.Reach("error")
			return
		}
		vp.Assert(count >= 1, "no value and no error")
		vp.Assert(count <= most, "more values than a run holds")
		vp.Assert(in.Len() < before, "no progress")
	}
	vp.Reach("values")
}
