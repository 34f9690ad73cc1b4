package stm

import (
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// some is an arbitrary one of a few numbers: small ones and ones beyond any data.
func some(name string, n int) uint64 {
	big := [...]uint64{1 << 31, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	i := vp.Choose(name, n+1+len(big))
	if i <= n {
		return uint64(i)
	}
	return big[i-n-1]
}

// Any: a stream reader over any bytes, with any length and start, reads and seeks
// without panic and ends.
func Any() {
	k := vp.Param("kind", 0)
	ro := config.DefaultReaderOptions()
	ro.ChunkSize = uint64(vp.Param("chunk", 4))
	if vp.Param("none", 0) != 0 {
		ro.CompressionKind = pb.CompressionKind_NONE
	}
	n := vp.Param("n", 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N("b", i))
		if h := vp.Param(vp.N("h", i), -1); h >= 0 {
			b[i] = byte(h)
		}
	}
	f := newFile(b)
	start, length := uint64(0), uint64(n)
	if vp.Param("anylen", 0) != 0 {
		length = some("length", n+1)
		start = uint64(vp.Choose("start", 3) * (n + 1) / 2)
	}
	info := &pb.Stream{Length: &length}
	r := newReader(k, &ro, info, int(start), f)
	f.Seek(int64(start), 0)
	for i := 0; i < vp.Param("ops", 2); i++ {
		if vp.Param("seek", 0) != 0 && i == vp.Param("seekat", 0) {
			p := []uint64{some("p0", n+1), 0, 0, 0}
			if vp.Param("seek", 0) > 1 {
				p[1] = some("p1", 2)
				if k < kFloat || k == kDate {
					p[2] = some("p2", 2)
				}
				if k == kBool {
					p[3] = some("p3", 2)
				}
			}
			if r.seek(p) != nil {
				vp.Reach("seek error")
				continue
			}
			vp.Reach("sought")
		}
		r.finished()
		if k == kString {
			l := some(vp.N("len", i), 3)
			s, err := r.str(int(l))
			if err != nil {
				vp.Reach("error")
				continue
			}
			vp.Assert(uint64(len(s)) == l, "other number of bytes than asked for")
		} else if _, err := r.next(); err != nil {
			vp.Reach("error")
			continue
		}
		vp.Assert(length > 0 || k == kString, "value from an empty stream")
		vp.Reach("value")
	}
}
