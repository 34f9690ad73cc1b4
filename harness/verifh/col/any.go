package col

import (
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// some is an arbitrary one of a few numbers: small ones and ones beyond any data.
func some(name string, n int) uint64 {
	big := [...]uint64{1 << 31, 1<<63 - 1, 1<<64 - 1}
	i := vp.Choose(name, n+1+len(big))
	if i <= n {
		return uint64(i)
	}
	return big[i-n-1]
}

// Any: one stream of a column (by number) has arbitrary bytes, or the row index has
// arbitrary positions: reading and seeking never panics and ends.
func Any() {
	root := shape(vp.Param("shape", 0), vp.Param("nulls", 1) != 0)
	id := 1
	root.number(&id)
	rows := vp.Param("rows", 2)
	stride := vp.Param("stride", 0)
	var groups []int
	if stride > 0 {
		for g := 0; g < rows; g += stride {
			groups = append(groups, g)
		}
	}
	root.fill(rows, groups, false)
	root.encode()
	k, bad := 0, vp.Param("bad", -1)
	root.each(func(n *node) {
		for _, s := range n.streams {
			if k == bad {
				s.plain = make([]byte, vp.Param("n", 2))
				for i := range s.plain {
					s.plain[i] = vp.U8(vp.N("b", i))
					switch h := vp.Param(vp.N("h", i), -1); {
					case h >= 0:
						s.plain[i] = byte(h)
					case h == -2:
						s.plain[i] = [...]byte{0, 1, 0x7f, 0x80, 0xff}[vp.Choose(vp.N("e", i), 5)]
					}
				}
			}
			if i := vp.Param("position", -1); k == vp.Param("badpos", -1) && s.pos != nil {
				for g, p := range s.pos {
					if i < len(p) {
						p[i] = some("p", 2)
					} else {
						s.pos[g] = p[:vp.Choose("positions", len(p))]
					}
				}
			}
			k++
		}
	})
	vp.Assert(bad < k, "no such stream")
	build(root, stride > 0)
	for i := 0; i < vp.Param("ops", 2); i++ {
		if stride > 0 && i == vp.Param("seekat", 0) {
			if root.r.SeekStride(vp.Choose("group", 4)) != nil {
				vp.Reach("seek error")
				continue
			}
			if root.r.Skip(some("skip", 2)) != nil {
				vp.Reach("seek error")
				continue
			}
		}
		if root.r.NextBatch(root.vector(vp.Param("batch", 2))) != nil {
			vp.Reach("error")
			continue
		}
		vp.Reach("rows")
	}
	root.r.Close()
}
