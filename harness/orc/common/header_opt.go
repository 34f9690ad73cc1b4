package common

import vp "github.com/patrickhuang888/goorc/verifvp"

// HeaderRound: every length that fits has the header of the specification, and the
// header means that length.
func HeaderRound() {
	l := vp.Range("l", 0, 1<<23-1)
	orig := vp.Bool("orig")
	h := encChunkHeader(l, orig)
	vp.Assert(len(h) == 3, "chunk header is not 3 bytes")
	x := uint64(l)<<1 | vp.Ite64(orig, 1, 0)
	vp.Assert(h[0] == byte(x) && h[1] == byte(x>>8) && h[2] == byte(x>>16), "chunk header is not that of the specification")
	gl, go_ := DecChunkHeader(h)
	vp.Assert(gl == l, "length in chunk header changed")
	vp.Assert(go_ == orig, "original flag in chunk header changed")
	vp.Reach("done")
}
