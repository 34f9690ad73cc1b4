package stm

import (
	"bytes"

	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// HeaderAny: any 3 bytes mean what the specification says.
func HeaderAny() {
	h := []byte{vp.U8("h0"), vp.U8("h1"), vp.U8("h2")}
	l, orig := common.DecChunkHeader(h)
	x := uint64(h[0]) | uint64(h[1])<<8 | uint64(h[2])<<16
	vp.Assert(uint64(l) == x>>1, "length of chunk header")
	vp.Assert(orig == (x&1 == 1), "original flag of chunk header")
	vp.Reach("done")
}

// ChunkSizes: exactly the chunk sizes whose lengths fit in a header are accepted.
func ChunkSizes() {
	o := config.DefaultWriterOptions()
	o.ChunkSize = int(vp.I64("size"))
	err := config.CheckChunkSize(&o)
	if o.ChunkSize > 0 && o.ChunkSize < 1<<23 {
		vp.Assert(err == nil, "usable chunk size rejected")
		vp.Reach("valid")
	} else {
		vp.Assert(err != nil, "chunk size accepted whose lengths do not fit in chunk headers")
		vp.Reach("invalid")
	}
}

// refChunks reads chunks as the specification defines them.
func refChunks(b []byte, chunk int) (data []byte) {
	for at := 0; at < len(b); {
		vp.Assert(at+3 <= len(b), "chunk header cut")
		x := vp.Conc(int(b[at]) | int(b[at+1])<<8 | int(b[at+2])<<16)
		at += 3
		l := x >> 1
		vp.Assert(at+l <= len(b), "chunk longer than the data")
		vp.Assert(l > 0, "empty chunk")
		c := b[at : at+l]
		if x&1 == 0 {
			out := &bytes.Buffer{}
			_, err := common.Decompress(pb.CompressionKind_ZLIB, out, bytes.NewBuffer(append([]byte(nil), c...)))
			vp.Assert(err == nil, "chunk does not decompress")
			vp.Assert(l <= out.Len(), "compressed chunk is longer than its data")
			c = out.Bytes()
		}
		vp.Assert(len(c) <= chunk, "chunk holds more than the chunk size")
		data = append(data, c...)
		at += l
	}
	return
}

func someBytes(n int, name string) []byte {
	b := make([]byte, n)
	sym := vp.Param("sym", 6)
	for i := range b {
		b[i] = byte(i * 7)
		if i < sym/2 || i >= n-(sym-sym/2) {
			b[i] = vp.U8(vp.N(name, i))
		}
	}
	return b
}

func same(a, b []byte, msg string) {
	vp.Assert(len(a) == len(b), msg+": length")
	ok := true
	for i := range a {
		ok = vp.And(ok, a[i] == b[i])
	}
	vp.Assert(ok, msg)
}

// Framing: data given in pieces comes back from the chunks it is cut to.
func Framing() {
	kind := pb.CompressionKind_ZLIB
	if vp.Param("none", 0) != 0 {
		kind = pb.CompressionKind_NONE
	}
	chunk := vp.Param("chunk", 4)
	if m := vp.Param("chunks", 0); m > 0 {
		chunk = 1 + vp.Choose("chunk", m)
	}
	n := vp.Param("n", 6)
	if vp.Param("anylen", 0) != 0 {
		n = vp.Choose("n", n+1)
	}
	data := someBytes(n, "d")
	src, dst := &bytes.Buffer{}, &bytes.Buffer{}
	at := 0
	for i := 0; i < vp.Param("pieces", 1)-1; i++ {
		to := vp.Choose(vp.N("cut", i), vp.Param("n", 6)+1)
		vp.Assume(to >= at && to <= n)
		src.Write(data[at:to])
		vp.Assert(common.CompressingChunks(kind, chunk, dst, src) == nil, "compressing returned an error")
		vp.Assert(src.Len() <= chunk, "more than a chunk left")
		at = to
	}
	src.Write(data[at:])
	if src.Len() > 0 {
		vp.Assert(common.CompressingAllInChunks(kind, chunk, dst, src) == nil, "compressing returned an error")
	}
	vp.Assert(src.Len() == 0, "data left")
	out := append([]byte(nil), dst.Bytes()...)
	if kind == pb.CompressionKind_NONE {
		same(data, out, "data changed")
		vp.Reach("done")
		return
	}
	same(data, refChunks(out, chunk), "chunks hold other data")
	got := &bytes.Buffer{}
	vp.Assert(common.DecompressChunks(kind, got, bytes.NewBuffer(append([]byte(nil), out...))) == nil, "decompressing returned an error")
	same(data, got.Bytes(), "data changed")
	vp.Reach("done")
}

// Pieces: data through a stream writer in pieces and a stream reader in other pieces.
func Pieces() {
	wo, ro := options()
	wo.WriteIndex = false
	n := vp.Param("n", 6)
	data := someBytes(n, "d")
	w := stream.NewStringContentsWriter(1, pb.Stream_DATA, wo)
	at := 0
	for i := 0; i < vp.Param("writes", 2)-1; i++ {
		to := vp.Choose(vp.N("cut", i), n+1)
		vp.Assume(to >= at)
		vp.Assert(w.Write(data[at:to]) == nil, "write returned an error")
		at = to
	}
	vp.Assert(w.Write(data[at:]) == nil, "write returned an error")
	vp.Assert(w.Flush() == nil, "flush returned an error")
	f := newFile(nil)
	f.Write([]byte{1, 2, 3})
	_, err := w.WriteOut(f)
	vp.Assert(err == nil, "write out returned an error")
	if vp.Param("none", 0) == 0 {
		same(data, refChunks((*f.data)[3:], wo.ChunkSize), "chunks hold other data")
	} else {
		same(data, (*f.data)[3:], "stream holds other data")
	}
	info := &pb.Stream{Length: new(uint64)}
	*info.Length = w.Info().GetLength()
	f.Write([]byte{1, 2, 3}) // another stream
	r := stream.NewStringContentsReader(ro, info, 3, f)
	f.Seek(3, 0)
	at = 0
	for i := 0; i < vp.Param("reads", 2)-1; i++ {
		to := vp.Choose(vp.N("rcut", i), n+1)
		vp.Assume(to >= at)
		b, err := r.NextBytes(uint64(to - at))
		vp.Assert(err == nil, "read returned an error")
		same(data[at:to], b, "data changed")
		at = to
	}
	b, err := r.NextBytes(uint64(n - at))
	vp.Assert(err == nil, "read returned an error")
	same(data[at:], b, "data changed")
	vp.Assert(r.Finished(), "stream is not finished after its last byte")
	_, err = r.NextBytes(1)
	vp.Assert(err != nil, "stream returns more than was written")
	vp.Reach("done")
}
