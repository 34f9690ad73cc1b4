package stm

import (
	"math"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

const (
	kByte = iota
	kBool
	kInt
	kUint
	kFloat
	kDouble
	kVarint
	kDate
	kString
)

// newWriter makes the stream writer of a kind; dates have no writer of their own.
func newWriter(k int, opts *config.WriterOptions) stream.Writer {
	switch k {
	case kByte:
		return stream.NewByteWriter(1, pb.Stream_DATA, opts)
	case kBool:
		return stream.NewBoolWriter(1, pb.Stream_DATA, opts)
	case kInt, kDate:
		return stream.NewIntRLV2Writer(1, pb.Stream_DATA, opts, true)
	case kUint:
		return stream.NewIntRLV2Writer(1, pb.Stream_DATA, opts, false)
	case kFloat:
		return stream.NewFloatWriter(1, pb.Stream_DATA, opts, false)
	case kDouble:
		return stream.NewFloatWriter(1, pb.Stream_DATA, opts, true)
	case kVarint:
		return stream.NewVarint64V2Writer(1, pb.Stream_DATA, opts)
	case kString:
		return stream.NewStringContentsWriter(1, pb.Stream_DATA, opts)
	}
	panic("kind")
}

// rd is a stream reader with values as 64 bits.
type rd struct {
	next     func() (uint64, error)
	str      func(n int) ([]byte, error)
	seek     func(p []uint64) error
	finished func() bool
}

func newReader(k int, opts *config.ReaderOptions, info *pb.Stream, start int, f orcio.File) *rd {
	switch k {
	case kByte:
		r := stream.NewByteReader(opts, info, uint64(start), f)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) { v, err := r.Next(); return uint64(v), err },
			seek: func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }}
	case kBool:
		r := stream.NewBoolReader(opts, info, uint64(start), f)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) {
				v, err := r.Next()
				return vp.Ite64(v, 1, 0), err
			},
			seek: func(p []uint64) error { return r.Seek(p[0], p[1], p[2], p[3]) }}
	case kInt, kUint:
		r := stream.NewIntRLV2Reader(opts, info, uint64(start), k == kInt, f)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) {
				if k == kUint {
					return r.NextUInt64()
				}
				v, err := r.NextInt64()
				return uint64(v), err
			},
			seek: func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }}
	case kFloat, kDouble:
		r := stream.NewFloatReader(opts, info, uint64(start), f, k == kDouble)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) {
				if k == kFloat {
					v, err := r.NextFloat()
					return uint64(math.Float32bits(v)), err
				}
				v, err := r.NextDouble()
				return math.Float64bits(v), err
			},
			seek: func(p []uint64) error { return r.Seek(p[0], p[1]) }}
	case kVarint:
		r := stream.NewVarIntReader(opts, info, uint64(start), f)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) { v, err := r.NextInt64(); return uint64(v), err },
			seek: func(p []uint64) error { return r.Seek(p[0], p[1], 0) }}
	case kDate:
		r := stream.NewDateV2Reader(opts, info, uint64(start), f)
		return &rd{finished: r.Finished,
			next: func() (uint64, error) {
				v, err := r.Next()
				return uint64(time.Time(v).Unix() / 86400), err
			},
			seek: func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }}
	case kString:
		r := stream.NewStringContentsReader(opts, info, uint64(start), f)
		return &rd{finished: r.Finished,
			str:  func(n int) ([]byte, error) { return r.NextBytes(uint64(n)) },
			seek: func(p []uint64) error { return r.Seek(p[0], p[1]) }}
	}
	panic("kind")
}

var _ = api.Date{}

// item is a value of a stream.
type item struct {
	v uint64
	s []byte
}

// sym is an arbitrary value of a kind.
func sym(k int, name string) item {
	switch k {
	case kByte:
		return item{v: uint64(vp.U8(name))}
	case kBool:
		return item{v: vp.Ite64(vp.Bool(name), 1, 0)}
	case kFloat:
		return item{v: uint64(vp.U32(name))}
	case kDouble:
		return item{v: vp.U64(name)}
	case kString:
		n := vp.Choose(name+"l", vp.Param("maxlen", 2)+1)
		s := make([]byte, n)
		for i := range s {
			s[i] = vp.U8(vp.N(name, i))
		}
		return item{s: s}
	case kVarint:
		switch w := vp.Param("w", 8); {
		case w == 64:
			return item{v: vp.U64(name)}
		default:
			return item{v: uint64(int64(vp.I8(name)))}
		}
	}
	// run lengths: a small domain
	lo, span := vp.Param("lo", 0), vp.Param("span", 3)
	return item{v: uint64(int64(vp.Range(name, 0, span-1) + lo))}
}

// fixed is the i-th value of a fixed pattern: copies, literals, or steps of one.
func fixed(k, i int) item {
	x := 0
	switch vp.Param("prekind", 0) {
	case 0:
		x = 1
	case 1:
		x = i*7%5 + i%2*100
	case 2:
		x = i
	}
	switch k {
	case kByte:
		return item{v: uint64(byte(x))}
	case kBool:
		return item{v: uint64(x & 1)}
	case kString:
		s := make([]byte, x%4)
		for j := range s {
			s[j] = byte(x + j)
		}
		return item{s: s}
	}
	return item{v: uint64(x)}
}

func value(k int, it item) interface{} {
	switch k {
	case kByte:
		return byte(it.v)
	case kBool:
		return it.v == 1
	case kInt, kDate:
		return int64(it.v)
	case kUint:
		return it.v
	case kFloat:
		return math.Float32frombits(uint32(it.v))
	case kDouble:
		return math.Float64frombits(it.v)
	case kVarint:
		return int64(it.v)
	case kString:
		return it.s
	}
	panic("kind")
}

func options() (*config.WriterOptions, *config.ReaderOptions) {
	wo, ro := config.DefaultWriterOptions(), config.DefaultReaderOptions()
	wo.ChunkSize = vp.Param("chunk", 256)
	if vp.Param("chunks", 0) != 0 { // any chunk size
		wo.ChunkSize = 1 + vp.Choose("chunk", vp.Param("chunks", 0))
	}
	wo.WriteIndex = true
	if vp.Param("none", 0) != 0 {
		wo.CompressionKind = pb.CompressionKind_NONE
	}
	ro.ChunkSize, ro.CompressionKind = uint64(wo.ChunkSize), wo.CompressionKind
	return &wo, &ro
}

// positions are the arguments of Seek for a recorded position: without compression
// there is no chunk, column readers give a zero for it.
func positions(p []uint64) []uint64 {
	if vp.Param("none", 0) != 0 {
		return append([]uint64{0}, p...)
	}
	return p
}

// written writes values to a stream, several times if the writer is used for several
// stripes, and returns the last stream, its place and all positions.
func written(k int, its []item, wo *config.WriterOptions) (f *file, start int, info *pb.Stream, pos [][]uint64) {
	f = newFile(nil)
	w := newWriter(k, wo)
	put := func(its []item) {
		pos = nil
		for i := 0; i < vp.Param("start", 3); i++ {
			f.Write([]byte{0xff})
		}
		start = len(*f.data)
		for _, it := range its {
			pos = append(pos, append([]uint64(nil), w.GetPosition()...))
			vp.Assert(w.Write(value(k, it)) == nil, "stream writer returned an error")
		}
		pos = append(pos, append([]uint64(nil), w.GetPosition()...))
		vp.Assert(w.Flush() == nil, "flush returned an error")
		info = &pb.Stream{Length: new(uint64)}
		*info.Length = w.Info().GetLength()
		n, err := w.WriteOut(f)
		vp.Assert(err == nil, "write out returned an error")
		vp.Assert(uint64(n) == *info.Length && len(*f.data)-start == int(n), "stream length differs from bytes written")
		for i := 0; i < vp.Param("start", 3); i++ {
			f.Write([]byte{0xff})
		}
		w.Reset()
	}
	for s := 1; s < vp.Param("stripes", 1); s++ { // other streams of the same writer
		var before []item
		for i := 0; i < vp.Param("before", 3); i++ {
			if vp.Param("beforesym", 0) != 0 {
				before = append(before, sym(k, vp.N("before", i)))
			} else {
				before = append(before, fixed(k, i))
			}
		}
		put(before)
	}
	put(its)
	return
}

func read(k int, r *rd, its []item, n int) {
	ok := true
	for i := 0; i < n; i++ {
		if k == kString {
			s, err := r.str(len(its[i].s))
			vp.Assert(err == nil, "string reader returned an error")
			vp.Assert(len(s) == len(its[i].s), "string has another length")
			for j := range s {
				ok = vp.And(ok, s[j] == its[i].s[j])
			}
			continue
		}
		v, err := r.next()
		vp.Assert(err == nil, "reader returned an error")
		ok = vp.And(ok, v == its[i].v)
	}
	vp.Assert(ok, "values are not those written")
}

// Seek: any values through a stream writer and reader; positions of any value lead to it.
func Seek() {
	k := vp.Param("kind", 0)
	wo, ro := options()
	var its []item
	for i := 0; i < vp.Param("pre", 0); i++ {
		its = append(its, fixed(k, i))
	}
	for i := 0; i < vp.Param("n", 3); i++ {
		its = append(its, sym(k, vp.N("v", i)))
	}
	for i := 0; i < vp.Param("post", 0); i++ {
		its = append(its, fixed(k, i))
	}
	f, start, info, pos := written(k, its, wo)
	r := newReader(k, ro, info, start, f)

	total := len(its)
	at := []int{}
	if total <= 12 {
		for i := 0; i <= total; i++ {
			at = append(at, i)
		}
	} else {
		p := vp.Param("pre", 0)
		for _, i := range []int{0, 1, 3, 8, 127, 128, 129, 130, 131, 511, 512, 513, 514, p - 1, p, p + 1, p + 2, total - 1, total} {
			dup := i < 0 || i > total
			for _, j := range at {
				dup = dup || i == j
			}
			if !dup {
				at = append(at, i)
			}
		}
	}
	_, err := f.Seek(int64(start), 0)
	vp.Assert(err == nil, "seek of file failed")
	here := 0
	for s := 0; s < vp.Param("seeks", 1); s++ {
		left := total - here
		if left > 2 {
			left = 2
		}
		n := vp.Choose(vp.N("read", s), 3)
		vp.Assume(n <= left)
		read(k, r, its[here:], n)
		here = at[vp.Choose(vp.N("at", s), len(at))]
		vp.Assert(r.seek(positions(pos[here])) == nil, "seek returned an error")
	}
	read(k, r, its[here:], total-here)
	if k == kBool {
		for i := total; i%8 != 0; i++ {
			_, err := r.next()
			vp.Assert(err == nil, "bits of last byte missing")
		}
	}
	vp.Assert(r.finished(), "reader is not finished after the last value")
	if k != kString {
		_, err = r.next()
		vp.Assert(err != nil, "reader returns more values than written")
	}
	vp.Reach("done")
}
