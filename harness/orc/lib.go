package orc

import (
	"errors"
	"io"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// ---- an in-memory file

type vfStore struct{ data []byte }

type vfFile struct {
	s   *vfStore
	off int
}

func vfNewFile() *vfFile { return &vfFile{s: &vfStore{}} }

func (f *vfFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= len(f.s.data) {
		return 0, io.EOF
	}
	n := copy(p, f.s.data[f.off:])
	f.off += n
	return n, nil
}

func (f *vfFile) Seek(off int64, whence int) (int64, error) {
	if whence != io.SeekStart {
		return 0, errors.New("whence")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.off = int(off)
	return off, nil
}

func (f *vfFile) Close() error { return nil }

func (f *vfFile) Write(p []byte) (int, error) {
	f.s.data = append(f.s.data, p...)
	return len(p), nil
}

func (f *vfFile) Size() (int64, error)       { return int64(len(f.s.data)), nil }
func (f *vfFile) Clone() (orcio.File, error) { return &vfFile{s: f.s}, nil }
func (f *vfFile) reopen() *vfFile            { return &vfFile{s: f.s} }

// ---- column kinds

const (
	vfShort = iota
	vfInt
	vfLong
	vfByte
	vfBool
	vfFloat
	vfDouble
	vfString
	vfBinary
	vfDate
	vfTimestamp
	vfDecimal
	vfDict
	vfChar
	vfVarchar
	vfKinds
)

var vfKind = [...]pb.Type_Kind{pb.Type_SHORT, pb.Type_INT, pb.Type_LONG, pb.Type_BYTE, pb.Type_BOOLEAN, pb.Type_FLOAT, pb.Type_DOUBLE,
	pb.Type_STRING, pb.Type_BINARY, pb.Type_DATE, pb.Type_TIMESTAMP, pb.Type_DECIMAL, pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR}

func vfEncoding(k int) pb.ColumnEncoding_Kind {
	switch k {
	case vfByte, vfBool, vfFloat, vfDouble:
		return pb.ColumnEncoding_DIRECT
	case vfDict:
		return pb.ColumnEncoding_DICTIONARY_V2
	}
	return pb.ColumnEncoding_DIRECT_V2
}

func vfOpts() *config.WriterOptions {
	o := config.DefaultWriterOptions()
	if vp.Param("none", 0) != 0 {
		o.CompressionKind = pb.CompressionKind_NONE
	}
	o.ChunkSize = vp.Param("chunk", 400)
	o.StripeSize = vp.Param("stripe", 1000000)
	o.WriteIndex = vp.Param("index", 0) != 0
	o.IndexStride = vp.Param("stride", 1000)
	return &o
}

// vfVal is an arbitrary value of the kind (from a small domain: the value
// encodings have their own harnesses).
func vfVal(k int, name string) interface{} {
	switch k {
	case vfShort:
		return int16(vfSmall(name))
	case vfInt:
		return int32(vfSmall(name))
	case vfLong:
		return int64(vfSmall(name))
	case vfByte:
		return vp.U8(name)
	case vfBool:
		return vp.Bool(name)
	case vfFloat:
		if vp.Param("fsmall", 0) != 0 {
			return [4]float32{0, -1.5, 3e38, vfF32(0x7fc00001)}[vp.Range(name, 0, 3)]
		}
		return vfF32(vp.U32(name))
	case vfDouble:
		if vp.Param("fsmall", 0) != 0 {
			return [4]float64{0, -1.5, 3e300, vfF64(0x7ff8000000000001)}[vp.Range(name, 0, 3)]
		}
		return vfF64(vp.U64(name))
	case vfString, vfDict, vfChar, vfVarchar:
		return string(vfBytes(name))
	case vfBinary:
		return vfBytes(name)
	case vfDate:
		return api.FromDays(int32(vfSmall(name)))
	case vfTimestamp:
		return api.Timestamp{Loc: time.UTC, Seconds: int64(vfSmall(name)), Nanos: uint64(vp.Range(name+"n", 0, 3))}
	case vfDecimal:
		p, s := vfSmall(name), vp.Range(name+"s", 0, 3)
		if vp.Param("conc", 0) != 0 {
			p, s = vp.Conc(p), vp.Conc(s)
		}
		return api.Decimal64{Precision: int64(p) * int64(vp.Param("dmul", 1)), Scale: s}
	}
	panic("kind")
}

// vfSmall is an arbitrary integer of 2*span values around zero.
func vfSmall(name string) int {
	s := vp.Param("span", 2)
	return vp.Range(name, 0, 2*s-1) - s
}

func vfBytes(name string) []byte {
	n := vp.Choose(name+"len", vp.Param("maxlen", 2)+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N(name, i))
	}
	return b
}

// vfSame compares a value read with the value written.
func vfSame(k int, w, r interface{}) bool {
	switch k {
	case vfShort:
		a, b := w.(int16), int16(0)
		b, ok := r.(int16)
		return ok && a == b
	case vfInt:
		b, ok := r.(int32)
		return ok && w.(int32) == b
	case vfLong:
		b, ok := r.(int64)
		return ok && w.(int64) == b
	case vfByte:
		b, ok := r.(byte)
		return ok && w.(byte) == b
	case vfBool:
		b, ok := r.(bool)
		return ok && w.(bool) == b
	case vfFloat:
		b, ok := r.(float32)
		return ok && vfB32(w.(float32)) == vfB32(b)
	case vfDouble:
		b, ok := r.(float64)
		return ok && vfB64(w.(float64)) == vfB64(b)
	case vfString, vfDict, vfChar, vfVarchar:
		b, ok := r.(string)
		return ok && w.(string) == b
	case vfBinary:
		b, ok := r.([]byte)
		return ok && string(w.([]byte)) == string(b)
	case vfDate:
		b, ok := r.(api.Date)
		return ok && api.ToDays(w.(api.Date)) == api.ToDays(b)
	case vfTimestamp:
		b, ok := r.(api.Timestamp)
		a := w.(api.Timestamp)
		return ok && a.Seconds == b.Seconds && a.Nanos == b.Nanos
	case vfDecimal:
		b, ok := r.(api.Decimal64)
		a := w.(api.Decimal64)
		return ok && a.Precision == b.Precision && a.Scale == b.Scale
	}
	panic("kind")
}
