package orc

import (
	"math"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

func vfF32(x uint32) float32 { return math.Float32frombits(x) }
func vfF64(x uint64) float64 { return math.Float64frombits(x) }
func vfB32(x float32) uint32 { return math.Float32bits(x) }
func vfB64(x float64) uint64 { return math.Float64bits(x) }

// vfData is what is written: a schema tree without lists and maps, and a value
// for every column and row.
type vfData struct {
	root    *api.TypeDescription
	schemas []*api.TypeDescription
	kinds   []int // of a column, -1 struct
	cells   [][]api.Value
	rows    int
}

func vfPrim(k int, nulls bool) *api.TypeDescription {
	return &api.TypeDescription{Kind: vfKind[k], Encoding: vfEncoding(k), HasNulls: nulls}
}

func vfStruct(nulls bool) *api.TypeDescription {
	return &api.TypeDescription{Kind: pb.Type_STRUCT, Encoding: pb.ColumnEncoding_DIRECT, HasNulls: nulls}
}

// vfShape builds the schema named by the parameters:
// (7 and 8 see below)
// shape 0 the bare column, 1 struct{c0}, 2 struct{c0,c1}, 3 struct with nulls{c0,c1},
// 4 struct{struct with nulls{c0},c1}, 5 struct with nulls{struct{c0,c1}}, 6 struct{string,c0}
func vfShape() *vfData {
	k0 := vp.Param("kind", vfInt)
	k1 := vp.Param("kind1", vfString)
	n0 := vp.Param("nulls", 0) != 0
	n1 := vp.Param("nulls1", 0) != 0
	d := &vfData{rows: vp.Param("rows", 3)}
	switch vfShapeNo() {
	case 0:
		d.root = vfPrim(k0, n0)
		d.kinds = []int{k0}
	case 1:
		d.root = vfStruct(false)
		d.root.AddChild("a", vfPrim(k0, n0))
		d.kinds = []int{-1, k0}
	case 2:
		d.root = vfStruct(false)
		d.root.AddChild("a", vfPrim(k0, n0))
		d.root.AddChild("b", vfPrim(k1, n1))
		d.kinds = []int{-1, k0, k1}
	case 3:
		d.root = vfStruct(true)
		d.root.AddChild("a", vfPrim(k0, false))
		d.root.AddChild("b", vfPrim(k1, false))
		d.kinds = []int{-1, k0, k1}
	case 4:
		d.root = vfStruct(false)
		in := vfStruct(true)
		in.AddChild("a", vfPrim(k0, false))
		d.root.AddChild("s", in)
		d.root.AddChild("b", vfPrim(k1, n1))
		d.kinds = []int{-1, -1, k0, k1}
	case 5:
		d.root = vfStruct(true)
		in := vfStruct(false)
		in.AddChild("a", vfPrim(k0, false))
		in.AddChild("b", vfPrim(k1, false))
		d.root.AddChild("s", in)
		d.kinds = []int{-1, -1, k0, k1}
	case 7: // struct{a, struct{b,c}, d}
		d.root = vfStruct(false)
		in := vfStruct(false)
		in.AddChild("a", vfPrim(k0, n0))
		in.AddChild("b", vfPrim(k1, n1))
		d.root.AddChild("x", vfPrim(k1, n1))
		d.root.AddChild("s", in)
		d.root.AddChild("y", vfPrim(k0, n0))
		d.kinds = []int{-1, k1, -1, k0, k1, k0}
	case 8: // struct{struct with nulls{struct{a}, b}, c}
		d.root = vfStruct(false)
		out, in := vfStruct(true), vfStruct(false)
		in.AddChild("a", vfPrim(k0, false))
		out.AddChild("in", in)
		out.AddChild("b", vfPrim(k1, false))
		d.root.AddChild("s", out)
		d.root.AddChild("y", vfPrim(k1, n1))
		d.kinds = []int{-1, -1, -1, k0, k1, k1}
	case 6:
		d.root = vfStruct(false)
		d.root.AddChild("a", vfPrim(vfString, false))
		d.root.AddChild("b", vfPrim(k0, n0))
		d.kinds = []int{-1, vfString, k0}
	}
	if err := api.NormalizeSchema(d.root); err != nil {
		vp.Assert(false, "schema rejected")
	}
	var err error
	if d.schemas, err = d.root.Flat(); err != nil {
		vp.Assert(false, "schema not flat")
	}
	return d
}

// vfShapeNo: stripes end when encoded data is large enough, the string column of
// shape 6 decides that and not what is buffered in the encoders of the kind.
func vfShapeNo() int {
	s := vp.Param("shape", 0)
	if s == 0 && vp.Param("stripe", 0) != 0 {
		return 6
	}
	return s
}

// vfPrefix tells the variables of several data sets apart.
var vfPrefix string

// vfGen makes the rows: values are arbitrary in the window [sv,sv+nv) and nulls in
// [sn,sn+nn), elsewhere they are a fixed function of the row.
func vfGen() *vfData {
	d := vfShape()
	d.cells = make([][]api.Value, len(d.schemas))
	for id := range d.cells {
		d.cells[id] = make([]api.Value, d.rows)
	}
	d.fill(d.root, nil)
	return d
}

func vfWindow(i int, start, n string) bool {
	s := vp.Param(start, 0)
	return i >= s && i < s+vp.Param(n, 1000000)
}

func (d *vfData) fill(s *api.TypeDescription, parent []api.Value) {
	id := int(s.Id)
	for i := 0; i < d.rows; i++ {
		c := &d.cells[id][i]
		if s.HasNulls {
			if vfWindow(i, "sn", "nn") {
				c.Null = vp.Bool(vp.N(vp.N(vfPrefix+"null", id), i))
			} else {
				c.Null = i%vp.Param("nullmod", 3) == 1
			}
		} else if parent != nil && parent[i].Null {
			c.Null = true
			if d.kinds[id] >= 0 && vp.Param("garbage", 0) != 0 {
				c.V = vfFixed(d.kinds[id], i)
			}
		}
		if d.kinds[id] >= 0 && !c.Null {
			if vfWindow(i, "sv", "nv") && !(id == 1 && vfShapeNo() == 6) {
				c.V = vfVal(d.kinds[id], vp.N(vp.N(vfPrefix+"v", id), i))
			} else {
				c.V = vfFixed(d.kinds[id], i)
			}
		}
	}
	for _, ch := range s.Children {
		d.fill(ch, d.cells[id])
	}
}

// absent tells whether an ancestor of a column is null in a row.
func (d *vfData) absent(id, row int) bool {
	for p, s := range d.schemas {
		for _, c := range s.Children {
			if int(c.Id) == id {
				return d.cells[p][row].Null || d.absent(p, row)
			}
		}
	}
	return false
}

// vfFixed is the value of row i outside the window.
func vfFixed(k int, i int) interface{} {
	x := i / vp.Param("rep", 1) * vp.Param("mul", 7) % vp.Param("mod", 61)
	switch k {
	case vfShort:
		return int16(x - 20)
	case vfInt:
		return int32(x - 20)
	case vfLong:
		return int64(x - 20)
	case vfByte:
		return byte(x)
	case vfBool:
		return x%2 == 0
	case vfFloat:
		return float32(x)
	case vfDouble:
		return float64(x)
	case vfString, vfDict, vfChar, vfVarchar:
		return string(make([]byte, x%3)) + string([]byte{byte('a' + x%26)})
	case vfBinary:
		return make([]byte, x%4)
	case vfDate:
		return api.FromDays(int32(x - 20))
	case vfTimestamp:
		return api.Timestamp{Seconds: int64(x - 20), Nanos: uint64(x%3) * 1000}
	case vfDecimal:
		return api.Decimal64{Precision: int64(x - 20), Scale: x % 3}
	}
	panic("kind")
}

// vfFill puts rows [from,to) in the vector.
func (d *vfData) vfFill(vec *api.ColumnVector, from, to int) {
	if vec.Vector != nil || len(vec.Children) == 0 {
		vec.Vector = append(vec.Vector[:0], d.cells[vec.Id][from:to]...)
		for i := range vec.Vector { // a value inside of a null struct that the user did not clear
			if vec.Vector[i].V != nil {
				vec.Vector[i].Null = false
			}
		}
	}
	for _, c := range vec.Children {
		d.vfFill(c, from, to)
	}
}

// vfWrite writes all the rows in batches of wbatch.
func (d *vfData) vfWrite(f *vfFile) {
	w, err := newWriter(d.root, vfOpts(), f)
	if err != nil {
		vp.Assert(false, "writer creation failed")
	}
	wb := vp.Param("wbatch", 1000000)
	for at := 0; at < d.rows; {
		n := wb
		if at+n > d.rows {
			n = d.rows - at
		}
		vec, err := d.root.CreateVector(&api.BatchOption{RowSize: n})
		if err != nil {
			vp.Assert(false, "vector creation failed")
		}
		d.vfFill(vec, at, at+n)
		if err := w.Write(vec); err != nil {
			vp.Assert(false, "write failed")
		}
		at += n
	}
	if err := w.Close(); err != nil {
		vp.Assert(false, "close failed")
	}
}

// vfCheck asserts that the rows of the vector are rows [at, at+len) as written.
func (d *vfData) vfCheck(vec *api.ColumnVector, at, n int) {
	id := vec.Id
	if vec.Vector != nil || d.kinds[id] >= 0 {
		vp.Assert(len(vec.Vector) == n, "columns of a batch have different lengths")
		for i := 0; i < n; i++ {
			g, w := vec.Vector[i], d.cells[id][at+i]
			vp.Assert(g.Null == w.Null, "null flag changed")
			if !g.Null && d.kinds[id] >= 0 {
				vp.Assert(vfSame(d.kinds[id], w.V, g.V), "value changed")
			}
			if g.Null && d.kinds[id] >= 0 {
				vp.Assert(g.V == nil, "null row has a value")
			}
		}
	}
	for _, c := range vec.Children {
		d.vfCheck(c, at, n)
	}
}

func vfOpen(f *vfFile) Reader {
	r, err := newReader(f.reopen())
	if err != nil {
		vp.Assert(false, "file rejected")
	}
	return r
}

func vfBatchReader(r Reader, size int, inc ...uint32) (BatchReader, *api.ColumnVector) {
	o := &api.BatchOption{RowSize: size, Includes: inc}
	br, err := r.CreateBatchReader(o)
	if err != nil {
		vp.Assert(false, "batch reader creation failed")
	}
	v, err := r.GetSchema().CreateVector(o)
	if err != nil {
		vp.Assert(false, "read vector creation failed")
	}
	return br, v
}

func vfBatch() int {
	b := vp.Param("batch", 2)
	if b == 0 {
		b = 1 + vp.Choose("batch", vp.Param("rows", 3)+1)
	}
	return b
}

// vfReadAll reads the file from the current position to its end.
func (d *vfData) vfReadAll(br BatchReader, vec *api.ColumnVector, n int) int {
	for k := 0; k < d.rows+2; k++ {
		end, err := br.Next(vec)
		if err != nil {
			vp.Assert(false, "read failed")
		}
		l := vec.Len()
		vp.Assert(n+l <= d.rows, "more rows read than written")
		d.vfCheck(vec, n, l)
		n += l
		vp.Assert(end == (n == d.rows), "end reported at the wrong row")
		if end {
			break
		}
		vp.Assert(l > 0, "empty batch before the end")
	}
	return n
}
