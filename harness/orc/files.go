package orc

import (
	"errors"
	"io"

	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// VfBatches: whatever the capacity of the vector of every read, the rows come in order.
func VfBatches() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	r := vfOpen(f)
	max := vp.Param("maxcap", d.rows+1)
	br, _ := vfBatchReader(r, max)
	vecs := make([]*api.ColumnVector, max+1)
	n := 0
	for k := 0; k <= d.rows+1; k++ {
		size := 1 + vp.Choose(vp.N("cap", k), max)
		if vecs[size] == nil {
			v, err := r.GetSchema().CreateVector(&api.BatchOption{RowSize: size})
			vp.Assert(err == nil, "read vector creation failed")
			vecs[size] = v
		}
		vec := vecs[size]
		end, err := br.Next(vec)
		vp.Assert(err == nil, "read failed")
		l := vec.Len()
		vp.Assert(l <= size, "batch exceeds its capacity")
		vp.Assert(n+l <= d.rows, "more rows read than written")
		vp.Assert(l > 0 || n == d.rows, "empty batch before the end")
		d.vfCheck(vec, n, l)
		n += l
		vp.Assert(end == (n == d.rows), "end reported at the wrong row")
		if l == 0 {
			break
		}
	}
	vp.Assert(n == d.rows, "rows lost")
	vp.Assert(r.NumberOfRows() == uint64(d.rows), "number of rows of the reader")
	br.Close()
	r.Close()
	vp.Reach("end")
}

// VfDirty: what a batch held before it is filled does not matter.
func VfDirty() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	r := vfOpen(f)
	br, vec := vfBatchReader(r, vfBatch())
	n := 0
	for k := 0; k < d.rows+2 && n < d.rows; k++ {
		vfDirt(vec)
		end, err := br.Next(vec)
		vp.Assert(err == nil, "read failed")
		l := vec.Len()
		vp.Assert(l > 0 && n+l <= d.rows, "number of rows read")
		d.vfCheck(vec, n, l)
		n += l
		vp.Assert(end == (n == d.rows), "end reported at the wrong row")
	}
	vp.Assert(n == d.rows, "rows lost")
	vp.Reach("end")
}

// vfDirt leaves garbage in every slot of the vector.
func vfDirt(vec *api.ColumnVector) {
	all := vec.Vector[:cap(vec.Vector)]
	for i := range all {
		all[i] = api.Value{Null: i%2 == 0, V: "garbage"}
	}
	for _, c := range vec.Children {
		vfDirt(c)
	}
}

// vfMask chooses a set of columns that is a tree.
func vfMask(d *vfData) []uint32 {
	in := make([]bool, len(d.schemas))
	var inc []uint32
	var walk func(s *api.TypeDescription) bool
	walk = func(s *api.TypeDescription) bool {
		if len(s.Children) == 0 {
			in[s.Id] = vp.Choose(vp.N("inc", int(s.Id)), 2) == 1
			return in[s.Id]
		}
		for _, c := range s.Children {
			if walk(c) {
				in[s.Id] = true
			}
		}
		return in[s.Id]
	}
	vp.Assume(walk(d.root))
	for i := range in {
		j := i
		if vp.Param("rev", 0) != 0 {
			j = len(in) - 1 - i
		}
		if in[j] {
			inc = append(inc, uint32(j))
		}
	}
	return inc
}

func vfCount(vec *api.ColumnVector) int {
	n := 1
	for _, c := range vec.Children {
		n += vfCount(c)
	}
	return n
}

// VfProject: reading some of the columns gives exactly their rows, also after a seek.
func VfProject() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	inc := vfMask(d)
	r := vfOpen(f)
	if vp.Param("unknown", 0) != 0 {
		o := &api.BatchOption{RowSize: 2, Includes: append(inc, uint32(len(d.schemas)+vp.Choose("unknown", 2)))}
		_, err := r.CreateBatchReader(o)
		vp.Assert(err != nil, "projection of a column that does not exist")
		vp.Reach("end")
		return
	}
	br, vec := vfBatchReader(r, vfBatch(), inc...)
	vp.Assert(vfCount(vec) == len(inc), "columns of the batch differ from the projection")
	at := 0
	if vp.Param("seek", 0) != 0 {
		if vp.Choose("next", 2) == 1 {
			_, err := br.Next(vec)
			vp.Assert(err == nil, "read failed")
			d.vfCheck(vec, 0, vec.Len())
		}
		at = vp.Choose("to", d.rows)
		if err := br.Seek(uint64(at)); err != nil {
			vp.Assert(false, "seek failed")
		}
	}
	n := d.vfReadAll(br, vec, at)
	vp.Assert(n == d.rows, "rows lost")
	vp.Reach("end")
}

// vfFaulty fails at one of its calls.
type vfFaulty struct {
	f  orcio.File
	st *vfFault
}

type vfFault struct {
	calls, at, part int
	reads           int
	hit             bool
}

var vfErrFault = errors.New("injected fault")

func (x *vfFaulty) fail() bool {
	x.st.calls++
	if x.st.calls-1 == x.st.at {
		x.st.hit = true
		return true
	}
	return false
}

func (x *vfFaulty) Read(p []byte) (int, error) {
	x.st.reads++
	if x.fail() {
		n := x.st.part
		if n > len(p) {
			n = len(p)
		}
		n, _ = x.f.Read(p[:n])
		return n, vfErrFault
	}
	return x.f.Read(p)
}

func (x *vfFaulty) Write(p []byte) (int, error) {
	if x.fail() {
		n := x.st.part
		if n > len(p) {
			n = len(p)
		}
		n, _ = x.f.Write(p[:n])
		return n, vfErrFault
	}
	return x.f.Write(p)
}

func (x *vfFaulty) Seek(off int64, whence int) (int64, error) {
	if x.fail() {
		return 0, vfErrFault
	}
	return x.f.Seek(off, whence)
}

func (x *vfFaulty) Close() error {
	if x.fail() {
		return vfErrFault
	}
	return x.f.Close()
}

func (x *vfFaulty) Size() (int64, error) {
	if x.fail() {
		return 0, vfErrFault
	}
	return x.f.Size()
}

func (x *vfFaulty) Clone() (orcio.File, error) {
	if x.fail() {
		return nil, vfErrFault
	}
	c, err := x.f.Clone()
	if err != nil {
		return nil, err
	}
	return &vfFaulty{f: c, st: x.st}, nil
}

// vfTryWrite writes all the rows, the first error ends it.
func (d *vfData) vfTryWrite(f orcio.File) error {
	w, err := newWriter(d.root, vfOpts(), f)
	if err != nil {
		return err
	}
	wb := vp.Param("wbatch", 1000000)
	for at := 0; at < d.rows; {
		n := wb
		if at+n > d.rows {
			n = d.rows - at
		}
		vec, err := d.root.CreateVector(&api.BatchOption{RowSize: n})
		if err != nil {
			return err
		}
		d.vfFill(vec, at, at+n)
		if err := w.Write(vec); err != nil {
			return err
		}
		at += n
	}
	return w.Close()
}

// VfWriteFault: if any call of the file written to fails, writing reports an error.
func VfWriteFault() {
	d := vfGen()
	count := &vfFault{at: -1}
	if err := d.vfTryWrite(&vfFaulty{f: vfNewFile(), st: count}); err != nil {
		vp.Assert(false, "write failed without a fault")
	}
	st := &vfFault{at: vp.Choose(vp.N("at", count.calls), count.calls), part: vp.Choose("part", 2)}
	err := d.vfTryWrite(&vfFaulty{f: vfNewFile(), st: st})
	vp.Assert(st.hit, "fault not reached")
	vp.Assert(err != nil, "a fault while writing was not reported")
	vp.Reach("end")
}

// vfTryRead reads everything; rows read before an error have to be right.
func (d *vfData) vfTryRead(f orcio.File) error {
	r, err := newReader(f)
	if err != nil {
		return err
	}
	o := &api.BatchOption{RowSize: vfBatch()}
	br, err := r.CreateBatchReader(o)
	if err != nil {
		return err
	}
	vec, err := r.GetSchema().CreateVector(o)
	if err != nil {
		return err
	}
	if to := vp.Param("seekto", -1); to >= 0 {
		if _, err := br.Next(vec); err != nil {
			return err
		}
		if err := br.Seek(uint64(to)); err != nil {
			return err
		}
		if err := br.Seek(0); err != nil {
			return err
		}
	}
	n := 0
	for k := 0; ; k++ {
		vp.Assert(k < d.rows+2, "reading does not end")
		end, err := br.Next(vec)
		if err != nil {
			return err
		}
		l := vec.Len()
		vp.Assert(n+l <= d.rows, "more rows read than written")
		d.vfCheck(vec, n, l)
		n += l
		if end {
			break
		}
		vp.Assert(l > 0, "empty batch before the end")
	}
	vp.Assert(n == d.rows, "rows lost without an error")
	br.Close()
	r.Close()
	return nil
}

// VfReadFault: if any call of the file read fails, either an error is reported or all rows are read.
func VfReadFault() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	count := &vfFault{at: -1}
	if err := d.vfTryRead(&vfFaulty{f: f.reopen(), st: count}); err != nil {
		vp.Assert(false, "read failed without a fault")
	}
	st := &vfFault{at: vp.Choose(vp.N("at", count.calls), count.calls), part: vp.Choose("part", 2)}
	d.vfTryRead(&vfFaulty{f: f.reopen(), st: st})
	vp.Assert(st.hit, "fault not reached")
	vp.Reach("end")
}

// vfShortFile returns fewer bytes than asked for, and io.EOF together with the last bytes.
type vfShortFile struct {
	*vfFile
	st *vfShorts
}

type vfShorts struct {
	calls, first, n int
	rest            int
	pat             []int
}

func (x *vfShortFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	c := x.st.calls
	x.st.calls++
	var m int
	if c >= x.st.first && c < x.st.first+x.st.n {
		if x.st.pat[c-x.st.first] < 0 {
			x.st.pat[c-x.st.first] = vp.Choose(vp.N("short", c), 4)
		}
		m = x.st.pat[c-x.st.first]
	} else {
		m = x.st.rest
	}
	n := len(p)
	switch m {
	case 1:
		n = 1
	case 2:
		n = (len(p) + 1) / 2
	}
	n, err := x.vfFile.Read(p[:n])
	if m != 0 && err == nil && x.off == len(x.s.data) {
		return n, io.EOF // allowed with the last bytes
	}
	return n, err
}

func (x *vfShortFile) Clone() (orcio.File, error) {
	return &vfShortFile{vfFile: x.vfFile.reopen(), st: x.st}, nil
}

// VfShort: short reads change nothing.
func VfShort() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	count := &vfFault{at: -1}
	if err := d.vfTryRead(&vfFaulty{f: f.reopen(), st: count}); err != nil {
		vp.Assert(false, "read failed without short reads")
	}
	st := &vfShorts{n: vp.Param("shorts", 2), rest: vp.Param("rest", 0)}
	st.first = vp.Choose(vp.N("first", count.reads), count.reads)
	for i := 0; i < st.n; i++ {
		st.pat = append(st.pat, -1)
	}
	err := d.vfTryRead(&vfShortFile{vfFile: f.reopen(), st: st})
	vp.Assert(err == nil, "reading failed with short reads")
	vp.Reach("end")
}

// VfCut: a cut file is rejected, or at the latest reading it fails.
func VfCut() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	n := len(f.s.data)
	lo, hi := 0, n
	if s := vp.Param("tail", 0); s > 0 && s < n {
		lo = n - s
	}
	cut := lo + vp.Choose(vp.N("cut", hi-lo), hi-lo)
	f.s.data = f.s.data[:cut:cut]
	err := d.vfTryRead(f.reopen())
	vp.Assert(err != nil, "a cut file was read as if it were complete")
	vp.Reach("end")
}

// VfCutStream: a file cut at any place but with its tail kept (bytes are missing in the middle).
func VfHole() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	p := vfParse(f.s.data)
	last := p.stripes[len(p.stripes)-1].info
	dataEnd := int(last.GetOffset() + last.GetIndexLength() + last.GetDataLength())
	from := 3 + vp.Choose(vp.N("from", dataEnd-3), dataEnd-3)
	data := append([]byte{}, f.s.data[:from]...)
	f.s.data = append(data, f.s.data[from+1:]...)
	if d.vfHoleRead(f) {
		vp.Reach("read")
	}
	vp.Reach("end")
}

// vfHoleRead: no panic, and no more rows than written.
func (d *vfData) vfHoleRead(f *vfFile) bool {
	r, err := newReader(f.reopen())
	if err != nil {
		return false
	}
	o := &api.BatchOption{RowSize: vfBatch()}
	br, err := r.CreateBatchReader(o)
	if err != nil {
		return false
	}
	vec, err := r.GetSchema().CreateVector(o)
	if err != nil {
		return false
	}
	n := 0
	for k := 0; ; k++ {
		vp.Assert(k < d.rows+2, "reading does not end")
		end, err := br.Next(vec)
		if err != nil {
			return false
		}
		n += vec.Len()
		vp.Assert(n <= d.rows, "more rows read than written")
		if end {
			return true
		}
	}
}

var _ = pb.Type_INT
