package orc

import (
	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// vfCursor follows one batch reader.
type vfCursor struct {
	d    *vfData
	br   BatchReader
	vec  *api.ColumnVector
	at   int
	name string
	n    int
}

func (c *vfCursor) next() {
	end, err := c.br.Next(c.vec)
	vp.Assert(err == nil, "read failed")
	l := c.vec.Len()
	vp.Assert(c.at+l <= c.d.rows, "more rows read than written")
	vp.Assert(l > 0 || c.at == c.d.rows, "no rows before the end")
	c.d.vfCheck(c.vec, c.at, l)
	c.at += l
	vp.Assert(end == (c.at == c.d.rows), "end reported at the wrong row")
}

func (c *vfCursor) step() {
	c.n++
	if vp.Param("seeks", 1) != 0 && vp.Choose(vp.N(c.name, c.n), 2) == 1 {
		to := vp.Choose(vp.N(c.name+"to", c.n), c.d.rows)
		if err := c.br.Seek(uint64(to)); err != nil {
			vp.Assert(false, "seek failed")
		}
		c.at = to
	}
	c.next()
}

// VfReaders: readers of one file, or batch readers of one reader, do not disturb each other.
func VfReaders() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	r1 := vfOpen(f)
	r2 := r1
	if vp.Param("shared", 0) == 0 {
		r2 = vfOpen(f)
	}
	var c [2]*vfCursor
	for i, r := range []Reader{r1, r2} {
		br, vec := vfBatchReader(r, 1+i)
		c[i] = &vfCursor{d: d, br: br, vec: vec, name: []string{"a", "b"}[i]}
	}
	ops := vp.Param("ops", 3)
	for k := 0; k < ops; k++ {
		c[vp.Choose(vp.N("who", k), 2)].step()
	}
	w := vp.Choose("closed", 2)
	c[w].br.Close()
	if vp.Param("shared", 0) == 0 {
		[]Reader{r1, r2}[w].Close()
	}
	o := c[1-w]
	n := d.vfReadAll(o.br, o.vec, o.at)
	vp.Assert(n == d.rows, "rows lost")
	vp.Reach("end")
}

// vfSteps writes one row at a time.
type vfSteps struct {
	d    *vfData
	w    Writer
	f    *vfFile
	at   int
	done bool
}

func (s *vfSteps) step() {
	if s.w == nil {
		w, err := newWriter(s.d.root, vfOpts(), s.f)
		vp.Assert(err == nil, "writer creation failed")
		s.w = w
		return
	}
	if s.at == s.d.rows {
		vp.Assert(s.w.Close() == nil, "close failed")
		s.done = true
		return
	}
	vec, err := s.d.root.CreateVector(&api.BatchOption{RowSize: 1})
	vp.Assert(err == nil, "vector creation failed")
	s.d.vfFill(vec, s.at, s.at+1)
	vp.Assert(s.w.Write(vec) == nil, "write failed")
	s.at++
}

// VfWriters: writers used in turn write the files they would write alone.
func VfWriters() {
	var s [2]*vfSteps
	for i := range s {
		vfPrefix = []string{"a", "b"}[i]
		s[i] = &vfSteps{d: vfGen(), f: vfNewFile()}
	}
	vfPrefix = ""
	for k := 0; ; k++ {
		w := 0
		if s[0].done && s[1].done {
			break
		} else if s[0].done {
			w = 1
		} else if !s[1].done {
			w = vp.Choose(vp.N("who", k), 2)
		}
		s[w].step()
	}
	for _, x := range s {
		br, vec := vfBatchReader(vfOpen(x.f), vfBatch())
		n := x.d.vfReadAll(br, vec, 0)
		vp.Assert(n == x.d.rows, "rows lost")
		p := vfParse(x.f.s.data)
		for id := range x.d.schemas {
			vfStats(x.d, id, 0, x.d.rows, p.footer.Statistics[id])
		}
	}
	vp.Reach("end")
}

// VfWriteRead: reading one file while writing another disturbs neither.
func VfWriteRead() {
	vfPrefix = "a"
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	vfPrefix = "b"
	s := &vfSteps{d: vfGen(), f: vfNewFile()}
	vfPrefix = ""
	br, vec := vfBatchReader(vfOpen(f), 1)
	c := &vfCursor{d: d, br: br, vec: vec, name: "a"}
	for k := 0; !s.done || c.at < d.rows; k++ {
		w := 0
		if s.done {
			w = 1
		} else if c.at < d.rows {
			w = vp.Choose(vp.N("who", k), 2)
		}
		if w == 0 {
			s.step()
		} else {
			c.next()
		}
	}
	b2, v2 := vfBatchReader(vfOpen(s.f), vfBatch())
	vp.Assert(s.d.vfReadAll(b2, v2, 0) == d.rows, "rows lost")
	vp.Reach("end")
}

// ---- schema

var vfLeafKinds = []pb.Type_Kind{pb.Type_INT, pb.Type_STRING, pb.Type_DATE, pb.Type_DOUBLE}

type vfTree struct {
	left, n int
	lists   bool
}

func (g *vfTree) node(depth int) *api.TypeDescription {
	id := g.n
	g.n++
	kinds := 2
	if g.lists {
		kinds = 4
	}
	k := 0
	if depth > 0 && g.left > 0 {
		k = vp.Choose(vp.N("kind", id), kinds)
	}
	if k == 3 && g.left < 2 {
		k = 2
	}
	switch k {
	case 1:
		t := &api.TypeDescription{Kind: pb.Type_STRUCT, Encoding: pb.ColumnEncoding_DIRECT}
		n := 1 + vp.Choose(vp.N("fan", id), 4)
		vp.Assume(n <= g.left)
		g.left -= n
		for i := 0; i < n; i++ {
			t.AddChild(string(vfBytesN(vp.N(vp.N("name", id), i), 1)), g.node(depth-1))
		}
		return t
	case 2:
		g.left--
		t := &api.TypeDescription{Kind: pb.Type_LIST, Encoding: pb.ColumnEncoding_DIRECT_V2}
		t.Children = append(t.Children, g.node(depth-1))
		return t
	case 3:
		g.left -= 2
		t := &api.TypeDescription{Kind: pb.Type_MAP, Encoding: pb.ColumnEncoding_DIRECT_V2}
		t.Children = append(t.Children, g.node(depth-1), g.node(depth-1))
		return t
	}
	kind := vfLeafKinds[vp.Choose(vp.N("leaf", id), vp.Param("leafs", 2))]
	e := pb.ColumnEncoding_DIRECT_V2
	if kind == pb.Type_DOUBLE {
		e = pb.ColumnEncoding_DIRECT
	}
	t := &api.TypeDescription{Kind: kind, Encoding: e}
	if !g.lists {
		t.HasNulls = vp.Bool(vp.N("nulls", id))
	}
	return t
}

func vfBytesN(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vp.U8(vp.N(name, i))
	}
	return b
}

func vfSameTree(w, r *api.TypeDescription, next *uint32) {
	vp.Assert(r.Kind == w.Kind, "type read differs from the type written")
	vp.Assert(w.Id == *next && r.Id == *next, "column ids are not the pre-order numbers")
	*next++
	vp.Assert(len(r.Children) == len(w.Children), "number of children")
	for i := range w.Children {
		if w.Kind == pb.Type_STRUCT {
			vp.Assert(r.ChildrenNames[i] == w.ChildrenNames[i], "field name read differs from the name written")
		}
		vfSameTree(w.Children[i], r.Children[i], next)
	}
}

// VfSchema: the schema read is the schema written.
func VfSchema() {
	g := &vfTree{left: vp.Param("nodes", 3), lists: vp.Param("lists", 0) != 0}
	root := g.node(vp.Param("depth", 2))
	if vp.Param("unnumbered", 0) != 0 {
		vp.Assume(len(root.Children) > 0)
		_, err := newWriter(root, vfOpts(), vfNewFile())
		vp.Assert(err != nil, "a schema that is not numbered was accepted")
		vp.Reach("end")
		return
	}
	if err := api.NormalizeSchema(root); err != nil {
		vp.Assert(false, "schema rejected")
	}
	f := vfNewFile()
	if g.lists {
		schemas, err := root.Flat()
		if err != nil {
			vp.Assert(false, "schema not flat")
		}
		ft := &pb.Footer{HeaderLength: proto.Uint64(3), ContentLength: proto.Uint64(0), NumberOfRows: proto.Uint64(0), Types: api.SchemasToTypes(schemas)}
		vfRaw(f, nil, ft, pb.CompressionKind_NONE)
	} else {
		w, err := newWriter(root, vfOpts(), f)
		vp.Assert(err == nil, "writer creation failed")
		vec, err := root.CreateVector(&api.BatchOption{RowSize: 1})
		vp.Assert(err == nil, "vector creation failed")
		vfOneRow(root, vec)
		if vp.Param("empty", 0) == 0 {
			vp.Assert(w.Write(vec) == nil, "write failed")
		}
		vp.Assert(w.Close() == nil, "close failed")
	}
	var next uint32
	got := vfOpen(f).GetSchema()
	vfSameTree(root, got, &next)
	if !g.lists {
		vfSameNulls(root, got)
	}
	vec, err := got.CreateVector(&api.BatchOption{RowSize: 2})
	vp.Assert(err == nil, "vector creation from the schema read failed")
	next = 0
	vfSameVec(got, vec, &next)
	vp.Reach("end")
}

func vfSameNulls(w, r *api.TypeDescription) {
	vp.Assert(w.HasNulls == r.HasNulls, "nullability read differs from the one written")
	for i := range w.Children {
		vfSameNulls(w.Children[i], r.Children[i])
	}
}

func vfSameVec(t *api.TypeDescription, v *api.ColumnVector, next *uint32) {
	vp.Assert(v.Id == *next && v.Kind == t.Kind, "vector differs from the schema")
	*next++
	vp.Assert(len(v.Children) == len(t.Children), "number of vectors differs from the schema")
	for i := range t.Children {
		vfSameVec(t.Children[i], v.Children[i], next)
	}
}

func vfOneRow(t *api.TypeDescription, v *api.ColumnVector) {
	if len(t.Children) == 0 {
		var x interface{}
		switch t.Kind {
		case pb.Type_INT:
			x = int32(7)
		case pb.Type_STRING:
			x = "x"
		case pb.Type_DATE:
			x = api.FromDays(3)
		case pb.Type_DOUBLE:
			x = 1.5
		}
		v.Vector[0] = api.Value{V: x, Null: t.HasNulls}
		if t.HasNulls {
			v.Vector[0].V = nil
		}
	}
	for i := range t.Children {
		vfOneRow(t.Children[i], v.Children[i])
	}
}

// vfRaw makes a file of stripe bytes and a footer.
func vfRaw(f *vfFile, body []byte, ft *pb.Footer, kind pb.CompressionKind) {
	b, err := proto.Marshal(ft)
	vp.Assert(err == nil, "marshal")
	magic := "ORC"
	ps := &pb.PostScript{FooterLength: proto.Uint64(uint64(len(b))), Compression: &kind, CompressionBlockSize: proto.Uint64(400), Version: []uint32{0, 12}, Magic: &magic}
	p, err := proto.Marshal(ps)
	vp.Assert(err == nil, "marshal")
	d := append([]byte("ORC"), body...)
	d = append(d, b...)
	d = append(d, p...)
	f.s.data = append(d, byte(len(p)))
}
