package orc

import (
	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

func vfOptU64(name string) *uint64 {
	if vp.Bool(name + "?") {
		return nil
	}
	return proto.Uint64(vp.U64(name))
}

func vfOptU32(name string) *uint32 {
	if vp.Bool(name + "?") {
		return nil
	}
	return proto.Uint32(vp.U32(name))
}

// vfUse opens a file and reads it in every way; results or errors, but no panic.
func (d *vfData) vfUse(f *vfFile) {
	r, err := newReader(f.reopen())
	if err != nil {
		vp.Reach("rejected")
		return
	}
	vp.Reach("opened")
	r.GetSchema()
	r.NumberOfRows()
	r.GetStatistics()
	r.GetReaderOptions()
	o := &api.BatchOption{RowSize: vfBatch()}
	br, err := r.CreateBatchReader(o)
	if err != nil {
		return
	}
	vec, err := r.GetSchema().CreateVector(o)
	if err != nil {
		return
	}
	steps := vp.Param("steps", 3)
	if vp.Param("seek", 1) != 0 && vp.Choose("seek", 2) == 1 {
		if err := br.Seek(uint64(vp.Choose("to", 3))); err != nil {
			return
		}
	}
	for k := 0; k < steps; k++ {
		end, err := br.Next(vec)
		if err != nil {
			return
		}
		vp.Assert(vec.Len() <= vec.Cap(), "batch exceeds its capacity")
		if end {
			break
		}
	}
	vp.Reach("read")
	br.Close()
	r.Close()
}

// vfBuild puts a parsed, changed file together again.
func vfBuild(data []byte, p *vfParsed) *vfFile {
	out := []byte("ORC")
	for _, s := range p.stripes {
		i := s.info
		from := int(i.GetOffset())
		to := from + int(i.GetIndexLength()+i.GetDataLength())
		out = append(out, data[from:to]...)
		b, err := proto.Marshal(s.footer)
		vp.Assert(err == nil, "marshal")
		b = vfStore1(p.ps.GetCompression(), b)
		if s.info.GetFooterLength() != uint64(len(b)) {
			s.info.FooterLength = proto.Uint64(uint64(len(b)))
		}
		out = append(out, b...)
	}
	f := vfNewFile()
	f.s.data = out
	return f
}

// vfStore1 stores bytes as one original chunk.
func vfStore1(kind pb.CompressionKind, b []byte) []byte {
	if kind == pb.CompressionKind_NONE {
		return b
	}
	n := len(b)<<1 | 1
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16)}, b...)
}

// vfTail appends footer and postscript.
func vfTail(f *vfFile, ft *pb.Footer, ps *pb.PostScript, fixLen bool) {
	b, err := proto.Marshal(ft)
	vp.Assert(err == nil, "marshal")
	b = vfStore1(ps.GetCompression(), b)
	if fixLen {
		ps.FooterLength = proto.Uint64(uint64(len(b)))
	}
	f.s.data = append(f.s.data, b...)
	p, err := proto.Marshal(ps)
	vp.Assert(err == nil, "marshal")
	f.s.data = append(f.s.data, p...)
	n := byte(len(p))
	if vp.Param("pslen", 0) != 0 {
		n = vp.U8("pslen")
	}
	f.s.data = append(f.s.data, n)
}

// VfMeta: a file with one metadata message of arbitrary content never panics.
func VfMeta() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	p := vfParse(f.s.data)
	ft, ps := p.footer, p.ps
	fix := true
	mut := vp.Param("mut", 0)
	if mut == 4 {
		sf := p.stripes[vp.Param("stripeno", 0)].footer
		for i, s := range sf.Streams {
			if vp.Param("stream", i) != i {
				continue
			}
			fields := vp.Param("fields", 7)
			if fields&1 != 0 {
				if vp.Bool(vp.N("k?", i)) {
					s.Kind = nil
				} else {
					k := pb.Stream_Kind(vp.Range(vp.N("k", i), 0, 9))
					s.Kind = &k
				}
			}
			if fields&2 != 0 {
				s.Column = vfOptU32(vp.N("c", i))
			}
			if fields&4 != 0 {
				s.Length = vfOptU64(vp.N("l", i))
			}
		}
		if vp.Param("cut", 0) != 0 {
			n := vp.Choose("streams", len(sf.Streams)+1)
			if n == len(sf.Streams) {
				sf.Streams = append(sf.Streams, sf.Streams...)
			} else {
				sf.Streams = append(sf.Streams[:n:n], sf.Streams[n+1:]...)
			}
		}
	}
	if mut == 5 {
		sf := p.stripes[vp.Param("stripeno", 0)].footer
		for i, c := range sf.Columns {
			if vp.Bool(vp.N("e?", i)) {
				c.Kind = nil
			} else {
				k := pb.ColumnEncoding_Kind(vp.Range(vp.N("e", i), 0, 4))
				c.Kind = &k
			}
			c.DictionarySize = vfOptU32(vp.N("d", i))
		}
		if n := vp.Choose("columns", len(sf.Columns)+2); n > len(sf.Columns) {
			sf.Columns = append(sf.Columns, sf.Columns[0])
		} else {
			sf.Columns = sf.Columns[:n]
		}
	}
	g := vfBuild(f.s.data, p)
	switch mut {
	case 0:
		fix = false
		fl, ml := vfOptU64("fl"), vfOptU64("ml")
		size := uint64(len(g.s.data) + vp.Param("footerLen", 7) + vp.Param("protoLen", 6) + 1)
		switch vp.Param("fields", 0) {
		case 0: // any footer length
			ps.FooterLength = fl
		case 1: // any metadata length
			fix = true
			ps.MetadataLength = ml
		case 2: // both, at least one longer than the file, or the sum overflows
			vp.Assume(fl != nil && ml != nil)
			vp.Assume(vp.Or(vp.Or(*fl > size, *ml > size), *fl+*ml < *fl))
			ps.FooterLength, ps.MetadataLength = fl, ml
		case 3: // both small
			ps.FooterLength, ps.MetadataLength = proto.Uint64(uint64(vp.Range("fl4", 0, 9))), proto.Uint64(uint64(vp.Range("ml4", 0, 9)))
		}
	case 1:
		if vp.Bool("comp?") {
			ps.Compression = nil
		} else {
			k := pb.CompressionKind(vp.Range("comp", 0, 6))
			ps.Compression = &k
		}
		ps.CompressionBlockSize = vfOptU64("bs")
		if b := ps.CompressionBlockSize; b != nil {
			vp.Assume(vp.Or(*b <= 8, *b >= 1<<23))
		}
		ps.Version = ps.Version[:vp.Choose("ver", 3)]
		for i := range ps.Version {
			ps.Version[i] = vp.U32(vp.N("v", i))
		}
		if vp.Bool("magic?") {
			ps.Magic = nil
		} else {
			s := string(vfBytesN("magic", 3))
			ps.Magic = &s
		}
	case 2:
		ft.NumberOfRows = vfOptU64("rows")
		ft.RowIndexStride = vfOptU32("stride")
		ft.HeaderLength = vfOptU64("hl")
		ft.ContentLength = vfOptU64("cl")
		if n := vp.Choose("stats", len(ft.Statistics)+2); n > len(ft.Statistics) {
			ft.Statistics = append(ft.Statistics, ft.Statistics[0])
		} else {
			ft.Statistics = ft.Statistics[:n]
		}
		for i := range ft.Statistics {
			b := vp.Bool(vp.N("hn", i))
			ft.Statistics[i].HasNull = &b
		}
	case 3:
		n := len(ft.Stripes)
		if vp.Param("fields", 31) == 0 {
			n = vp.Choose("stripes", len(ft.Stripes)+2)
		}
		if n > len(ft.Stripes) {
			ft.Stripes = append(ft.Stripes, ft.Stripes[0])
		} else {
			ft.Stripes = ft.Stripes[:n]
		}
		for i, s := range ft.Stripes {
			if vp.Param("si", i) != i {
				continue
			}
			fields := vp.Param("fields", 31)
			for j, w := range []**uint64{&s.Offset, &s.IndexLength, &s.DataLength, &s.FooterLength, &s.NumberOfRows} {
				if fields>>uint(j)&1 == 1 {
					*w = vfOptU64(vp.N(vp.N("si", i), j))
				}
			}
		}
	case 6:
		n := vp.Param("types", 2)
		for len(ft.Types) < n {
			ft.Types = append(ft.Types, &pb.Type{})
		}
		ft.Types = ft.Types[:n]
		if len(ft.Statistics) > n {
			ft.Statistics = ft.Statistics[:n]
		}
		for i, t := range ft.Types {
			var k pb.Type_Kind
			if vp.Param("fewkinds", 0) != 0 {
				k = []pb.Type_Kind{pb.Type_INT, pb.Type_STRUCT, pb.Type_LIST, pb.Type_MAP}[vp.Choose(vp.N("tf", i), 4)]
			} else {
				k = pb.Type_Kind(vp.Range(vp.N("tk", i), 0, 17))
			}
			t.Kind = &k
			t.Subtypes = make([]uint32, vp.Choose(vp.N("subs", i), 3))
			for j := range t.Subtypes {
				t.Subtypes[j] = vp.U32(vp.N(vp.N("sub", i), j))
			}
			t.FieldNames = make([]string, vp.Choose(vp.N(vp.N("names", i), len(t.Subtypes)), len(t.Subtypes)+1))
		}
	}
	vfTail(g, ft, ps, fix)
	d.vfUse(g)
	vp.Reach("end")
}

// VfIndexMeta: arbitrary row index entries never panic.
func VfIndexMeta() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	p := vfParse(f.s.data)
	col := vp.Param("col", 0)
	s := p.stripes[0]
	var st *vfStream
	var pbst *pb.Stream
	for i := range s.streams {
		if int(s.streams[i].column) == col && s.streams[i].kind == pb.Stream_ROW_INDEX {
			st = &s.streams[i]
			pbst = s.footer.Streams[i]
		}
	}
	vp.Assert(st != nil, "no index")
	ri := &pb.RowIndex{}
	raw, _ := vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), st.raw)
	vp.Assert(proto.Unmarshal(raw, ri) == nil, "index corrupt")
	n := len(ri.Entry)
	if vp.Param("pos", -1) < 0 {
		n = vp.Choose("entries", len(ri.Entry)+2)
	}
	if n > len(ri.Entry) {
		ri.Entry = append(ri.Entry, ri.Entry[0])
	} else {
		ri.Entry = ri.Entry[:n]
	}
	for i, e := range ri.Entry {
		if i != vp.Param("entry", 1) {
			continue
		}
		if k := vp.Param("pos", -1); k >= 0 && k < len(e.Positions) {
			e.Positions[k] = vp.U64("p")
		} else {
			e.Positions = e.Positions[:vp.Choose("positions", len(e.Positions)+1)]
		}
	}
	b, err := proto.Marshal(ri)
	vp.Assert(err == nil, "marshal")
	b = vfStore1(p.ps.GetCompression(), b)
	// only one stripe: replace the bytes of the index stream
	at := int(st.start)
	data := append([]byte{}, f.s.data[:at]...)
	data = append(data, b...)
	data = append(data, f.s.data[at+len(st.raw):]...)
	diff := uint64(len(b)) - uint64(len(st.raw))
	pbst.Length = proto.Uint64(uint64(len(b)))
	s.info.IndexLength = proto.Uint64(s.info.GetIndexLength() + diff)
	g := vfBuild(data, p)
	vfTail(g, p.footer, p.ps, true)
	r := vfOpen(g)
	br, vec := vfBatchReader(r, vfBatch())
	for k := 0; k < vp.Param("ops", 2); k++ {
		if err := br.Seek(uint64(vp.Choose(vp.N("to", k), d.rows))); err != nil {
			vp.Reach("seekerr")
			continue
		}
		if _, err := br.Next(vec); err != nil {
			vp.Reach("nexterr")
			continue
		}
		vp.Reach("ok")
		vp.Assert(vec.Len() <= vec.Cap(), "batch exceeds its capacity")
	}
	vp.Reach("end")
}

// VfTailSize: the tail of a file may be smaller or larger than the first read.
func VfTailSize() {
	want := vp.Param("footerLen", 7)
	o := vfOpts()
	d := vfGen()
	root := vfStruct(false)
	root.AddChild("a", vfPrim(vp.Param("kind", vfInt), false))
	pad := vfPrim(vfInt, false)
	root.AddChild("p", pad)
	if !vp.Symbolic() {
		// grow the names until the footer has the length the model gives it
		if o.CompressionKind != pb.CompressionKind_NONE {
			want += 3
		}
		size := func(a, n int) int {
			root.ChildrenNames[0] = vfNoise(a)
			root.ChildrenNames[1] = vfNoise(n)
			f := vfNewFile()
			vfPadded(root, d, o.CompressionKind, f)
			return int(vfParse(f.s.data).ps.GetFooterLength())
		}
		for a, found := 1, false; a < 9 && !found; a++ {
			n, last := want, 0
			for try := 0; try < 40 && n > 0; try++ {
				got := size(a, n)
				if got == want {
					found = true
					break
				}
				if last = want - got; last == 0 {
					break
				}
				n += last
			}
		}
	}
	f := vfNewFile()
	vfPadded(root, d, o.CompressionKind, f)
	r := vfOpen(f)
	vp.Assert(r.NumberOfRows() == uint64(d.rows), "number of rows of the reader")
	vp.Assert(len(r.GetSchema().Children) == 2 && r.GetSchema().ChildrenNames[1] == root.ChildrenNames[1], "schema")
	br, vec := vfBatchReader(r, vfBatch())
	n := 0
	for k := 0; k < d.rows+1 && n < d.rows; k++ {
		end, err := br.Next(vec)
		vp.Assert(err == nil, "read failed")
		l := vec.Len()
		vp.Assert(n+l <= d.rows, "more rows read than written")
		for i := 0; i < l; i++ {
			vp.Assert(vfSame(d.kinds[0], d.cells[0][n+i].V, vec.Children[0].Vector[i].V), "value changed")
		}
		n += l
		vp.Assert(end == (n == d.rows), "end reported at the wrong row")
	}
	vp.Assert(n == d.rows, "rows lost")
	vp.Reach("end")
}

// vfNoise is text that compresses badly.
func vfNoise(n int) string {
	b := make([]byte, n)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24) & 0x7f
	}
	return string(b)
}

func vfPadded(root *api.TypeDescription, d *vfData, kind pb.CompressionKind, f *vfFile) {
	if err := api.NormalizeSchema(root); err != nil {
		vp.Assert(false, "schema rejected")
	}
	w, err := newWriter(root, vfOpts(), f)
	vp.Assert(err == nil, "writer creation failed")
	vec, err := root.CreateVector(&api.BatchOption{RowSize: d.rows})
	vp.Assert(err == nil, "vector creation failed")
	for i := 0; i < d.rows; i++ {
		vec.Children[0].Vector[i] = d.cells[0][i]
		vec.Children[1].Vector[i] = api.Value{V: int32(i)}
	}
	vp.Assert(w.Write(vec) == nil, "write failed")
	vp.Assert(w.Close() == nil, "close failed")
}
