package col

import (
	"bytes"
	"math"

	"github.com/golang/protobuf/proto"
	"github.com/klauspost/compress/flate"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// kinds of columns
const (
	kShort = iota
	kInt
	kLong
	kByte
	kBool
	kFloat
	kDouble
	kString
	kBinary
	kDate
	kTimestamp
	kDecimal
	kDict
	kStruct
	kList
	kMap
)

var pbKind = [...]pb.Type_Kind{pb.Type_SHORT, pb.Type_INT, pb.Type_LONG, pb.Type_BYTE, pb.Type_BOOLEAN, pb.Type_FLOAT, pb.Type_DOUBLE,
	pb.Type_STRING, pb.Type_BINARY, pb.Type_DATE, pb.Type_TIMESTAMP, pb.Type_DECIMAL, pb.Type_STRING, pb.Type_STRUCT, pb.Type_LIST, pb.Type_MAP}

// val is a value: bits, bytes, or a number of elements.
type val struct {
	null bool
	v, w uint64
	s    []byte
	n    int
}

// node is a column with its values for the rows in which its ancestors are not null.
type node struct {
	kind  int
	nulls bool
	kids  []*node

	id     int
	schema *api.TypeDescription
	vals   []val
	groups []int // where row groups start
	dict   [][]byte

	streams []*strm
	r       column.Reader
}

// strm is an encoded stream.
type strm struct {
	kind  pb.Stream_Kind
	plain []byte
	out   []byte
	pos   [][]uint64 // at row groups: place in plain, places in runs
	at    int        // in the file
	cuts  []int      // where chunks start in plain
	outs  []int      // and in out
}

func leaf(k int, nulls bool) *node             { return &node{kind: k, nulls: nulls} }
func tree(k int, nulls bool, c ...*node) *node { return &node{kind: k, nulls: nulls, kids: c} }

// shape is a column tree by number.
func shape(s int, nulls bool) *node {
	if s < kStruct {
		return leaf(s, nulls)
	}
	switch s {
	case 20:
		return tree(kList, nulls, leaf(kInt, false))
	case 21:
		return tree(kList, nulls, leaf(kString, true))
	case 22:
		return tree(kList, nulls, leaf(kByte, true))
	case 23:
		return tree(kMap, nulls, leaf(kInt, false), leaf(kBool, true))
	case 24:
		return tree(kMap, nulls, leaf(kString, false), leaf(kLong, true))
	case 25:
		return tree(kStruct, nulls, leaf(kInt, !nulls), leaf(kString, false))
	case 26:
		return tree(kList, nulls, tree(kList, true, leaf(kInt, false)))
	case 27:
		return tree(kList, nulls, tree(kStruct, true, leaf(kInt, false), leaf(kBool, false)))
	case 28:
		return tree(kStruct, nulls, tree(kList, !nulls, leaf(kInt, true)), leaf(kByte, false))
	case 29:
		return tree(kMap, nulls, leaf(kInt, false), tree(kList, true, leaf(kShort, false)))
	case 30:
		return tree(kStruct, nulls, tree(kMap, false, leaf(kByte, false), leaf(kDate, true)))
	case 31:
		return tree(kStruct, nulls, tree(kStruct, false, leaf(kInt, false)), leaf(kDict, !nulls))
	case 32:
		return tree(kStruct, false, tree(kStruct, nulls, leaf(kInt, false)), leaf(kTimestamp, true))
	case 33:
		return tree(kList, nulls, leaf(kDict, true))
	case 34:
		return tree(kList, nulls, leaf(kDecimal, true))
	case 35:
		return tree(kMap, nulls, leaf(kDict, false), leaf(kDouble, false))
	case 36:
		return tree(kList, nulls, tree(kMap, true, leaf(kByte, false), leaf(kBool, true)))
	case 37:
		return tree(kList, nulls, tree(kStruct, false, leaf(kInt, true), tree(kList, true, leaf(kByte, false))))
	}
	panic("shape")
}

// number gives ids in depth-first order and makes the schema.
func (n *node) number(next *int) {
	n.id = *next
	*next++
	enc := pb.ColumnEncoding_DIRECT_V2
	switch n.kind {
	case kByte, kBool, kFloat, kDouble, kStruct:
		enc = pb.ColumnEncoding_DIRECT
	case kDict:
		enc = pb.ColumnEncoding_DICTIONARY_V2
	}
	n.schema = &api.TypeDescription{Id: uint32(n.id), Kind: pbKind[n.kind], HasNulls: n.nulls, Encoding: enc}
	for _, c := range n.kids {
		c.number(next)
		n.schema.AddChild(vp.N("c", c.id), c.schema)
	}
}

// fill gives arbitrary values to count rows; group starts are numbers of values.
func (n *node) fill(count int, groups []int, all bool) {
	n.groups = groups
	if n.kind == kDict {
		for i := 0; i < vp.Param("dict", 2); i++ {
			n.dict = append(n.dict, symBytes(vp.N(vp.N("d", n.id), i), i%3))
		}
	}
	sub := []int{} // rows of children at group starts
	rows := 0
	for i := 0; i <= count; i++ {
		for len(sub) < len(groups) && groups[len(sub)] == i {
			sub = append(sub, rows)
		}
		if i == count {
			break
		}
		name := vp.N(vp.N("v", n.id), i)
		var v val
		if n.nulls && vp.Choose(name+"n", 2) == 1 {
			v.null = true
		} else {
			n.value(name, &v)
			rows++
			if n.kind == kList || n.kind == kMap {
				rows += v.n - 1
			}
		}
		n.vals = append(n.vals, v)
	}
	for _, c := range n.kids {
		c.fill(rows, sub, all)
	}
}

func symBytes(name string, l int) []byte {
	s := make([]byte, l)
	for i := range s {
		s[i] = vp.U8(vp.N(name, i))
	}
	return s
}

func (n *node) value(name string, v *val) {
	switch n.kind {
	case kShort, kInt, kLong, kByte, kDate:
		v.v = uint64(vp.U8(name))
	case kBool:
		v.v = vp.Ite64(vp.Bool(name), 1, 0)
	case kFloat:
		v.v = uint64(vp.U32(name))
	case kDouble:
		v.v = vp.U64(name)
	case kString, kBinary:
		v.n = vp.Choose(name+"l", vp.Param("maxlen", 2)+1)
		v.s = symBytes(name, v.n)
	case kTimestamp:
		v.v = uint64(vp.U8(name))
		v.w = uint64(vp.Range(name+"w", 0, 31))
	case kDecimal:
		v.v = uint64(vp.Range(name, 0, 127))
		v.w = uint64(vp.U8(name + "w"))
	case kDict:
		v.n = vp.Choose(name+"i", len(n.dict))
	case kList, kMap:
		v.n = vp.Choose(name+"l", vp.Param("maxlist", 2)+1)
	}
}

// ---- reference encoders, with the positions of values

// ints encodes bytes as direct runs of 8 bits each; at are value numbers.
func ints(kind pb.Stream_Kind, vs []uint64, at []int) *strm {
	s := &strm{kind: kind}
	run := vp.Param("run", 2)
	for i := 0; i < len(vs); i += run {
		e := i + run
		if e > len(vs) {
			e = len(vs)
		}
		s.plain = append(s.plain, 0x40|7<<1, byte(e-i-1))
		for _, v := range vs[i:e] {
			s.plain = append(s.plain, byte(v))
		}
	}
	for _, j := range at {
		s.pos = append(s.pos, place(j, len(vs), run, 2, 1, len(s.plain)))
	}
	return s
}

// place is the position of value j of n in runs with a header; a place after the last
// run may be given as the end of that run.
func place(j, n, run, head, size, end int) []uint64 {
	r, o := j/run, j%run
	if o == 0 && j > 0 && (j == n || vp.Param("late", 0) != 0) && vp.Param("endofrun", 0) != 0 {
		r, o = r-1, run
	}
	p := r * (head + run*size)
	if p > end {
		p = end
	}
	return []uint64{uint64(p), uint64(o)}
}

func byteRuns(kind pb.Stream_Kind, vs []byte, at []int) *strm {
	s := &strm{kind: kind}
	run := vp.Param("brun", 2)
	for i := 0; i < len(vs); i += run {
		e := i + run
		if e > len(vs) {
			e = len(vs)
		}
		s.plain = append(s.plain, byte(256-(e-i)))
		s.plain = append(s.plain, vs[i:e]...)
	}
	for _, j := range at {
		s.pos = append(s.pos, place(j, len(vs), run, 1, 1, len(s.plain)))
	}
	return s
}

func bits(kind pb.Stream_Kind, vs []uint64, at []int) *strm {
	var bs []byte
	for i := 0; i < len(vs); i += 8 {
		b := byte(0)
		for j := i; j < i+8 && j < len(vs); j++ {
			b |= byte(vs[j]) << uint(7-(j-i))
		}
		bs = append(bs, b)
	}
	var bat []int
	for _, j := range at {
		bat = append(bat, j/8)
	}
	s := byteRuns(kind, bs, bat)
	for i, j := range at {
		s.pos[i] = append(s.pos[i], uint64(j%8))
	}
	return s
}

func raw(kind pb.Stream_Kind, items [][]byte, at []int) *strm {
	s := &strm{kind: kind}
	k := 0
	for i := 0; i <= len(items); i++ {
		for k < len(at) && at[k] == i {
			s.pos = append(s.pos, []uint64{uint64(len(s.plain))})
			k++
		}
		if i < len(items) {
			s.plain = append(s.plain, items[i]...)
		}
	}
	return s
}

// encode makes the streams of a column.
func (n *node) encode() {
	var vs []val // not null
	var present []uint64
	var at []int
	for i := 0; i <= len(n.vals); i++ {
		for len(at) < len(n.groups) && n.groups[len(at)] == i {
			at = append(at, len(vs))
		}
		if i < len(n.vals) {
			if n.vals[i].null {
				present = append(present, 0)
			} else {
				present = append(present, 1)
				vs = append(vs, n.vals[i])
			}
		}
	}
	if n.nulls {
		n.streams = append(n.streams, bits(pb.Stream_PRESENT, present, n.groups))
	}
	add := func(s *strm) { n.streams = append(n.streams, s) }
	get := func(f func(v val) uint64) []uint64 {
		var r []uint64
		for _, v := range vs {
			r = append(r, f(v))
		}
		return r
	}
	first := func(v val) uint64 { return v.v }
	second := func(v val) uint64 { return v.w }
	number := func(v val) uint64 { return uint64(v.n) }
	switch n.kind {
	case kShort, kInt, kLong, kDate:
		add(ints(pb.Stream_DATA, get(first), at))
	case kByte:
		var bs []byte
		for _, v := range vs {
			bs = append(bs, byte(v.v))
		}
		add(byteRuns(pb.Stream_DATA, bs, at))
	case kBool:
		add(bits(pb.Stream_DATA, get(first), at))
	case kFloat, kDouble:
		var items [][]byte
		for _, v := range vs {
			b := make([]byte, 4)
			if n.kind == kDouble {
				b = make([]byte, 8)
			}
			for i := range b {
				b[i] = byte(v.v >> uint(8*i))
			}
			items = append(items, b)
		}
		add(raw(pb.Stream_DATA, items, at))
	case kString, kBinary:
		var items [][]byte
		for _, v := range vs {
			items = append(items, v.s)
		}
		add(raw(pb.Stream_DATA, items, at))
		add(ints(pb.Stream_LENGTH, get(number), at))
	case kTimestamp:
		add(ints(pb.Stream_DATA, get(first), at))
		add(ints(pb.Stream_SECONDARY, get(func(v val) uint64 { return v.w << 3 }), at))
	case kDecimal:
		var items [][]byte
		for _, v := range vs {
			items = append(items, []byte{byte(v.v)})
		}
		add(raw(pb.Stream_DATA, items, at))
		add(ints(pb.Stream_SECONDARY, get(second), at))
	case kDict:
		add(ints(pb.Stream_DATA, get(number), at))
		var all []byte
		var ls []uint64
		for _, d := range n.dict {
			all = append(all, d...)
			ls = append(ls, uint64(len(d)))
		}
		add(&strm{kind: pb.Stream_DICTIONARY_DATA, plain: all})
		add(ints(pb.Stream_LENGTH, ls, nil))
	case kList, kMap:
		add(ints(pb.Stream_LENGTH, get(number), at))
	}
	for _, c := range n.kids {
		c.encode()
	}
}

// chunks cuts a stream to chunks, some compressed.
func (s *strm) chunks(cut int) {
	if vp.Param("none", 0) != 0 {
		s.out = s.plain
		return
	}
	s.out = chunked(s.plain, cut, func(plain, out int) { s.cuts, s.outs = append(s.cuts, plain), append(s.outs, out) })
}

func chunked(b []byte, cut int, at func(plain, out int)) (out []byte) {
	for i := 0; i < len(b); i += cut {
		e := i + cut
		if e > len(b) {
			e = len(b)
		}
		if at != nil {
			at(i, len(out))
		}
		c := b[i:e]
		orig := 1
		if z := vp.Param("zip", 0); z == 2 || z == 1 && i/cut%2 == 0 {
			orig = 0
			buf := &bytes.Buffer{}
			w, _ := flate.NewWriter(buf, -1)
			w.Write(c)
			w.Close()
			c = buf.Bytes()
		}
		out = append(out, byte(len(c)<<1|orig), byte(len(c)>>7), 0)
		out = append(out, c...)
	}
	return
}

// position is a position of the index: with compression the chunk and the place in it.
func (s *strm) position(p []uint64) []uint64 {
	if vp.Param("none", 0) != 0 {
		return p
	}
	if len(p) == 0 {
		return nil
	}
	x := int(p[0])
	c := len(s.cuts) - 1
	for c > 0 && (s.cuts[c] > x || s.cuts[c] == x && vp.Param("late", 0) != 0) {
		c--
	}
	if c < 0 || x == len(s.plain) && vp.Param("late", 0) == 0 {
		return append([]uint64{uint64(len(s.out)), 0}, p[1:]...)
	}
	return append([]uint64{uint64(s.outs[c]), uint64(x - s.cuts[c])}, p[1:]...)
}

func (n *node) each(f func(n *node)) {
	f(n)
	for _, c := range n.kids {
		c.each(f)
	}
}

// build writes all streams to a file and opens the readers.
func build(root *node, index bool) {
	f := newFile(nil)
	f.Write([]byte{'O', 'R', 'C'})
	ro := config.DefaultReaderOptions()
	ro.ChunkSize = uint64(vp.Param("chunksize", 64))
	if vp.Param("none", 0) != 0 {
		ro.CompressionKind = pb.CompressionKind_NONE
	}
	type place struct{ at, n int }
	indexes := map[int]place{}
	cut := vp.Param("cut", 3)
	root.each(func(n *node) {
		for _, s := range n.streams {
			s.chunks(cut)
		}
		if !index {
			return
		}
		ix := &pb.RowIndex{}
		for g := range n.groups {
			e := &pb.RowIndexEntry{}
			for _, s := range n.streams {
				if s.pos != nil {
					e.Positions = append(e.Positions, s.position(s.pos[g])...)
				}
			}
			ix.Entry = append(ix.Entry, e)
		}
		b, err := proto.Marshal(ix)
		vp.Assert(err == nil, "marshal")
		if vp.Param("none", 0) == 0 {
			b = append([]byte{byte(len(b)<<1 | 1), byte(len(b) >> 7), 0}, b...)
		}
		indexes[n.id] = place{len(*f.data), len(b)}
		f.Write(b)
	})
	root.each(func(n *node) {
		for _, s := range n.streams {
			s.at = len(*f.data)
			f.Write(s.out)
		}
	})
	f.Write([]byte{0xff, 0xff, 0xff, 0xff}) // footer
	root.each(func(n *node) {
		c, _ := f.Clone()
		r, err := column.NewReader(n.schema, &ro, c)
		vp.Assert(err == nil, "column reader not made")
		for _, s := range n.streams {
			l := uint64(len(s.out))
			id := uint32(n.id)
			kind := s.kind
			if l == 0 && vp.Param("absent", 0) != 0 && kind != pb.Stream_PRESENT {
				continue
			}
			vp.Assert(r.InitStream(&pb.Stream{Kind: &kind, Column: &id, Length: &l}, uint64(s.at)) == nil, "stream not accepted")
		}
		if index {
			vp.Assert(r.InitIndex(uint64(indexes[n.id].at), uint64(indexes[n.id].n)) == nil, "index not accepted")
		}
		n.r = r
	})
	root.each(func(n *node) {
		switch n.kind {
		case kStruct:
			for _, c := range n.kids {
				n.r.(*column.StructReader).AddChild(c.r)
			}
		case kList:
			n.r.(*column.ListV2Reader).SetChild(n.kids[0].r)
		case kMap:
			n.r.(*column.MapV2Reader).SetKey(n.kids[0].r)
			n.r.(*column.MapV2Reader).SetValue(n.kids[1].r)
		}
	})
}

// vector is an empty vector for rows of a column.
func (n *node) vector(rows int) *api.ColumnVector {
	v := &api.ColumnVector{Id: uint32(n.id), Kind: pbKind[n.kind]}
	if n.kind != kStruct || n.nulls {
		v.Vector = make([]api.Value, rows)
	}
	for _, c := range n.kids {
		if n.kind != kStruct {
			rows = 0
		}
		v.Children = append(v.Children, c.vector(rows))
	}
	return v
}

func unzig(v uint64) int64 { return int64(v>>1) ^ -int64(v&1) }

// check compares rows of a vector with values from a number on.
func (n *node) check(vec *api.ColumnVector, at []int, from int) {
	sub := 0 // values of children before
	for _, v := range n.vals[:from] {
		if !v.null {
			if sub++; n.kind == kList || n.kind == kMap {
				sub += v.n - 1
			}
		}
	}
	var kids []int
	ok := true
	for k, i := range at {
		v := n.vals[from+k]
		if n.kind == kStruct {
			if n.nulls {
				vp.Assert(vec.Vector[i].Null == v.null, "null of struct is wrong")
			}
			if !v.null {
				kids = append(kids, i)
			} else {
				n.nullKids(vec, i)
			}
			continue
		}
		got := vec.Vector[i]
		vp.Assert(got.Null == v.null, "null is wrong")
		if v.null {
			continue
		}
		switch n.kind {
		case kShort:
			ok = vp.And(ok, got.V.(int16) == int16(unzig(v.v)))
		case kInt:
			ok = vp.And(ok, got.V.(int32) == int32(unzig(v.v)))
		case kLong:
			ok = vp.And(ok, got.V.(int64) == unzig(v.v))
		case kByte:
			ok = vp.And(ok, got.V.(byte) == byte(v.v))
		case kBool:
			ok = vp.And(ok, got.V.(bool) == (v.v == 1))
		case kFloat:
			ok = vp.And(ok, math.Float32bits(got.V.(float32)) == uint32(v.v))
		case kDouble:
			ok = vp.And(ok, math.Float64bits(got.V.(float64)) == v.v)
		case kString:
			ok = vp.And(ok, sameBytes([]byte(got.V.(string)), v.s))
		case kBinary:
			ok = vp.And(ok, sameBytes(got.V.([]byte), v.s))
		case kDate:
			ok = vp.And(ok, api.ToDays(got.V.(api.Date)) == int32(unzig(v.v)))
		case kTimestamp:
			t := got.V.(api.Timestamp)
			ok = vp.And(ok, vp.And(t.Seconds == unzig(v.v), t.Nanos == v.w))
		case kDecimal:
			d := got.V.(api.Decimal64)
			ok = vp.And(ok, vp.And(d.Precision == unzig(v.v), d.Scale == int(unzig(v.w))))
		case kDict:
			ok = vp.And(ok, sameBytes([]byte(got.V.(string)), n.dict[v.n]))
		case kList:
			vp.Assert(got.V.(uint64) == uint64(v.n), "length of list is wrong")
		case kMap:
			vp.Assert(got.V.(int) == v.n, "length of map is wrong")
		}
		if n.kind == kList || n.kind == kMap {
			for j := 0; j < v.n; j++ {
				kids = append(kids, len(kids))
			}
		}
	}
	vp.Assert(ok, "value is wrong")
	for i, c := range n.kids {
		if n.kind != kStruct && (c.kind != kStruct || c.nulls) {
			vp.Assert(len(vec.Children[i].Vector) == len(kids), "number of elements is wrong")
		}
		c.check(vec.Children[i], kids, sub)
	}
}

// nullKids: descendants of a null struct are null.
func (n *node) nullKids(vec *api.ColumnVector, i int) {
	for k, c := range n.kids {
		if vec.Children[k].Vector != nil {
			vp.Assert(vec.Children[k].Vector[i].Null, "child of a null struct is not null")
		}
		if c.kind == kStruct {
			c.nullKids(vec.Children[k], i)
		}
	}
}

func sameBytes(a, b []byte) bool {
	vp.Assert(len(a) == len(b), "length of string is wrong")
	ok := true
	for i := range a {
		ok = vp.And(ok, a[i] == b[i])
	}
	return ok
}

// Read: any column data, read in batches of any sizes after any seeks.
func Read() {
	root := shape(vp.Param("shape", 0), vp.Param("nulls", 1) != 0)
	id := 1
	root.number(&id)
	rows := vp.Param("rows", 3)
	stride := vp.Param("stride", 0)
	var groups []int
	if stride > 0 {
		for g := 0; g < rows; g += stride {
			groups = append(groups, g)
		}
	}
	root.fill(rows, groups, false)
	root.encode()
	build(root, stride > 0)
	here := 0
	next := func(n int) {
		vec := root.vector(n)
		vp.Assert(root.r.NextBatch(vec) == nil, "reading valid data returned an error")
		var at []int
		for i := 0; i < n; i++ {
			at = append(at, i)
		}
		root.check(vec, at, here)
		here += n
	}
	for s := 0; s < vp.Param("ops", 0); s++ {
		n := vp.Choose(vp.N("read", s), vp.Param("batch", 2)+1)
		vp.Assume(n <= rows-here)
		next(n)
		here = vp.Choose(vp.N("to", s), rows+1)
		if stride > 0 && here < rows {
			g := vp.Choose(vp.N("group", s), len(groups))
			vp.Assume(groups[g] <= here)
			if vp.Param("near", 1) != 0 {
				vp.Assume(g == here/stride)
			}
			vp.Assert(root.r.SeekStride(g) == nil, "seeking to a row group returned an error")
			vp.Assert(root.r.Skip(uint64(here-groups[g])) == nil, "skipping rows returned an error")
		} else {
			vp.Assert(root.r.SeekStride(0) == nil, "seeking to the start returned an error")
			vp.Assert(root.r.Skip(uint64(here)) == nil, "skipping rows returned an error")
		}
	}
	for b := vp.Param("last", rows); here < rows; {
		if b > rows-here {
			b = rows - here
		}
		next(b)
	}
	root.r.Close()
	vp.Reach("done")
}
