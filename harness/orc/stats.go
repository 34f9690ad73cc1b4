package orc

import (
	"math"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// vfStats asserts that st describes exactly the cells.
func vfStats(d *vfData, id int, from, to int, st *pb.ColumnStatistics) {
	var vs []interface{}
	nulls := false
	for i, c := range d.cells[id][from:to] {
		if d.absent(id, from+i) {
			continue // rows of a null struct are not rows of the columns in it
		}
		if c.Null {
			nulls = true
		} else {
			vs = append(vs, c.V)
		}
	}
	vp.Assert(st.GetNumberOfValues() == uint64(len(vs)), "number of values in the statistics")
	vp.Assert(!nulls || st.GetHasNull(), "statistics do not tell of nulls")
	vp.Assert(d.schemas[id].HasNulls || !st.GetHasNull(), "statistics tell of nulls in a column without")
	n := len(vs)
	switch d.kinds[id] {
	case vfShort, vfInt, vfLong:
		var l []int64
		for _, v := range vs {
			switch x := v.(type) {
			case int16:
				l = append(l, int64(x))
			case int32:
				l = append(l, int64(x))
			case int64:
				l = append(l, x)
			}
		}
		s := st.GetIntStatistics()
		vp.Assert(s != nil, "integer statistics missing")
		vp.Assert((s.Minimum != nil) == (n > 0) && (s.Maximum != nil) == (n > 0), "integer minimum and maximum without values")
		vfMinMax(l, s.GetMinimum(), s.GetMaximum())
		var sum int64
		over := false
		for _, x := range l {
			t := sum + x
			if vp.And(vp.And(sum > 0, x > 0), t < 0) || vp.And(vp.And(sum < 0, x < 0), t >= 0) {
				over = true
			}
			sum = t
		}
		vp.Assert(over || s.Sum != nil && *s.Sum == sum, "integer sum")
		vp.Assert(!over || s.Sum == nil, "integer sum after an overflow")
	case vfDate:
		var l []int64
		for _, v := range vs {
			l = append(l, int64(api.ToDays(v.(api.Date))))
		}
		s := st.GetDateStatistics()
		vp.Assert(s != nil, "date statistics missing")
		vp.Assert((s.Minimum != nil) == (n > 0) && (s.Maximum != nil) == (n > 0), "date minimum and maximum without values")
		vfMinMax(l, int64(s.GetMinimum()), int64(s.GetMaximum()))
	case vfTimestamp:
		var l []int64
		for _, v := range vs {
			t := v.(api.Timestamp)
			l = append(l, (t.Seconds+1420070400)*1000+int64(t.Nanos/1000000)) // from 2015
		}
		s := st.GetTimestampStatistics()
		vp.Assert(s != nil, "timestamp statistics missing")
		vp.Assert((s.Minimum != nil) == (n > 0) && (s.Maximum != nil) == (n > 0), "timestamp minimum and maximum without values")
		vfMinMax(l, s.GetMinimumUtc(), s.GetMaximumUtc())
		vfMinMax(l, s.GetMinimum(), s.GetMaximum())
	case vfFloat, vfDouble:
		s := st.GetDoubleStatistics()
		vp.Assert(s != nil, "floating point statistics missing")
		if n == 0 {
			vp.Assert(s.Minimum == nil && s.Maximum == nil, "floating point minimum without values")
			break
		}
		some := false
		isMin, isMax := false, false
		var sum float64
		for _, v := range vs {
			var x float64
			if d.kinds[id] == vfFloat {
				x = float64(v.(float32))
			} else {
				x = v.(float64)
			}
			sum += x
			if x != x {
				continue
			}
			some = true
			vp.Assert(s.Minimum != nil && *s.Minimum <= x && s.Maximum != nil && *s.Maximum >= x, "floating point minimum or maximum does not bound a value")
			isMin = vp.Or(isMin, *s.Minimum == x)
			isMax = vp.Or(isMax, *s.Maximum == x)
		}
		vp.Assert(!some || isMin && isMax, "floating point minimum or maximum is not a value")
		if vp.Param("fsum", 0) != 0 {
			b, w := math.Float64bits(s.GetSum()), math.Float64bits(sum)
			vp.Assert(s.GetSum() == sum || sum != sum && s.GetSum() != s.GetSum() || b == w, "floating point sum")
		}
	case vfBool:
		s := st.GetBucketStatistics()
		vp.Assert(s != nil && len(s.Count) == 1, "boolean statistics missing")
		var c uint64
		for _, v := range vs {
			c += vp.Ite64(v.(bool), 1, 0)
		}
		vp.Assert(s.Count[0] == c, "count of true values")
	case vfString, vfDict, vfChar, vfVarchar:
		s := st.GetStringStatistics()
		vp.Assert(s != nil, "string statistics missing")
		var sum int64
		isMin, isMax := false, false
		for _, v := range vs {
			x := v.(string)
			sum += int64(len(x))
			vp.Assert(s.Minimum != nil && *s.Minimum <= x && s.Maximum != nil && *s.Maximum >= x, "string minimum or maximum does not bound a value")
			if *s.Minimum == x {
				isMin = true
			}
			if *s.Maximum == x {
				isMax = true
			}
		}
		vp.Assert(s.GetSum() == sum, "total length of strings")
		vp.Assert(n == 0 || isMin && isMax, "string minimum or maximum is not a value")
		vp.Assert(n > 0 || s.Minimum == nil && s.Maximum == nil, "string minimum without values")
	case vfBinary:
		s := st.GetBinaryStatistics()
		vp.Assert(s != nil, "binary statistics missing")
		var sum int64
		for _, v := range vs {
			sum += int64(len(v.([]byte)))
		}
		vp.Assert(s.GetSum() == sum, "total length of binary values")
	case vfDecimal:
		s := st.GetDecimalStatistics()
		vp.Assert(s != nil, "decimal statistics missing")
		vp.Assert(n > 0 || s.Minimum == nil && s.Maximum == nil, "decimal minimum without values")
		if n == 0 || s.Minimum == nil {
			break
		}
		min, max := vs[0].(api.Decimal64), vs[0].(api.Decimal64)
		var sum int64
		for _, v := range vs {
			x := v.(api.Decimal64)
			vp.Assert(x.Scale == min.Scale, "decimal statistics of values of several scales")
			if x.Precision < min.Precision {
				min = x
			}
			if x.Precision > max.Precision {
				max = x
			}
			sum += x.Precision
		}
		vp.Assert(s.GetMinimum() == vfDecimalText(min.Precision, min.Scale), "decimal minimum")
		vp.Assert(s.GetMaximum() == vfDecimalText(max.Precision, max.Scale), "decimal maximum")
		if s.Sum != nil {
			vp.Assert(s.GetSum() == vfDecimalText(sum, min.Scale), "decimal sum")
		}
	}
}

// vfDecimalText is the decimal number digits/10^scale (of few digits).
func vfDecimalText(v int64, scale int) string {
	s := ""
	if v < 0 {
		s = "-"
		v = -v
	}
	scale = vp.Conc(scale)
	unit := int64(1)
	for i := 0; i < scale; i++ {
		unit *= 10
	}
	dig := func(v int64) string { return string([]byte{byte('0' + v%10)}) }
	hi := v / unit
	t := dig(hi)
	for hi >= 10 {
		hi /= 10
		t = dig(hi) + t
	}
	s += t
	if scale > 0 {
		s += "."
		for u := unit / 10; u > 0; u /= 10 {
			s += dig(v / u)
		}
	}
	return s
}

func vfMinMax(l []int64, min, max int64) {
	isMin, isMax := len(l) == 0, len(l) == 0
	for _, x := range l {
		vp.Assert(min <= x, "minimum is larger than a value")
		vp.Assert(max >= x, "maximum is smaller than a value")
		isMin = vp.Or(isMin, min == x)
		isMax = vp.Or(isMax, max == x)
	}
	vp.Assert(isMin, "minimum is not a value")
	vp.Assert(isMax, "maximum is not a value")
}

// VfStats: statistics in the footer are exactly those of the values written.
func VfStats() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	p := vfParse(f.s.data)
	vp.Assert(len(p.footer.Statistics) == len(d.schemas), "statistics of every column")
	for id := range d.schemas {
		st := p.footer.Statistics[id]
		vfStats(d, id, 0, d.rows, st)
		var size uint64
		for i := range p.stripes {
			for _, s := range p.stripes[i].streams {
				if int(s.column) == id && s.kind != pb.Stream_ROW_INDEX {
					size += uint64(len(s.raw))
				}
			}
		}
		vp.Assert(st.GetBytesOnDisk() == size, "bytes on disk")
	}
	// the reader shows the same
	r := vfOpen(f)
	vp.Assert(r.NumberOfRows() == uint64(d.rows), "number of rows shown by the reader")
	vp.Assert(len(r.GetStatistics()) == len(d.schemas), "statistics shown by the reader")
	for id, st := range r.GetStatistics() {
		vfStats(d, id, 0, d.rows, st)
	}
	vp.Reach("end")
}

// VfIndex: every stripe has one index entry per started group of rows, with the
// statistics of that group and a position for every stream.
func VfIndex() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	o := vfOpts()
	p := vfParse(f.s.data)
	row := 0
	for i := range p.stripes {
		s := &p.stripes[i]
		n := int(s.info.GetNumberOfRows())
		for id := range d.schemas {
			st := s.stream(id, pb.Stream_ROW_INDEX)
			vp.Assert(st != nil, "row index missing")
			raw, _ := vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), st.raw)
			idx := &pb.RowIndex{}
			if proto.Unmarshal(raw, idx) != nil {
				vp.Assert(false, "row index corrupt")
			}
			groups := (n + o.IndexStride - 1) / o.IndexStride
			vp.Assert(len(idx.Entry) == groups, "number of index entries")
			for g, e := range idx.Entry {
				from, to := row+g*o.IndexStride, row+(g+1)*o.IndexStride
				if to > row+n {
					to = row + n
				}
				vp.Assert(e.Statistics != nil, "index entry without statistics")
				vfStats(d, id, from, to, e.Statistics)
				vp.Assert(len(e.Positions) == vfPositions(d, id, o.CompressionKind), "number of positions in an index entry")
				vfPosition(d, id, s, p, e.Positions, g == 0)
			}
		}
		row += n
	}
	vp.Assert(row == d.rows, "rows in the stripes")
	vp.Reach("end")
}

func vfStreamPositions(k int, kind pb.Stream_Kind) int {
	switch kind {
	case pb.Stream_PRESENT:
		return 3 // byte, run, bit
	case pb.Stream_DATA:
		switch k {
		case vfBool:
			return 3
		case vfFloat, vfDouble, vfString, vfBinary, vfChar, vfVarchar, vfDecimal:
			return 1
		}
		return 2
	case pb.Stream_DICTIONARY_DATA:
		return 0
	case pb.Stream_LENGTH:
		if k == vfDict {
			return -1
		}
	}
	return 2
}

func vfPositions(d *vfData, id int, c pb.CompressionKind) (n int) {
	for _, k := range vfStreams(d, id) {
		p := vfStreamPositions(d.kinds[id], k)
		if p <= 0 { // the dictionary is not positioned
			continue
		}
		n += p
		if c != pb.CompressionKind_NONE {
			n++
		}
	}
	return
}

// vfPosition: positions lie in the streams; those of the first group are the starts.
func vfPosition(d *vfData, id int, s *vfStripe, p *vfParsed, pos []uint64, first bool) {
	for _, k := range vfStreams(d, id) {
		n := vfStreamPositions(d.kinds[id], k)
		if n <= 0 {
			continue
		}
		st := s.stream(id, k)
		data, chunks := vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), st.raw)
		if p.ps.GetCompression() != pb.CompressionKind_NONE {
			if int(pos[0]) != len(st.raw) {
				_, ok := chunks[int(pos[0])]
				vp.Assert(ok, "index position is not the start of a chunk")
			}
			n++
		} else {
			vp.Assert(pos[0] <= uint64(len(data)), "index position is not in the stream")
		}
		if first {
			for i := 0; i < n; i++ {
				vp.Assert(pos[i] == 0, "position of the first group is not the start of the stream")
			}
		}
		pos = pos[n:]
	}
}
