package orc

import (
	"bytes"
	"io"

	"github.com/golang/protobuf/proto"
	"github.com/klauspost/compress/flate"
	"github.com/patrickhuang888/goorc/pb/pb"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// An independent reader of the file structure, written from the ORC specification.

type vfStripe struct {
	info    *pb.StripeInformation
	footer  *pb.StripeFooter
	streams []vfStream
}

type vfStream struct {
	kind   pb.Stream_Kind
	column uint32
	raw    []byte // as stored
	start  uint64 // in the file
}

type vfParsed struct {
	ps      *pb.PostScript
	psLen   int
	footer  *pb.Footer
	stripes []vfStripe
}

// vfUnchunk undoes the compression of a whole stream; chunks returns where each
// chunk starts in the compressed bytes, and its content.
func vfUnchunk(kind pb.CompressionKind, block uint64, b []byte) ([]byte, map[int][]byte) {
	chunks := map[int][]byte{}
	if kind == pb.CompressionKind_NONE {
		chunks[0] = b
		return b, chunks
	}
	var out []byte
	for at := 0; at < len(b); {
		vp.Assert(at+3 <= len(b), "chunk header cut short")
		h := int(b[at]) | int(b[at+1])<<8 | int(b[at+2])<<16
		n, orig := h>>1, h&1 == 1
		vp.Assert(at+3+n <= len(b), "chunk longer than its stream")
		body := b[at+3 : at+3+n]
		if !orig {
			buf := &bytes.Buffer{}
			if _, err := io.Copy(buf, flate.NewReader(bytes.NewBuffer(body))); err != nil {
				vp.Assert(false, "chunk does not decompress")
			}
			body = buf.Bytes()
		}
		vp.Assert(uint64(len(body)) <= block, "chunk holds more than the block size")
		vp.Assert(n <= int(block), "chunk longer than the block size")
		chunks[at] = body
		out = append(out, body...)
		at += 3 + n
	}
	return out, chunks
}

func vfParse(data []byte) *vfParsed {
	p := &vfParsed{ps: &pb.PostScript{}, footer: &pb.Footer{}}
	n := len(data)
	vp.Assert(n > 4 && string(data[:3]) == "ORC", "file does not start with its magic")
	p.psLen = int(data[n-1])
	vp.Assert(p.psLen < n, "postscript longer than the file")
	if proto.Unmarshal(data[n-1-p.psLen:n-1], p.ps) != nil {
		vp.Assert(false, "postscript corrupt")
	}
	end := n - 1 - p.psLen
	fl := int(p.ps.GetFooterLength())
	vp.Assert(fl <= end, "footer longer than the file")
	fb, _ := vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), data[end-fl:end])
	if proto.Unmarshal(fb, p.footer) != nil {
		vp.Assert(false, "footer corrupt")
	}
	at := uint64(3)
	for _, si := range p.footer.Stripes {
		s := vfStripe{info: si, footer: &pb.StripeFooter{}}
		vp.Assert(si.GetOffset() == at, "stripes are not contiguous")
		il, dl, sl := si.GetIndexLength(), si.GetDataLength(), si.GetFooterLength()
		vp.Assert(at+il+dl+sl <= uint64(end-fl), "stripe longer than the file")
		sb, _ := vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), data[at+il+dl:at+il+dl+sl])
		if proto.Unmarshal(sb, s.footer) != nil {
			vp.Assert(false, "stripe footer corrupt")
		}
		index, pos := at, at+il
		for _, st := range s.footer.Streams {
			l := st.GetLength()
			w := &pos
			if st.GetKind() == pb.Stream_ROW_INDEX {
				w = &index
			}
			vp.Assert(*w+l <= at+il+dl, "stream longer than its stripe")
			s.streams = append(s.streams, vfStream{kind: st.GetKind(), column: st.GetColumn(), raw: data[*w : *w+l], start: *w})
			*w += l
		}
		vp.Assert(index == at+il, "index streams do not fill the index part of the stripe")
		vp.Assert(pos == at+il+dl, "data streams do not fill the data part of the stripe")
		at += il + dl + sl
		p.stripes = append(p.stripes, s)
	}
	vp.Assert(at == uint64(end-fl), "bytes between the last stripe and the footer")
	return p
}

func (s *vfStripe) stream(column int, kind pb.Stream_Kind) *vfStream {
	var r *vfStream
	for i := range s.streams {
		if int(s.streams[i].column) == column && s.streams[i].kind == kind {
			vp.Assert(r == nil, "a column has two streams of one kind")
			r = &s.streams[i]
		}
	}
	return r
}

// VfLayout: the metadata of a file describes exactly what was written.
func VfLayout() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	o := vfOpts()
	p := vfParse(f.s.data)
	vp.Assert(p.ps.GetMagic() == "ORC" && p.psLen < 256, "postscript magic")
	vp.Assert(p.ps.GetCompression() == o.CompressionKind, "compression kind differs from the options")
	if o.CompressionKind != pb.CompressionKind_NONE {
		vp.Assert(p.ps.GetCompressionBlockSize() == uint64(o.ChunkSize), "compression block size differs from the options")
	}
	v := p.ps.GetVersion()
	vp.Assert(len(v) == 2 && v[0] == 0 && v[1] == 12, "file version")
	vp.Assert(p.footer.GetHeaderLength() == 3, "header length")
	vp.Assert(p.footer.GetNumberOfRows() == uint64(d.rows), "footer row count differs from the rows written")
	if o.WriteIndex {
		vp.Assert(p.footer.GetRowIndexStride() == uint32(o.IndexStride), "row index stride differs from the options")
	} else {
		vp.Assert(p.footer.GetRowIndexStride() == 0, "row index stride without an index")
	}
	var content, rows uint64
	for _, s := range p.stripes {
		content += s.info.GetIndexLength() + s.info.GetDataLength() + s.info.GetFooterLength()
		rows += s.info.GetNumberOfRows()
		vp.Assert(s.info.GetNumberOfRows() > 0, "stripe without rows")
	}
	vp.Assert(p.footer.GetContentLength() == content, "content length differs from the stripes")
	vp.Assert(rows == uint64(d.rows), "stripe row counts do not add up")
	// schema
	vp.Assert(len(p.footer.Types) == len(d.schemas), "number of types")
	for i, t := range p.footer.Types {
		s := d.schemas[i]
		vp.Assert(t.GetKind() == s.Kind, "kind of a type differs from the schema")
		vp.Assert(len(t.Subtypes) == len(s.Children), "number of subtypes")
		for j, c := range s.Children {
			vp.Assert(t.Subtypes[j] == c.Id, "subtype differs from the schema")
			vp.Assert(t.FieldNames[j] == s.ChildrenNames[j], "field name differs from the schema")
		}
	}
	// stripes
	for _, s := range p.stripes {
		vp.Assert(len(s.footer.Columns) == len(d.schemas), "number of column encodings")
		for i, c := range s.footer.Columns {
			vp.Assert(c.GetKind() == vfColumnEncoding(d, i), "encoding of a column")
		}
		seen := false
		for i := range s.streams {
			st := &s.streams[i]
			vp.Assert(int(st.column) < len(d.schemas), "stream of no column")
			if st.kind == pb.Stream_ROW_INDEX {
				vp.Assert(!seen, "index stream after data streams")
				vp.Assert(o.WriteIndex, "index stream without the option")
			} else {
				seen = true
			}
		}
		for id := range d.schemas {
			for _, k := range vfStreams(d, id) {
				st := s.stream(id, k)
				vp.Assert(st != nil, "a stream of a column is missing")
				vfUnchunk(p.ps.GetCompression(), p.ps.GetCompressionBlockSize(), st.raw)
			}
			vp.Assert((s.stream(id, pb.Stream_ROW_INDEX) != nil) == o.WriteIndex, "row index stream and options disagree")
			if !d.schemas[id].HasNulls {
				vp.Assert(s.stream(id, pb.Stream_PRESENT) == nil, "present stream of a column without nulls")
			}
		}
	}
	vp.Reach("end")
}

func vfColumnEncoding(d *vfData, id int) pb.ColumnEncoding_Kind {
	if d.kinds[id] < 0 {
		return pb.ColumnEncoding_DIRECT
	}
	return vfEncoding(d.kinds[id])
}

// vfStreams are the streams a column with values must have.
func vfStreams(d *vfData, id int) (r []pb.Stream_Kind) {
	if d.schemas[id].HasNulls {
		r = append(r, pb.Stream_PRESENT)
	}
	switch d.kinds[id] {
	case -1:
	case vfString, vfBinary, vfChar, vfVarchar:
		r = append(r, pb.Stream_DATA, pb.Stream_LENGTH)
	case vfTimestamp, vfDecimal:
		r = append(r, pb.Stream_DATA, pb.Stream_SECONDARY)
	case vfDict:
		r = append(r, pb.Stream_DATA, pb.Stream_DICTIONARY_DATA, pb.Stream_LENGTH)
	default:
		r = append(r, pb.Stream_DATA)
	}
	return
}
