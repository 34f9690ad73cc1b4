// Package flate is the contract model that replaces the DEFLATE implementation
// under the symbolic executor: reading back what a closed Writer produced
// yields exactly the bytes written, the compressed length is arbitrary within
// a small set, and corrupt input is rejected.
package flate

import (
	"bufio"
	"errors"
	"io"
	"strconv"

	"github.com/patrickhuang888/goorc/verifvp"
)

const (
	NoCompression       = 0
	BestSpeed           = 1
	BestCompression     = 9
	DefaultCompression  = -1
	ConstantCompression = -2
	HuffmanOnly         = -2
)

type CorruptInputError int64

func (e CorruptInputError) Error() string { return "flate: corrupt input" }

type InternalError string

func (e InternalError) Error() string { return "flate: internal error" }

var errClosed = errors.New("flate: write after close")

// Reader is what NewReader reads bytewise when it can.
type Reader interface {
	io.Reader
	io.ByteReader
}

type Resetter interface {
	Reset(r io.Reader, dict []byte) error
}

type Writer struct {
	w      io.Writer
	buf    []byte
	closed bool
}

var streams [][]byte // contents of the closed streams
var lengths []int

const minLen = 5
const marker = 0x4b

func NewWriter(w io.Writer, level int) (*Writer, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("flate: invalid compression level")
	}
	return &Writer{w: w}, nil
}

func NewWriterDict(w io.Writer, level int, dict []byte) (*Writer, error) { return NewWriter(w, level) }

func (w *Writer) Write(p []byte) (int, error) {
	if w.closed {
		return 0, errClosed
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *Writer) Flush() error {
	if w.closed {
		return errClosed
	}
	return nil
}

// Close emits the stream. Its length is one of: minimal, one more than the
// input (incompressible data), equal to the input.
func (w *Writer) Close() error {
	if w.closed {
		return errClosed
	}
	w.closed = true
	id := len(streams)
	mode := verifvp.Param("flate", 0)
	if mode < 0 {
		mode = verifvp.Choose("flate."+strconv.Itoa(id), 3)
	}
	n := minLen
	switch mode {
	case 1:
		n = len(w.buf) + 1
	case 2:
		n = len(w.buf)
	}
	if n < minLen {
		n = minLen
	}
	streams = append(streams, w.buf)
	lengths = append(lengths, n)
	out := make([]byte, n)
	for i := range out {
		out[i] = 0xa5
	}
	out[0], out[1], out[2], out[3], out[4] = marker, byte(id>>8), byte(id), byte(n>>8), byte(n)
	w.buf = nil
	_, err := w.w.Write(out)
	return err
}

func (w *Writer) Reset(dst io.Writer) {
	w.w, w.buf, w.closed = dst, nil, false
}

type decomp struct {
	r    Reader
	data []byte
	init bool
	err  error
}

func mkReader(r io.Reader) Reader {
	if b, ok := r.(Reader); ok {
		return b
	}
	return bufio.NewReader(r)
}

func NewReader(r io.Reader) io.ReadCloser                   { return &decomp{r: mkReader(r)} }
func NewReaderDict(r io.Reader, dict []byte) io.ReadCloser { return NewReader(r) }

func (d *decomp) Reset(r io.Reader, dict []byte) error {
	d.r, d.data, d.init, d.err = mkReader(r), nil, false, nil
	return nil
}

func (d *decomp) start() error {
	d.init = true
	var h [minLen]byte
	for i := 0; i < minLen; i++ {
		b, err := d.r.ReadByte()
		if err != nil {
			return io.ErrUnexpectedEOF
		}
		h[i] = b
		if i == 0 && b != marker {
			return CorruptInputError(0)
		}
	}
	id := int(h[1])<<8 | int(h[2])
	n := int(h[3])<<8 | int(h[4])
	if id >= len(streams) || lengths[id] != n {
		return CorruptInputError(1)
	}
	for i := minLen; i < n; i++ {
		b, err := d.r.ReadByte()
		if err != nil {
			return io.ErrUnexpectedEOF
		}
		if b != 0xa5 {
			return CorruptInputError(2)
		}
	}
	d.data = streams[id]
	return nil
}

func (d *decomp) Read(p []byte) (int, error) {
	if d.err != nil {
		return 0, d.err
	}
	if !d.init {
		if err := d.start(); err != nil {
			d.err = err
			return 0, err
		}
	}
	if len(d.data) == 0 {
		d.err = io.EOF
		return 0, io.EOF
	}
	n := copy(p, d.data)
	d.data = d.data[n:]
	return n, nil
}

func (d *decomp) Close() error {
	if d.err == io.EOF {
		return nil
	}
	return d.err
}
