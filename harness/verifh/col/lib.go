package col

import (
	"errors"
	"io"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

// file is an in-memory file.
type file struct {
	data *[]byte
	off  int
}

func newFile(b []byte) *file { return &file{data: &b} }

func (f *file) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= len(*f.data) {
		return 0, io.EOF
	}
	n := copy(p, (*f.data)[f.off:])
	f.off += n
	return n, nil
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	if whence != io.SeekStart {
		return 0, errors.New("whence")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.off = int(off)
	return off, nil
}

func (f *file) Close() error { return nil }

func (f *file) Write(p []byte) (int, error) {
	*f.data = append(*f.data, p...)
	return len(p), nil
}

func (f *file) Size() (int64, error)       { return int64(len(*f.data)), nil }
func (f *file) Clone() (orcio.File, error) { return &file{data: f.data}, nil }
