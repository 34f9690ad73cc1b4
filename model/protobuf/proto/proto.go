// Package proto is the contract model of protocol-buffer serialisation under
// the symbolic executor: Unmarshal(Marshal(m)) gives back a copy of m as it was
// when marshalled; bytes that are not exactly one marshalled message are an error.
package proto

import (
	"errors"

	"github.com/patrickhuang888/goorc/verifvp"
)

type Message interface {
	Reset()
	String() string
	ProtoMessage()
}

type InternalMessageInfo struct{}

func (a *InternalMessageInfo) DiscardUnknown(m Message)                                         {}
func (a *InternalMessageInfo) Marshal(b []byte, m Message, deterministic bool) ([]byte, error) { return nil, nil }
func (a *InternalMessageInfo) Merge(dst, src Message)                                          {}
func (a *InternalMessageInfo) Size(m Message) int                                              { return 0 }
func (a *InternalMessageInfo) Unmarshal(m Message, b []byte) error                             { return nil }

const ProtoPackageIsVersion1 = true
const ProtoPackageIsVersion2 = true
const ProtoPackageIsVersion3 = true

func RegisterEnum(string, map[int32]string, map[string]int32)          {}
func RegisterType(Message, string)                                     {}
func RegisterFile(string, []byte)                                      {}
func CompactTextString(Message) string                                 { return "msg" }
func EnumName(map[int32]string, int32) string                          { return "enum" }
func UnmarshalJSONEnum(map[string]int32, []byte, string) (int32, error) { return 0, nil }

func Bool(v bool) *bool          { return &v }
func Int(v int) *int32           { p := int32(v); return &p }
func Int32(v int32) *int32       { return &v }
func Int64(v int64) *int64       { return &v }
func Float32(v float32) *float32 { return &v }
func Float64(v float64) *float64 { return &v }
func Uint32(v uint32) *uint32    { return &v }
func Uint64(v uint64) *uint64    { return &v }
func String(v string) *string    { return &v }

var registry []interface{}
var tokens [][]byte

var errCorrupt = errors.New("proto: cannot parse invalid wire-format data")

func Marshal(m Message) ([]byte, error) {
	id := len(registry)
	registry = append(registry, verifvp.Clone(m))
	n := Length(verifvp.TypeOf(m))
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xc3
	}
	b[0], b[1], b[2] = 0x9d, byte(id>>8), byte(id)
	tokens = append(tokens, append([]byte(nil), b...))
	return b, nil
}

// Length is the size of a marshalled message of the given type.
func Length(t string) int {
	switch t {
	case "*github.com/patrickhuang888/goorc/pb/pb.Footer", "*proto.Footer", "*pb.Footer":
		return verifvp.Param("footerLen", 7)
	}
	return verifvp.Param("protoLen", 6)
}

func Unmarshal(b []byte, m Message) error {
	m.Reset()
	if len(b) == 0 {
		return nil
	}
	if len(b) < 3 || b[0] != 0x9d {
		return errCorrupt
	}
	id := int(b[1])<<8 | int(b[2])
	if id >= len(registry) || len(b) != len(tokens[id]) {
		return errCorrupt
	}
	for i := range b {
		if b[i] != tokens[id][i] {
			return errCorrupt
		}
	}
	if !verifvp.CopyInto(m, registry[id]) {
		return errCorrupt
	}
	return nil
}

func Size(m Message) int { return 6 }
func Clone(m Message) Message { return verifvp.Clone(m).(Message) }
