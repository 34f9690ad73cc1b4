// Package verifvp holds the harness intrinsics. Compiled natively it reads the
// values of the nondeterministic inputs from the JSON file named by VP_INPUT;
// the symbolic executor intercepts every function below by name.
package verifvp

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"time"
)

type input struct {
	Vals   map[string]uint64 `json:"vals"`
	Params map[string]int    `json:"params"`
}

var in *input

func load() *input {
	if in == nil {
		in = &input{}
		if p := os.Getenv("VP_INPUT"); p != "" {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			if err := json.Unmarshal(b, in); err != nil {
				panic(err)
			}
		}
	}
	return in
}

func U64(name string) uint64 { return load().Vals[name] }
func U32(name string) uint32 { return uint32(load().Vals[name]) }
func U16(name string) uint16 { return uint16(load().Vals[name]) }
func U8(name string) uint8   { return uint8(load().Vals[name]) }
func I64(name string) int64  { return int64(load().Vals[name]) }
func I32(name string) int32  { return int32(load().Vals[name]) }
func I16(name string) int16  { return int16(load().Vals[name]) }
func I8(name string) int8    { return int8(load().Vals[name]) }
func Bool(name string) bool  { return load().Vals[name] != 0 }

// Range is an arbitrary integer in [lo,hi]; with 0<=lo the variable holds the offset from lo.
func Range(name string, lo, hi int) int {
	v := int(load().Vals[name])
	if lo >= 0 {
		v += lo
	}
	if v < lo || v > hi {
		panic(assumeFailed{})
	}
	return v
}

// Conc is the identity; the executor splits into one path per value.
func Conc(v int) int { return v }

// Choose is an arbitrary integer in [0,n), one path per value.
func Choose(name string, n int) int { return Conc(Range(name, 0, n-1)) }

func N(name string, i int) string { return name + "." + strconv.Itoa(i) }

// Param is a constant of the harness instance.
func Param(name string, def int) int {
	if v, ok := load().Params[name]; ok {
		return v
	}
	return def
}

type assumeFailed struct{}
type assertFailed struct{ msg string }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(assertFailed{msg})
	}
}

// And, Or, Ite64 evaluate both operands (no path split).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { fmt.Println("VP-REACH", label) }

// Out records an observed value, compared between the executor and native runs.
func Out(name string, v uint64) { fmt.Println("VP-OUT", name, v) }

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// Clone is a deep copy of a pointer to a message.
func Clone(x interface{}) interface{} { return deep(reflect.ValueOf(x)).Interface() }

// CopyInto copies the message src points to into dst if they have the same type.
func CopyInto(dst, src interface{}) bool {
	d, s := reflect.ValueOf(dst), reflect.ValueOf(src)
	if d.Type() != s.Type() {
		return false
	}
	d.Elem().Set(deep(s).Elem())
	return true
}

func TypeOf(x interface{}) string { return reflect.TypeOf(x).String() }

func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type().Elem())
		r.Elem().Set(deep(v.Elem()))
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deep(v.Index(i)))
		}
		return r
	case reflect.Struct:
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if r.Field(i).CanSet() {
				r.Field(i).Set(deep(v.Field(i)))
			}
		}
		return r
	}
	return v
}

// Main runs a harness natively and prints its outcome.
func Main(f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
				done <- "pass"
			case assumeFailed:
				done <- "assume"
			case assertFailed:
				done <- "assert " + r.msg
			default:
				done <- fmt.Sprintf("panic %v\n%s", r, debug.Stack())
			}
		}()
		f()
	}()
	select {
	case s := <-done:
		fmt.Println("VP-RESULT:", s)
	case <-time.After(30 * time.Second):
		fmt.Println("VP-RESULT: timeout")
		os.Exit(3)
	}
}

// ---- models of library functions the executor substitutes

type modelError struct{ s string }

func (e *modelError) Error() string { return e.s }

func FmtErrorf(format string, a ...interface{}) error { return &modelError{format} }

// ErrorsWrapf keeps the error and not the text.
func ErrorsWrapf(err error, format string, a ...interface{}) error { return err }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// FmtSprintf models the verbs %d %s %v %t %x and %0*d of fmt.Sprintf.
func FmtSprintf(format string, a ...interface{}) string {
	var out []byte
	next := func() interface{} {
		if len(a) == 0 {
			return "%!MISSING"
		}
		x := a[0]
		a = a[1:]
		return x
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			out = append(out, format[i])
			continue
		}
		i++
		width, zero := 0, false
		if format[i] == '0' {
			zero = true
			i++
		}
		if format[i] == '*' {
			width, _ = next().(int)
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			out = append(out, '%')
			continue
		}
		s, num := fmtValue(next())
		neg := num && len(s) > 0 && s[0] == '-'
		if zero && neg {
			out = append(out, '-')
			s = s[1:]
			width--
		}
		for n := len(s); n < width; n++ {
			if zero {
				out = append(out, '0')
			} else {
				out = append(out, ' ')
			}
		}
		out = append(out, s...)
	}
	return string(out)
}

func fmtValue(x interface{}) (string, bool) {
	switch v := x.(type) {
	case string:
		return v, false
	case int:
		return fmtInt(int64(v)), true
	case int64:
		return fmtInt(v), true
	case int32:
		return fmtInt(int64(v)), true
	case uint64:
		return fmtUint(v), true
	case uint32:
		return fmtUint(uint64(v)), true
	case bool:
		if v {
			return "true", false
		}
		return "false", false
	case error:
		return v.Error(), false
	}
	return "?", false
}

func fmtInt(v int64) string {
	if v < 0 {
		return "-" + fmtUint(-uint64(v))
	}
	return fmtUint(uint64(v))
}

func fmtUint(v uint64) string {
	var b []byte
	for {
		b = append(b, byte('0'+v%10))
		v /= 10
		if v == 0 {
			break
		}
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}
