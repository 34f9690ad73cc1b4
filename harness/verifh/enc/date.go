package enc

import (
	"bytes"
	"math"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
	vp "github.com/patrickhuang888/goorc/verifvp"
)

// refDays is the number of days from 1970-01-01 to a date of the proleptic Gregorian calendar.
func refDays(y, m, d int) int {
	cum := [...]int{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
	p := y - 1
	f := func(a, b int) int { // floor division
		q := a / b
		if a%b < 0 {
			q--
		}
		return q
	}
	n := 365*p + f(p, 4) - f(p, 100) + f(p, 400) - 719162
	n += cum[m-1] + d - 1
	if m > 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		n++
	}
	return n
}

// DayRound: every day number names a midnight in UTC and comes back.
func DayRound() {
	d := vp.I32("d")
	x := api.FromDays(d)
	t := time.Time(x)
	vp.Assert(t.Unix() == int64(d)*86400, "day number names another time")
	vp.Assert(t.Nanosecond() == 0, "date has a time of day")
	vp.Assert(api.ToDays(x) == d, "day number changed")
	vp.Reach("done")
}

// DayFloor: any time is on the day that contains it, also before 1970.
func DayFloor() {
	d := vp.I32("d")
	s := int64(d)*86400 + int64(vp.Range("s", 0, 86399))
	t := time.Unix(s, int64(vp.Range("n", 0, 999999999)))
	vp.Assert(api.ToDays(api.Date(t.UTC())) == d, "time is on another day")
	vp.Reach("done")
}

// Calendar: dates of the calendar have the day numbers that the calendar defines.
func Calendar() {
	y := vp.Param("y", 1970) + vp.Choose("y", vp.Param("ny", 1))
	m := 1 + vp.Choose("m", 12)
	max := [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		max = 29
	}
	d := vp.Range("d", 1, max)
	x := api.NewDate(y, time.Month(m), d)
	want := int32(refDays(y, m, d))
	vp.Assert(api.ToDays(x) == want, "date has another day number")
	vp.Assert(time.Time(api.FromDays(want)).Unix() == time.Time(x).Unix(), "day number names another date")
	vp.Reach("done")
}

// Stamp: a time becomes a timestamp relative to 2015 and back, in any time zone.
func Stamp() {
	lo, hi := vp.Param("lo", -4000000000), vp.Param("hi", 4000000000)
	s := int64(vp.Range("s", lo, hi))
	n := int64(vp.Range("n", 0, 999999999))
	off := vp.Range("off", -vp.Param("off", 0), vp.Param("off", 0))
	loc := time.UTC
	if vp.Param("off", 0) != 0 {
		loc = time.FixedZone("zone", off)
	}
	t := time.Unix(s, n).In(loc)
	ts := api.GetTimestamp(t)
	vp.Assert(ts.Nanos == uint64(n), "nanoseconds changed")
	// 2015-01-01 00:00 of the zone
	vp.Assert(ts.Seconds == s-(1420070400-int64(off)), "seconds are not those since 2015")
	u := ts.Time()
	vp.Assert(u.Unix() == s, "seconds changed")
	vp.Assert(int64(u.Nanosecond()) == n, "nanoseconds changed")
	vp.Assert(ts.GetMilliSeconds() == s*1000+n/1000000, "milliseconds differ")
	vp.Assert(ts.GetMilliSecondsUtc() == (s+int64(off))*1000+n/1000000, "milliseconds of the local time differ")
	if vp.Param("off", 0) == 0 {
		ts.Loc = nil
		vp.Assert(ts.Time().Unix() == s, "timestamps without a zone are not in UTC")
	}
	vp.Reach("done")
}

// Dec: the number a decimal stands for.
func Dec() {
	p := vp.I64("p")
	s := vp.Param("scale", 2)
	got := api.Decimal64{Precision: p, Scale: s}.Float64()
	want := float64(p)
	ten := 1.0
	for i := 0; i < s || i < -s; i++ {
		ten *= 10
	}
	if s > 0 {
		want /= ten
	} else if s < 0 {
		want *= ten
	}
	vp.Assert(math.Float64bits(got) == math.Float64bits(want), "decimal stands for another number")
	vp.Reach("done")
}

// DateRound: dates through their encoder.
func DateRound() {
	n := vp.Param("n", 2)
	e := encoding.NewDateV2Encoder(vp.Param("pos", 0) != 0)
	buf := &bytes.Buffer{}
	var ds []int32
	var ref []uint64
	for i := 0; i < n; i++ {
		d := vp.I32(vp.N("d", i))
		if vp.Param("small", 0) != 0 {
			d = int32(vp.I8(vp.N("s", i)))
		}
		ds = append(ds, d)
		ref = append(ref, uint64(int64(d)))
		vp.Assert(e.Encode(api.FromDays(d), buf) == nil, "encoder returned an error")
		if flushHere(i + 1) {
			vp.Assert(e.Flush(buf) == nil, "flush returned an error")
		}
	}
	vp.Assert(e.Flush(buf) == nil, "flush returned an error")
	g, ok := refRLE2(append([]byte(nil), buf.Bytes()...), true, vp.Conc)
	vp.Assert(ok, "output is not valid RLEv2")
	same(ref, g, "output means other days")
	dec := encoding.NewDateV2DeCoder()
	var got []api.Date
	for buf.Len() > 0 {
		x, err := dec.Decode(buf)
		vp.Assert(err == nil, "decoder rejects encoder output")
		got = append(got, x...)
	}
	vp.Assert(len(got) == n, "number of dates changed")
	good := true
	for i := range got {
		good = vp.And(good, api.ToDays(got[i]) == ds[i]) // DayRound: ToDays is one to one on FromDays
	}
	vp.Assert(good, "dates changed")
	vp.Reach("done")
}
