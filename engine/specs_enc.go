package main

import "fmt"

// The properties of single encodings (harness/verifh/enc).
func specEnc(P pf, I inf) {
	const pkg = "verifh/enc"
	b2 := func(x int) string { return []string{"signed", "unsigned"}[x] }

	P("C05")
	R := func(name, bound string, secs int, p kv) *Inst {
		return I(name, pkg, "IntRound", secs, p, bound, "done")
	}
	for u := 0; u < 2; u++ {
		s := b2(u)
		for n := 1; n <= 3; n++ {
			R(fmt.Sprintf("any%d-%s", n, s), fmt.Sprintf("all sequences of %d 64-bit values", n), 200, kv{"n": n, "unsigned": u, "ref": 1})
		}
		R("any2-flush-"+s, "all sequences of 2 32-bit values, flushed between them", 60, kv{"n": 2, "w": 32 - 63*u, "unsigned": u, "ref": 1, "flushat": 1})
		R("any2-pos-"+s, "all sequences of 2 values, positions recorded", 60, kv{"n": 2, "unsigned": u, "ref": 1, "pos": 1})
		for _, l := range []int{2, 3, 4, 9, 10, 11, 12, 511, 512, 513, 514, 515, 516, 1024, 1026, 1030} {
			R(fmt.Sprintf("run%d-%s", l, s), fmt.Sprintf("%d copies of any 64-bit value", l), 120, kv{"alen": l, "unsigned": u, "ref": 1})
		}
		for _, l := range [][2]int{{2, 3}, {3, 3}, {3, 2}, {10, 3}, {11, 2}, {11, 11}, {509, 3}, {511, 3}, {512, 4}, {513, 3}} {
			R(fmt.Sprintf("run%d-run%d-%s", l[0], l[1], s), fmt.Sprintf("%d copies of any 16-bit value, then %d of another", l[0], l[1]), 100, kv{"alen": l[0], "aw": 16, "abase": 40000 * u, "blen": l[1], "bw": 16, "bbase": 40000 * u, "unsigned": u, "ref": 1})
		}
		for _, l := range []int{3, 4, 5, 8, 12} {
			R(fmt.Sprintf("lit%d-run3-%s", l, s), fmt.Sprintf("%d fixed literals, then 3 copies of any value", l), 100, kv{"alen": l, "akind": 3, "blen": 3, "unsigned": u, "ref": 1})
			R(fmt.Sprintf("lit%d-run11-lit2-%s", l, s), fmt.Sprintf("%d fixed literals, 11 copies of any value, 2 literals", l), 100, kv{"alen": l, "akind": 3, "blen": 11, "clen": 2, "ckind": 3, "unsigned": u, "ref": 1})
		}
		for _, st := range []int{1, -1, 7, -300, 1 << 31, -1 << 40, 1 << 62, -1 << 63} {
			for _, l := range []int{3, 4, 10, 11} {
				R(fmt.Sprintf("step%d-len%d-%s", st, l, s), fmt.Sprintf("%d values with steps of %d from any 64-bit value", l, st), 120, kv{"alen": l, "akind": 1, "dw": 0, "adw": 0, "astep": st, "unsigned": u, "ref": 1})
			}
		}
		for _, st := range []int{1, -1, 7, -8, 1 << 31} {
			for _, l := range []int{512, 513} {
				R(fmt.Sprintf("step%d-len%d-%s", st, l, s), fmt.Sprintf("%d values with steps of %d from any of 16 values", l, st), 200, kv{"alen": l, "akind": 1, "aw": -4, "abase": 1000 + 1<<20*u, "adw": 0, "astep": st, "unsigned": u, "ref": 1}).deep().Thorough = st == 1<<31
			}
		}
		for i, bs := range []int{0, 5, 1<<63 - 1, -1 << 63} {
			for l, dw := range map[int]int{3: 64, 4: 32, 5: 16, 10: 8} {
				R(fmt.Sprintf("base%d-len%d-%s", i, l, s), fmt.Sprintf("%d values with any %d-bit step from %d", l, dw, bs), 120, kv{"alen": l, "akind": 1, "aw": 0, "abase": bs, "adw": dw, "unsigned": u, "ref": 1})
			}
		}
		for _, l := range []int{4, 5, 6} {
			for d := 0; d < 2; d++ {
				R(fmt.Sprintf("monotone%d-down%d-%s", l, d, s), fmt.Sprintf("%d values with any small steps of one sign", l), 120, kv{"alen": l, "akind": 5, "aw": -2, "adown": d, "abase": 100, "unsigned": u, "ref": 1})
			}
		}
		for _, l := range []int{10, 20, 33} {
			for _, pos := range []int{0, 7, l - 1} {
				for _, sh := range []int{0, 12, 48} {
					R(fmt.Sprintf("outlier%d-at%d-shift%d-%s", l, pos, sh, s), fmt.Sprintf("%d small values of a pattern with any 12-bit value shifted by %d at %d", l, sh, pos), 120, kv{"alen": l, "akind": 4, "apos": pos, "aw": -12, "ash": sh, "unsigned": u, "ref": 1}).deep()
				}
			}
		}
		for _, l := range []int{100, 512} {
			for _, pos := range []int{0, l - 1} {
				for _, sh := range []int{0, 8, 30, 60} {
					R(fmt.Sprintf("outlier%d-at%d-shift%d-%s", l, pos, sh, s), fmt.Sprintf("%d small values of a pattern with any 3-bit value shifted by %d at %d", l, sh, pos), 120, kv{"alen": l, "akind": 4, "apos": pos, "aw": -3, "ash": sh, "unsigned": u, "ref": 1}).deep()
				}
			}
		}
		for _, p := range [][3]int{{30, 1, 2}, {300, 0, 299}, {400, 0, 256}, {400, 1, 257}, {512, 100, 400}} {
			for _, sh := range []int{8, 40} {
				R(fmt.Sprintf("outliers%d-at%d-%d-shift%d-%s", p[0], p[1], p[2], sh, s), fmt.Sprintf("%d small values with any 2-bit values shifted by %d at two places", p[0], sh), 120, kv{"alen": p[0], "akind": 4, "apos": p[1], "apos2": p[2], "aw": -2, "ash": sh, "unsigned": u, "ref": 1}).deep()
			}
		}
	}

	P("C06")
	for u := 0; u < 2; u++ {
		s := b2(u)
		D := func(name, bound string, p kv, reach ...string) *Inst {
			p["unsigned"] = u
			return I(name+"-"+s, pkg, "IntDiff", 60, p, bound, reach...)
		}
		for w := 1; w <= 8; w++ {
			for c := 3; c <= 10; c++ {
				D(fmt.Sprintf("repeat%d-width%d", c, w), "short repeat of any value", kv{"n": 1 + w, "h.0": (w-1)<<3 | (c - 3)}, "valid")
			}
			D(fmt.Sprintf("repeat-width%d-cut", w), "short repeat, truncated", kv{"n": w, "h.0": (w-1)<<3 | 2}, "invalid")
		}
		for wc := 0; wc < 32; wc++ {
			w := widthOf(wc)
			for _, l := range []int{1, 2, 3, 8, 9} {
				D(fmt.Sprintf("direct%d-width%d", l, w), "direct run of any values", kv{"n": 2 + (w*l+7)/8, "h.0": 0x40 | wc<<1, "h.1": l - 1}, "valid")
			}
			D(fmt.Sprintf("direct3-width%d-cut", w), "direct run, truncated", kv{"n": 1 + (w*3+7)/8, "h.0": 0x40 | wc<<1, "h.1": 2}, "invalid")
		}
		for _, l := range []int{256, 257, 512} {
			for _, wc := range []int{0, 2, 10} {
				w := widthOf(wc)
				D(fmt.Sprintf("direct%d-width%d", l, w), "direct run of any values", kv{"n": 2 + (w*l+7)/8, "h.0": 0x40 | wc<<1 | (l-1)>>8, "h.1": (l - 1) & 255}, "valid")
			}
		}
		up := func(w int) int { // stored width
			for c := 0; c < 32; c++ {
				if widthOf(c) >= w {
					return widthOf(c)
				}
			}
			return 64
		}
		patched := func(wc, l, bw, pwc, pgw, pl, cut int) *Inst {
			w, pw := widthOf(wc), widthOf(pwc)
			n := 4 + bw + (w*l+7)/8 + (up(pw+pgw)*pl+7)/8 - cut
			reach := "valid"
			if cut > 0 {
				reach = "invalid"
			}
			return D(fmt.Sprintf("patched%d-width%d-base%d-patch%dx%d-gap%d-cut%d", l, w, bw, pl, pw, pgw, cut), "patched base run of any base, values, gaps and patches",
				kv{"n": n, "h.0": 0x80 | wc<<1 | (l-1)>>8, "h.1": (l - 1) & 255, "h.2": (bw-1)<<5 | pwc, "h.3": (pgw-1)<<5 | pl}, reach).deep()
		}
		for wc := 0; wc < 32; wc++ {
			patched(wc, 3, 1+wc%8, wc*7%24, 1+wc%3, 1, 0)
		}
		for bw := 1; bw <= 8; bw++ {
			patched(7, 3, bw, 15, bw, 1, 0)
			patched(3, 4, bw, 3, 2, 2, 0)
			patched(3, 4, bw, 3, 2, 2, 1)
		}
		for pwc := 0; pwc < 32; pwc++ {
			if widthOf(pwc) <= 56 {
				patched(4, 3, 2, pwc, 2, 1, 0)
			}
		}
		in := patched(4, 300, 2, 3, 8, 2, 0) // an empty patch 255 places on, then one 0 to 15 places further
		in.Params["t.3"], in.Params["t.2"] = 255, 0
		delta := func(wc, l, vb, vd, cut int) {
			w := 0
			if wc > 0 && l > 2 {
				w = widthOf(wc)
			}
			reach := "valid"
			if cut > 0 {
				reach = "invalid"
			}
			D(fmt.Sprintf("delta%d-width%d-base%d-step%d-cut%d", l, w, vb, vd, cut), "delta run of any base, step and deltas of the given sizes in bytes",
				kv{"n": 2 + vb + vd + (w*(l-2)+7)/8 - cut, "h.0": 0xc0 | wc<<1 | (l-1)>>8, "h.1": (l - 1) & 255, "vb": vb, "vd": vd}, reach).deep()
		}
		for wc := 0; wc < 32; wc++ {
			delta(wc, 3, 2, 1, 0)
			delta(wc, 4, 1, 2, 0)
			delta(wc, 4, 1, 1, 1)
		}
		for n := 1; n <= 10; n++ {
			delta(0, 2, n, 11-n, 0)
			delta(0, 3, n, n, 0)
			delta(5, 3, n, n, 0)
			delta(5, 3, n, n, 3)
		}
		delta(0, 1, 3, 2, 0)
		delta(0, 10, 2, 2, 0)
		delta(0, 512, 3, 3, 0)
		delta(3, 10, 1, 1, 0)
		delta(3, 512, 1, 1, 0)
	}

	P("C07")
	q := func(name, fn, bound string, secs int, p kv) *Inst { return I(name, pkg, fn, secs, p, bound, "done") }
	for pos := 0; pos < 2; pos++ {
		for n := 1; n <= 6; n++ {
			q(fmt.Sprintf("bytes%d-pos%d", n, pos), "ByteRound", "any bytes", 60, kv{"n": n, "pos": pos})
			if n > 1 {
				q(fmt.Sprintf("bytes%d-flush-pos%d", n, pos), "ByteRound", "any bytes, any flushes", 100, kv{"n": n, "pos": pos, "flushes": 1})
			}
		}
		for _, l := range []int{127, 128, 129, 130, 131, 132, 133, 260, 261} {
			q(fmt.Sprintf("byterun%d-pos%d", l, pos), "ByteRound", "copies of any byte, then two any", 60, kv{"alen": l, "blen": 2, "bkind": 1, "pos": pos})
			q(fmt.Sprintf("byterun%d-run-pos%d", l, pos), "ByteRound", "copies of any byte, then three of another", 60, kv{"alen": l, "blen": 3, "pos": pos})
		}
		for _, l := range []int{125, 126, 127, 128, 129, 130, 255, 256, 257} {
			q(fmt.Sprintf("byteliterals%d-pos%d", l, pos), "ByteRound", "different bytes, the last three any", 60, kv{"alen": l, "akind": 3, "asym": 3, "pos": pos})
			q(fmt.Sprintf("byteliterals%d-run-pos%d", l, pos), "ByteRound", "different bytes, the last any, then three copies of any", 60, kv{"alen": l, "akind": 3, "asym": 1, "blen": 3, "pos": pos})
			q(fmt.Sprintf("byteliterals%d-flush-pos%d", l, pos), "ByteRound", "different bytes, a flush before the last", 60, kv{"alen": l, "akind": 3, "asym": 2, "pos": pos, "flushat": l - 1})
		}
		for _, n := range []int{1, 7, 8, 9, 16, 17} {
			q(fmt.Sprintf("bools%d-pos%d", n, pos), "BoolRound", "any booleans", 60, kv{"n": n, "pos": pos})
		}
		q(fmt.Sprintf("bools9-flush-pos%d", pos), "BoolRound", "any booleans, any flushes", 100, kv{"n": 9, "pos": pos, "flushes": 1})
		for _, n := range []int{1024, 1040, 1048, 1049} {
			q(fmt.Sprintf("bools%d-pos%d", n, pos), "BoolRound", "fixed booleans, the last 9 any", 60, kv{"n": n, "sym": 9, "pos": pos})
		}
	}
	for _, c := range []int{0, 1, 4, 125, 126, 127} {
		q(fmt.Sprintf("bytediff-run%d", c), "ByteDiff", "a run header, then any bytes", 100, kv{"n": 4, "ctl": c})
	}
	for c := 1; c <= 6; c++ {
		q(fmt.Sprintf("bytediff-literals%d", c), "ByteDiff", "a literal header, then any bytes, possibly too few", 100, kv{"n": 4, "ctl": 256 - c})
	}
	for d := 0; d < 2; d++ {
		nm := []string{"float", "double"}[d]
		for n := 1; n <= 4; n++ {
			q(fmt.Sprintf("%s%d", nm, n), "FloatRound", "any bit patterns", 60, kv{"double": d, "n": n})
		}
		q(nm+"-flush", "FloatRound", "any bit patterns, any flushes", 60, kv{"double": d, "n": 3, "flushes": 1})
	}
	q("varint1", "VarintRound", "any 64-bit value", 60, kv{"n": 1})
	q("varint2", "VarintRound", "any two 64-bit values", 120, kv{"n": 2})
	for n := 1; n <= 5; n++ {
		q(fmt.Sprintf("varintdiff%d", n), "VarintDiff", "any bytes", 60, kv{"n": n})
	}
	for n := 6; n <= 12; n++ {
		q(fmt.Sprintf("varintdiff%d", n), "VarintDiff", "any bytes of which all but two continue", 60, kv{"n": n, "long": 1})
	}
	for n := 1; n <= 3; n++ {
		q(fmt.Sprintf("strings%d", n), "StringRound", "any strings of up to 2 bytes, any flushes", 60, kv{"n": n, "flushes": 1})
	}

	P("C08")
	q("day", "DayRound", "all 32-bit day numbers", 60, kv{})
	q("dayfloor", "DayFloor", "all times of all 32-bit days", 60, kv{})
	for _, y := range []int{1, 4, 100, 400, 1582, 1600, 1700, 1899, 1900, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2100, 2400, 9999} {
		q(fmt.Sprintf("calendar%d", y), "Calendar", "all dates of the year", 60, kv{"y": y})
	}
	for _, o := range []int{0, 50400} {
		q(fmt.Sprintf("stamp-zone%d", o), "Stamp", "all seconds within 126 years of 1970 in zones up to this many seconds from UTC, all nanoseconds", 60, kv{"off": o})
	}
	q("stamp-wide", "Stamp", "all seconds of 30000 years", 60, kv{"lo": -1 << 39, "hi": 1 << 39})
	for sc := -4; sc <= 22; sc++ {
		q(fmt.Sprintf("decimal-scale%d", sc), "Dec", "all 64-bit digits", 60, kv{"scale": sc})
	}
	for n := 1; n <= 3; n++ {
		q(fmt.Sprintf("dates%d", n), "DateRound", "any 32-bit days", 100, kv{"n": n})
	}
	q("dates4", "DateRound", "any 8-bit days", 100, kv{"n": 4, "small": 1}).later(600)
	q("dates3-flush", "DateRound", "any 8-bit days, any flushes", 100, kv{"n": 3, "small": 1, "flushes": 1})
	q("dates3-pos", "DateRound", "any 8-bit days, positions recorded", 100, kv{"n": 3, "small": 1, "pos": 1})
	q("nanos", "NanoRound", "all nanoseconds of a second", 600, kv{}).NoMerge = true
}

func widthOf(code int) int {
	if code < 24 {
		return code + 1
	}
	return [...]int{26, 28, 30, 32, 40, 48, 56, 64}[code-24]
}

// deep runs every path on its own, however long.
func (in *Inst) deep() *Inst {
	in.NoMerge, in.Steps = true, 4000000
	return in
}

// later leaves the instance to the thorough tier.
func (in *Inst) later(secs int) *Inst {
	in.Thorough, in.Secs = true, secs
	return in
}
