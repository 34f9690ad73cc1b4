package main

import "fmt"

// Column readers over streams made by a reference encoder (harness/verifh/col).
func specCol(P pf, I inf) {
	const pkg = "verifh/col"

	P("C04", "streams encode the values as direct runs (integers of 8 bits) and literals; other encodings of runs are decided by C05..C08, C12")
	R := func(name, bound string, secs int, p kv) *Inst {
		in := I(name, pkg, "Read", secs, p, bound, "done")
		in.NoMerge, in.Steps = true, 2000000
		return in
	}
	for k := 0; k <= kDict; k++ {
		name := kindName[k]
		for nulls := 0; nulls < 2; nulls++ {
			n := name
			if nulls == 1 {
				n += "-nulls"
			}
			S := func(v, bound string, p kv) *Inst {
				p["shape"], p["nulls"] = k, nulls
				return R(n+"-"+v, bound, 60, p)
			}
			few := with(kv{})
			if k == kString || k == kBinary || k == kDict {
				few["maxlen"] = 1
			}
			S("rows", "any 3 rows in one batch, compressed in original chunks of 3 bytes", kv{})
			S("plain", "any 3 rows in one batch, not compressed", kv{"none": 1})
			S("zip", "any 3 rows in batches of 2, every other chunk compressed", kv{"zip": 1, "cut": 2, "last": 2})
			S("absent", "any 3 rows, empty streams are left out", kv{"absent": 1, "last": 1})
			S("seek", "any 3 rows, read up to 2 rows, seek to any row without index, read the rest", with(few, kv{"ops": 1, "last": 2}))
			S("index1", "any 3 rows, read up to 2 rows, seek to any row by an index of every row", with(few, kv{"ops": 1, "stride": 1}))
			S("index2", "any 3 rows, read up to 2 rows, seek to any row by an index of every 2nd row, not compressed", with(few, kv{"ops": 1, "stride": 2, "none": 1}))
			S("index-far", "any 3 rows, seek to any row from any earlier row group", with(few, kv{"ops": 1, "stride": 1, "near": 0, "batch": 0, "zip": 1, "cut": 2}))
			S("index-late", "any 3 rows, positions at the end of the run and chunk before", with(few, kv{"ops": 1, "stride": 1, "batch": 1, "endofrun": 1, "late": 1}))
			S("index-end", "any 3 rows, positions behind the last value at the end of the last run", with(few, kv{"ops": 1, "stride": 1, "batch": 1, "endofrun": 1}))
			S("seeks2", "any 3 rows, 2 seeks to any rows with up to 1 row read between", with(few, kv{"ops": 2, "stride": 2, "batch": 1, "maxlen": 1}))
			few2 := with(few, kv{"rows": 9, "run": 4, "brun": 3, "maxlen": 0, "dict": 1})
			if nulls == 1 || k == kDecimal {
				few2["rows"] = 5
			}
			S("more", "more rows (9, decimals and with nulls 5) with runs of 4 values, seek by an index of every 3rd row", with(few2, kv{"ops": 1, "stride": 3, "batch": 1, "cut": 4}))
			S("more-plain", "more rows with runs of 4 values, seek without index, not compressed", with(few2, kv{"ops": 1, "batch": 1, "none": 1}))
			S("rows5", "any 5 rows, read up to 3 rows, seek by an index of every 2nd row", with(few, kv{"rows": 5, "ops": 1, "stride": 2, "batch": 3})).later(200)
			S("seeks3", "any 4 rows, 3 seeks by an index of every 2nd row", with(few, kv{"rows": 4, "ops": 3, "stride": 2, "batch": 1, "dict": 1, "maxlen": 0})).later(200)
		}
	}
	trees := map[int]string{20: "list-int", 21: "list-string", 22: "list-byte", 23: "map-bool", 24: "map-string", 25: "struct", 26: "list-list", 27: "list-struct",
		28: "struct-list", 29: "map-list", 30: "struct-map", 31: "struct-struct", 32: "struct-struct2", 33: "list-dict", 34: "list-decimal", 35: "map-dict", 36: "list-map", 37: "list-struct-list"}
	for s := 20; s <= 37; s++ {
		for nulls := 0; nulls < 2; nulls++ {
			if s == 32 && nulls == 1 {
				continue // its root has no nulls
			}
			n := trees[s]
			if nulls == 1 {
				n += "-nulls"
			}
			S := func(v, bound string, p kv) *Inst {
				p["shape"], p["nulls"] = s, nulls
				return R(n+"-"+v, bound, 60, p)
			}
			few := kv{"rows": 2, "maxlen": 1, "maxlist": 2, "dict": 1}
			if s == 23 || s == 24 || s == 35 || s >= 36 || s == 29 || s == 27 || s == 26 {
				few["maxlist"] = 1
			}
			S("rows", "any 2 rows in one batch, elements 0..2 (maps and nested lists 0..1)", with(few, kv{}))
			S("plain", "any 2 rows in batches of 1, not compressed", with(few, kv{"none": 1, "last": 1}))
			S("zip", "any 2 rows in batches of 1, every other chunk compressed", with(few, kv{"zip": 1, "cut": 2, "last": 1, "maxlist": 1}))
			S("absent", "any 2 rows, empty streams are left out", with(few, kv{"absent": 1, "maxlist": 1}))
			S("seek", "any 2 rows, read up to 1 row, seek to any row without index", with(few, kv{"ops": 1, "batch": 1, "maxlist": 1}))
			S("index", "any 2 rows, read up to 1 row, seek to any row by an index of every row", with(few, kv{"ops": 1, "batch": 1, "stride": 1, "maxlist": 1}))
			S("index-plain", "any 2 rows, seek to any row by an index of every row, not compressed", with(few, kv{"ops": 1, "batch": 0, "stride": 1, "maxlist": 1, "none": 1}))
			S("index-late", "any 2 rows, seek to any row, positions at the end of the run and chunk before", with(few, kv{"ops": 1, "batch": 0, "stride": 1, "maxlist": 1, "late": 1, "endofrun": 1}))
			S("index3", "any 3 rows, seek to any row by an index of every 2nd row", with(few, kv{"rows": 3, "ops": 1, "batch": 1, "stride": 2, "maxlist": 1})).later(250)
			S("rows3", "any 3 rows in batches of 2", with(few, kv{"rows": 3, "last": 2})).later(120)
		}
	}
}

// specColAny adds the instances of C15 over column readers.
func specColAny(I inf) {
	A := func(name, bound string, p kv, reach ...string) *Inst {
		if _, ok := p["none"]; !ok {
			p["none"] = 1
		}
		in := I("column-"+name, "verifh/col", "Any", 60, p, bound, reach...)
		in.NoMerge, in.Hang, in.Conc, in.Steps = true, true, 600, 400000
		return in
	}
	edge := kv{"n": 9, "h.0": 56, "h.1": -2, "h.2": 0, "h.3": 0, "h.4": 0, "h.5": 0, "h.6": 0, "h.7": 0, "h.8": -2}
	for k := 0; k <= kDict; k++ {
		name := kindName[k]
		switch k {
		case kString, kBinary, kDict:
		default:
			n := 2
			if k == kFloat {
				n = 3
			} else if k == kDouble {
				n = 7
			}
			A(name+"-data", fmt.Sprintf("any %d bytes of the data stream", n), kv{"shape": k, "nulls": 0, "bad": 0, "n": n}, "error")
		}
		A(name+"-positions", "any number of positions in the index", kv{"shape": k, "nulls": 1, "stride": 1, "badpos": 0, "position": 9}, "seek error")
		for i := 0; i < 3; i++ {
			A(fmt.Sprintf("%s-position%d", name, i), "any value of this position of the index", kv{"shape": k, "nulls": 0, "stride": 1, "badpos": 0, "position": i}, "rows")
			A(fmt.Sprintf("%s-position%d-present", name, i), "any value of this position of the index for the present stream", kv{"shape": k, "nulls": 1, "stride": 1, "badpos": 0, "position": i, "maxlen": 0, "dict": 1}, "rows")
		}
	}
	A("long-present", "any 2 bytes of the present stream", kv{"shape": kLong, "bad": 0, "n": 2}, "error")
	for _, k := range []int{kTimestamp, kDecimal} {
		A(kindName[k]+"-second", "any 2 bytes of the second stream", kv{"shape": k, "nulls": 0, "bad": 1, "n": 2}, "error")
	}
	for _, x := range []struct {
		name string
		s, i int
	}{{"string", kString, 1}, {"binary", kBinary, 1}, {"list", 20, 0}, {"map", 23, 0}, {"dict-index", kDict, 0}, {"dict-lengths", kDict, 2}, {"list-list", 26, 0}, {"list-dict", 33, 2}} {
		nulls := 0
		reach := "rows"
		if x.name == "dict-lengths" {
			reach = "error" // a repeat has more lengths than the dictionary bytes
		}
		A(x.name+"-repeat", "lengths or indexes: any repeat of one byte", kv{"shape": x.s, "nulls": nulls, "bad": x.i, "n": 2, "h.0": 0, "maxlist": 1, "maxlen": 1, "rows": 1, "batch": 1}, reach)
		A(x.name+"-edge", "lengths or indexes: wide values near the limits of 64 bits", with(edge, kv{"shape": x.s, "nulls": nulls, "bad": x.i, "maxlist": 1, "maxlen": 1}), "error")
	}
	for i := 0; i < 2; i++ {
		A(fmt.Sprintf("list-position%d", i), "any value of a position of the index for lengths", kv{"shape": 20, "nulls": 0, "stride": 1, "badpos": 0, "position": i, "maxlist": 1}, "rows")
		A(fmt.Sprintf("map-position%d", i), "any value of a position of the index for lengths", kv{"shape": 23, "nulls": 0, "stride": 1, "badpos": 0, "position": i, "maxlist": 1}, "rows")
		A(fmt.Sprintf("list-child-position%d", i), "any value of a position of the index of elements", kv{"shape": 20, "nulls": 0, "stride": 1, "badpos": 1, "position": i, "maxlist": 1}, "rows")
	}
}
