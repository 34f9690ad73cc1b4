package main

import "fmt"

// Whole files again: structs and several columns, and more rows than a run, a row
// group or a chunk holds, with a window of arbitrary values at their boundaries.
func specWide(P pf, I inf) {
	file := func(name, fn string, p kv, bound string) *Inst {
		in := I(name, "orc", fn, 60, p, bound, "end")
		in.NoMerge, in.Steps = true, 20000000
		return in
	}
	base := func(k int) kv {
		p := kv{"fsmall": 1, "maxlen": 1, "conc": 1}
		if k == kDecimal {
			p["dmul"] = 37
		}
		return p
	}
	type wide struct {
		rows, at int
		p        kv
		name     string
	}
	wides := []wide{
		{133, 126, kv{"batch": 50}, "run127"},
		{133, 127, kv{"batch": 40, "none": 1, "rep": 7}, "run128-repeats"},
		{520, 510, kv{"batch": 256, "none": 1}, "run511"},
		{520, 511, kv{"batch": 200, "rep": 600, "index": 1, "stride": 100}, "run512-same"},
		{70, 62, kv{"batch": 30, "chunk": 16, "flate": 1}, "chunks"},
		{70, 48, kv{"batch": 30, "stripe": 40, "wbatch": 9, "index": 1, "stride": 7}, "stripes"},
	}
	for k := 0; k < nKinds; k++ {
		for n := 0; n < 2; n++ {
			for _, w := range wides {
				p := with(base(k), kv{"kind": k, "nulls": n, "rows": w.rows, "sv": w.at, "nv": 2, "sn": w.at, "nn": 2, "span": 2}, w.p)
				name := fmt.Sprintf("%s-nulls%d-%s", kindName[k], n, w.name)
				if k == kDecimal || k == kDict {
					p["nv"], p["nn"] = 1, 1
				}
				P("C01")
				file("wide-"+name, "VfRound", p, fmt.Sprintf("%d rows, any values and nulls of 2 rows (decimal, dict 1) from row %d on", w.rows, w.at))
				P("C12")
				file("wide-"+name, "VfLayout", with(p, kv{"nv": 1, "nn": 1}), fmt.Sprintf("%d rows, any value and null of row %d", w.rows, w.at)).Thorough = k == kDecimal || k == kDict
			}
			seeks := []wide{
				{133, 125, kv{"batch": 50, "index": 1, "stride": 100}, "run127"},
				{270, 126, kv{"batch": 90, "index": 1, "stride": 130, "none": 1, "rep": 9}, "run128-repeats"},
				{520, 509, kv{"batch": 256, "index": 1, "stride": 200}, "run511"},
				{70, 33, kv{"batch": 9, "chunk": 16, "flate": 1, "index": 1, "stride": 7}, "chunks"},
				{70, 33, kv{"batch": 9, "chunk": 24, "flate": 0}, "chunks-plain"},
				{70, 46, kv{"batch": 30, "stripe": 40, "wbatch": 9, "index": 1, "stride": 7}, "stripes"},
			}
			for _, w := range seeks {
				p := with(base(k), kv{"kind": k, "nulls": n, "rows": w.rows, "sv": w.at + 1, "nv": 1, "sn": w.at + 1, "nn": 1, "span": 2, "ops": 2, "ts": w.at, "tn": 4}, w.p)
				name := fmt.Sprintf("%s-nulls%d-%s", kindName[k], n, w.name)
				P("C03")
				file("wide-"+name, "VfSeek", p, fmt.Sprintf("%d rows, any 2 reads or seeks to rows %d..%d, any value and null of row %d", w.rows, w.at, w.at+3, w.at+1))
				if w.p["index"] == 0 {
					continue
				}
				P("C10")
				file("wide-"+name, "VfIndex", p, fmt.Sprintf("%d rows in groups of %d, any value and null of row %d", w.rows, w.p["stride"], w.at+1))
			}
			P("C09")
			p := with(base(k), kv{"kind": k, "nulls": n, "rows": 520, "sv": 510, "nv": 1, "sn": 510, "nn": 1, "span": 2, "wbatch": 100})
			file(fmt.Sprintf("wide-%s-nulls%d", kindName[k], n), "VfStats", p, "520 rows, any value and null of row 510")
		}
		for _, sh := range []int{2, 3, 4, 5, 7, 8} {
			for i, o := range []kv{{"index": 1, "stride": 2, "nv": 0, "nn": 2 - b2i(sh > 6)}, {"none": 1, "stripe": 3, "wbatch": 1, "nv": 1, "nn": 0}} {
				p := with(base(k), kv{"kind": k, "kind1": (k + 1 + i*5) % nKinds, "shape": sh, "nulls": 1, "nulls1": 1, "rows": 3, "span": 2, "sv": 2, "batch": 2}, o)
				bound := [...]string{"3 rows of structs in groups of 2, any nulls of the first 2 rows (6 columns: 1 row)", "3 rows of structs in several stripes, any values of a row"}[i]
				name := fmt.Sprintf("shape%d-%d-%s", sh, i, kindName[k])
				big := i == 1 && sh > 6 && (k == kFloat || k == kDecimal)
				P("C01")
				file(name, "VfRound", p, bound).Thorough = big
				P("C12")
				file(name, "VfLayout", p, bound).Thorough = big
				P("C09")
				file(name, "VfStats", p, bound).Thorough = big
				P("C14")
				if sh != 2 && sh != 7 && i == 0 {
					file("garbage-"+name, "VfRound", with(p, kv{"garbage": 1}), "3 rows of structs, any nulls of the first 2 rows, columns of null structs hold values")
				}
				if i == 0 {
					P("C10")
					file(name, "VfIndex", p, bound)
				}
			}
		}
	}
}
