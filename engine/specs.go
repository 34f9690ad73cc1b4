package main

import (
	"fmt"
	"strings"
)

// The instances that decide each property.

type kv = map[string]int

type pf = func(id string, assume ...string)
type inf = func(name, pkg, fn string, secs int, params kv, bound string, reach ...string) *Inst

func props() map[string]*Prop {
	m := map[string]*Prop{}
	cur := ""
	P := func(id string, assume ...string) {
		cur = id
		if m[id] == nil {
			m[id] = &Prop{ID: id}
		}
		m[id].Assumptions = append(m[id].Assumptions, assume...)
	}
	I := func(name, pkg, fn string, secs int, params kv, bound string, reach ...string) *Inst {
		in := &Inst{Name: name, Pkg: pkg, Fn: fn, Secs: secs, Params: params, Bound: bound, Reach: reach}
		m[cur].Insts = append(m[cur].Insts, in)
		return in
	}
	specFiles(P, I)
	specWide(P, I)
	specEnc(P, I)
	specStm(P, I)
	specColAny(I)
	specCol(P, I)
	return m
}

var kindName = []string{"short", "int", "long", "byte", "bool", "float", "double", "string", "binary", "date", "timestamp", "decimal", "dict", "char", "varchar"}

const (
	kShort = iota
	kInt
	kLong
	kByte
	kBool
	kFloat
	kDouble
	kString
	kBinary
	kDate
	kTimestamp
	kDecimal
	kDict
	kChar
	kVarchar
	nKinds
)

// with joins parameter sets; later ones win.
func with(ms ...kv) kv {
	r := kv{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

type variant struct {
	name string
	p    kv
}

var optVariants = []variant{
	{"zlib", kv{}},
	{"none", kv{"none": 1}},
	{"index", kv{"index": 1, "stride": 2}},
	{"none-index", kv{"none": 1, "index": 1, "stride": 1}},
	{"stripes", kv{"stripe": 1, "maxlen": 1}},
	{"stripes-index", kv{"stripe": 3, "maxlen": 1, "index": 1, "stride": 1, "rows": 4, "nv": 2, "nn": 2}},
	{"none-stripes-index", kv{"stripe": 3, "maxlen": 1, "index": 1, "stride": 2, "rows": 4, "none": 1, "nv": 2, "nn": 2}},
	{"chunks", kv{"chunk": 8, "flate": -1, "maxlen": 1}},
	{"incompressible", kv{"flate": 1}},
}

// tune keeps the domains of the expensive kinds small.
func tune(k int, v string, p kv) (kv, bool) {
	nm := false
	switch k {
	case kFloat, kDouble:
		if v != "zlib" {
			p = with(kv{"fsmall": 1}, p)
		}
	case kDecimal:
		if v == "index" || v == "none-index" || v == "chunks" || strings.HasSuffix(v, "stripes-index") {
			p = with(p, kv{"conc": 1, "nv": 2, "dmul": 37})
			if p["ops"] > 0 {
				p["nv"] = 1
			}
			nm = true
			if v == "chunks" {
				p["flate"] = 0
			}
		}
	}
	if v == "chunks" {
		p = with(p, kv{"nv": 2, "nn": 2})
	}
	return p, nm
}

func specFiles(P pf, I inf) {
	each := func(fn, bound string, secs int, vs []variant, base kv) {
		for k := 0; k < nKinds; k++ {
			for n := 0; n < 2; n++ {
				for _, v := range vs {
					p, nm := tune(k, v.name, with(kv{"kind": k, "nulls": n}, base, v.p))
					I(fmt.Sprintf("%s-nulls%d-%s", kindName[k], n, v.name), "orc", fn, secs, p, bound, "end").NoMerge = nm
				}
			}
		}
	}
	P("C01")
	each("VfRound", "3 rows of the kind, arbitrary values of the small domain and null flags, read in batches of 2", 60, optVariants, kv{"rows": 3, "batch": 2, "span": 2})
	P("C03")
	each("VfSeek", "4 rows, any 2 Next/Seek operations then reading to the end", 60, optVariants[:7], kv{"rows": 4, "batch": 2, "span": 2, "nv": 2, "nn": 2, "ops": 2, "maxlen": 1, "fsmall": 1})
	P("C09")
	for k := 0; k < nKinds; k++ {
		for n := 0; n < 2; n++ {
			p := kv{"kind": k, "rows": 3, "nulls": n}
			nm := false
			if k == kDecimal {
				p["conc"], p["rows"], p["dmul"] = 1, 2, 37
				nm = true
			}
			I(fmt.Sprintf("%s-nulls%d", kindName[k], n), "orc", "VfStats", 60, p, "3 rows, arbitrary values of the small domain and null flags", "end").NoMerge = nm
			p = with(p, kv{"stripe": 1, "maxlen": 1, "none": 1})
			I(fmt.Sprintf("%s-nulls%d-stripes", kindName[k], n), "orc", "VfStats", 60, p, "as above over several stripes", "end").NoMerge = nm
		}
	}
	P("C10")
	for k := 0; k < nKinds; k++ {
		for n := 0; n < 2; n++ {
			p := kv{"kind": k, "rows": 3, "nulls": n, "index": 1, "stride": 2}
			nm := false
			if k == kDecimal {
				p["conc"], p["nv"], p["dmul"] = 1, 2, 37
				nm = true
			}
			I(fmt.Sprintf("%s-nulls%d", kindName[k], n), "orc", "VfIndex", 60, p, "3 rows in groups of 2", "end").NoMerge = nm
			p = with(p, kv{"none": 1, "stride": 1, "maxlen": 1})
			I(fmt.Sprintf("%s-nulls%d-none", kindName[k], n), "orc", "VfIndex", 60, p, "3 rows in groups of 1, uncompressed", "end").NoMerge = nm
		}
	}
	P("C12")
	each("VfLayout", "3 rows", 60, optVariants, kv{"rows": 3})
	specMore(P, I)
}

func specMore(P pf, I inf) {
	orc := func(name, fn string, p kv, bound string) *Inst { return I(name, "orc", fn, 60, p, bound, "end") }
	none := kv{"none": 1}
	idx := kv{"index": 1, "stride": 1}

	P("C02")
	for _, k := range []int{kInt, kString, kBool, kTimestamp, kDict} {
		for i, v := range []kv{{}, {"stripe": 3, "wbatch": 1}, {"stripe": 1, "wbatch": 2}, {"stripe": 3, "none": 1}, {"stripe": 5, "wbatch": 3, "index": 1, "stride": 1}} {
			orc(fmt.Sprintf("%s-%d", kindName[k], i), "VfBatches", with(kv{"kind": k, "nulls": 1, "rows": 4, "maxcap": 3, "nv": 1, "nn": 2, "maxlen": 1}, v), "4 rows, every sequence of capacities 1 to 3")
		}
	}
	orc("struct", "VfBatches", kv{"shape": 4, "kind": kInt, "kind1": kString, "nulls1": 1, "rows": 4, "maxcap": 3, "nv": 0, "nn": 2, "stripe": 1, "wbatch": 2}, "4 rows of struct{struct with nulls{int},string}, every sequence of capacities 1 to 3")
	orc("int-rows6", "VfBatches", kv{"kind": kInt, "nulls": 1, "rows": 6, "maxcap": 2, "nv": 0, "nn": 2, "stripe": 5, "wbatch": 3}, "6 rows in stripes of a few rows, every sequence of capacities 1 and 2")
	orc("int-rows5-wbatch2", "VfBatches", kv{"kind": kInt, "rows": 4, "maxcap": 6, "nv": 0, "stripe": 3, "wbatch": 2}, "4 rows in stripes of a few rows, every sequence of capacities 1 to 6")

	P("C13")
	for _, k := range []int{kShort, kInt, kLong, kByte, kBool, kFloat, kDouble, kString, kBinary, kDate, kTimestamp, kDecimal, kDict} {
		for s := 0; s < 2; s++ {
			orc(fmt.Sprintf("flat-%s-seek%d", kindName[k], s), "VfProject", with(kv{"shape": 2, "kind": k, "kind1": kString, "nulls": 1, "nulls1": 1, "nv": 1, "nn": 1, "rows": 3, "maxlen": 1, "seek": s, "rev": s}), "struct of 2 columns with nulls, 3 rows, every projection")
			orc(fmt.Sprintf("flat-%s-seek%d-index", kindName[k], s), "VfProject", with(kv{"shape": 2, "kind": kString, "kind1": k, "nulls": 1, "nulls1": 1, "nv": 1, "nn": 1, "rows": 3, "maxlen": 1, "seek": s, "index": 1, "stride": 2}), "struct of 2 columns with nulls, 3 rows, row index, every projection")
		}
	}
	for _, sh := range []int{3, 4, 5, 7, 8} {
		for s := 0; s < 2; s++ {
			orc(fmt.Sprintf("shape%d-seek%d", sh, s), "VfProject", kv{"shape": sh, "kind": kInt, "kind1": kString, "nulls1": b2i(sh != 3 && sh != 5), "nv": 1, "nn": 2, "rows": 3, "maxlen": 1, "seek": s}, "nested structs, 3 rows, every projection")
			orc(fmt.Sprintf("shape%d-seek%d-stripes", sh, s), "VfProject", kv{"shape": sh, "kind": kString, "kind1": kTimestamp, "nv": 0, "nn": 2, "rows": 3, "stripe": 1, "none": 1, "seek": s, "rev": 1}, "nested structs, 3 rows in several stripes, every projection")
		}
	}
	orc("unknown", "VfProject", kv{"shape": 4, "kind": kInt, "kind1": kString, "unknown": 1, "nv": 1}, "a column id beyond the schema")

	P("C14")
	for k := 0; k < nKinds; k++ {
		p, nm := tune(k, "none-index", kv{"kind": k, "nulls": 1, "rows": 4, "batch": 0, "nv": 1, "maxlen": 1})
		orc(fmt.Sprintf("dirty-%s", kindName[k]), "VfDirty", p, "4 rows, every null pattern, every batch size, batches holding garbage").NoMerge = nm
		p, nm = tune(k, "none-index", kv{"kind": k, "nulls": 1, "rows": 5, "batch": 2, "nv": 0, "none": 1, "stripe": 3, "wbatch": 2})
		p["nv"] = 0
		orc(fmt.Sprintf("dirty-stripes-%s", kindName[k]), "VfDirty", p, "5 rows in several stripes, every null pattern").NoMerge = nm
		for _, sh := range []int{3, 4, 5} {
			sel := kv{}
			if k == kDecimal {
				sel = kv{"shape": sh, "batch": 2, "nn": 2, "nv": 1}
			}
			p, nm = tune(k, "none-index", with(kv{"shape": sh, "kind": k, "kind1": kInt, "rows": 3, "batch": 0, "nv": 1, "maxlen": 1}, sel))
			p = with(p, sel)
			orc(fmt.Sprintf("shape%d-%s", sh, kindName[k]), "VfDirty", p, "3 rows of nested structs, every null pattern, every batch size, batches holding garbage").NoMerge = nm
		}
	}
	for _, sh := range []int{3, 4, 5, 8} {
		orc(fmt.Sprintf("seek-shape%d", sh), "VfSeek", kv{"shape": sh, "kind": kString, "kind1": kInt, "rows": 4, "batch": 2, "ops": 2, "nv": 0, "nn": 4}, "4 rows of nested structs, every null pattern, any 2 reads or seeks")
		orc(fmt.Sprintf("seek-shape%d-index", sh), "VfSeek", kv{"shape": sh, "kind": kString, "kind1": kInt, "rows": 4, "batch": 2, "ops": 2, "nv": 0, "nn": 4, "index": 1, "stride": 2}, "4 rows of nested structs, every null pattern, row index, any 2 reads or seeks")
	}
	orc("long-nulls", "VfDirty", kv{"kind": kInt, "nulls": 1, "rows": 20, "batch": 7, "nv": 0, "sn": 4, "nn": 8}, "20 rows, every null pattern of rows 4 to 11")
	orc("all-null-run", "VfDirty", kv{"kind": kString, "nulls": 1, "rows": 40, "batch": 16, "nv": 0, "sn": 30, "nn": 4, "nullmod": 1000}, "40 rows, every null pattern of rows 30 to 33")

	P("C16")
	meta := func(name string, p kv) {
		orc(name, "VfMeta", with(kv{"nv": 0, "nn": 0, "nulls": 1}, p), "arbitrary values of the named fields").Model = true
	}
	for i := 0; i < 4; i++ {
		meta(fmt.Sprintf("postscript-lengths-%d", i), with(none, kv{"mut": 0, "fields": i}))
		meta(fmt.Sprintf("postscript-lengths-%d-pslen", i), with(none, kv{"mut": 0, "fields": i, "pslen": 1}))
		meta(fmt.Sprintf("postscript-lengths-%d-zlib", i), kv{"mut": 0, "fields": i})
	}
	meta("postscript-rest", kv{"mut": 1})
	meta("postscript-rest-none", with(none, kv{"mut": 1}))
	meta("footer-numbers", with(none, kv{"mut": 2}))
	meta("footer-numbers-index", with(idx, kv{"mut": 2}))
	meta("footer-numbers-struct", with(none, kv{"mut": 2, "shape": 4, "kind1": kString}))
	for zi, z := range []kv{{"none": 1}, {}} {
		for _, fl := range []int{0, 1, 2, 4, 8, 16, 17, 10, 12, 5, 20}[:11-zi*5] {
			for si := 0; si < 2; si++ {
				meta(fmt.Sprintf("stripe%d-fields%d-none%d", si, fl, z["none"]), with(z, idx, kv{"mut": 3, "fields": fl, "si": si, "stripe": 1, "wbatch": 2, "rows": 3, "kind": kString}))
			}
		}
	}
	for k := 0; k < nKinds; k++ {
		for st := 0; st < 4; st++ {
			meta(fmt.Sprintf("stream%d-%s", st, kindName[k]), with(none, kv{"mut": 4, "stream": st, "kind": k}))
			meta(fmt.Sprintf("stream%d-%s-zlib", st, kindName[k]), kv{"mut": 4, "stream": st, "kind": k, "fields": 4})
		}
		meta("encoding-"+kindName[k], with(none, kv{"mut": 5, "kind": k}))
		meta("missing-stream-"+kindName[k], with(none, kv{"mut": 4, "stream": 99, "cut": 1, "kind": k}))
		for pos := -1; pos < 7; pos++ {
			orc(fmt.Sprintf("index-%s-pos%d", kindName[k], pos), "VfIndexMeta", with(idx, kv{"kind": k, "nulls": 1, "pos": pos, "nv": 0, "nn": 0, "rows": 3}), "any value of one position or any number of positions and entries").Model = true
			if pos < 5 {
				orc(fmt.Sprintf("index-%s-pos%d-none", kindName[k], pos), "VfIndexMeta", with(idx, none, kv{"kind": k, "nulls": 1, "pos": pos, "nv": 0, "nn": 0, "rows": 3}), "any value of one position or any number of positions and entries").Model = true
			}
		}
	}
	meta("encoding-struct", with(none, kv{"mut": 5, "shape": 4, "kind1": kString}))
	meta("streams-struct", with(none, kv{"mut": 4, "cut": 1, "stream": 99, "shape": 4, "kind1": kString}))
	for n := 0; n < 4; n++ {
		meta(fmt.Sprintf("types%d", n), with(none, kv{"mut": 6, "types": n, "fewkinds": b2i(n > 2), "shape": 2, "kind1": kString}))
	}

	P("C17")
	for k := 0; k < nKinds; k++ {
		for i, v := range []kv{{}, {"none": 1}, {"stripe": 3, "wbatch": 1, "index": 1, "stride": 1, "nv": 0}, {"chunk": 8}} {
			orc(fmt.Sprintf("%s-%d", kindName[k], i), "VfCut", with(kv{"kind": k, "nulls": 1, "nv": 1, "nn": 1, "maxlen": 1}, v), "3 rows, every cut")
		}
		orc(fmt.Sprintf("hole-%s", kindName[k]), "VfHole", kv{"kind": k, "nulls": 1, "nv": 0, "nn": 0, "maxlen": 1}, "3 rows, every missing byte of the stripes")
		orc(fmt.Sprintf("hole-%s-none", kindName[k]), "VfHole", kv{"kind": k, "nulls": 1, "nv": 0, "nn": 0, "none": 1}, "3 rows, every missing byte of the stripes")
	}

	P("C18")
	orc("struct3", "VfSchema", kv{"nodes": 3}, "every tree of up to 4 nodes of int, string and struct, arbitrary nullability and names")
	orc("struct4", "VfSchema", kv{"nodes": 4, "leafs": 1, "depth": 3}, "every tree of up to 5 nodes of int and struct, arbitrary nullability and names")
	orc("leafs", "VfSchema", kv{"nodes": 2, "leafs": 4}, "every tree of up to 3 nodes, 4 leaf types")
	orc("empty", "VfSchema", kv{"nodes": 3, "empty": 1}, "files without rows")
	orc("index", "VfSchema", with(idx, kv{"nodes": 2}), "files with a row index")
	orc("lists4", "VfSchema", kv{"nodes": 4, "lists": 1, "depth": 3, "leafs": 1}, "every tree of up to 5 nodes of int, struct, list and map")
	orc("lists3", "VfSchema", kv{"nodes": 3, "lists": 1, "depth": 3, "leafs": 2}, "every tree of up to 4 nodes of int, string, struct, list and map")
	orc("unnumbered", "VfSchema", kv{"nodes": 3, "unnumbered": 1}, "schemas never numbered")

	P("C19")
	for _, k := range []int{kInt, kString, kBool, kTimestamp, kDict, kDecimal, kByte, kFloat} {
		for sh := 0; sh < 2; sh++ {
			orc(fmt.Sprintf("readers-%s-shared%d", kindName[k], sh), "VfReaders", kv{"kind": k, "nulls": 1, "nv": 1, "nn": 1, "shared": sh, "maxlen": 1, "fsmall": 1, "ops": 2}, "3 rows, every 2 operations of 2 readers")
			orc(fmt.Sprintf("readers-%s-shared%d-stripes", kindName[k], sh), "VfReaders", kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1, "shared": sh, "stripe": 1, "wbatch": 1, "index": 1, "stride": 1, "ops": 2}, "3 rows in 3 stripes, every 2 operations of 2 readers")
		}
		orc(fmt.Sprintf("writers-%s", kindName[k]), "VfWriters", kv{"kind": k, "nulls": 1, "nv": 1, "nn": 0, "rows": 2 - b2i(k == kDecimal), "maxlen": 1, "fsmall": 1, "span": 1, "conc": 1}, "2 rows (decimal 1), every interleaving of 2 writers").NoMerge = k == kDecimal
		orc(fmt.Sprintf("writers-%s-none-index", kindName[k]), "VfWriters", kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1, "rows": 2, "none": 1, "index": 1, "stride": 1, "stripe": 1}, "2 rows, every interleaving of 2 writers")
		orc(fmt.Sprintf("writeread-%s", kindName[k]), "VfWriteRead", kv{"kind": k, "nulls": 1, "nv": 1, "nn": 0, "rows": 2, "maxlen": 1, "fsmall": 1, "span": 1, "conc": 1}, "2 rows, every interleaving of a writer and a reader").NoMerge = k == kDecimal
	}
	orc("readers3", "VfReaders", kv{"kind": kInt, "nulls": 1, "nv": 0, "nn": 1, "ops": 3, "stripe": 1, "wbatch": 2}, "3 rows, every 3 operations of 2 readers")
	orc("readers3-shared", "VfReaders", kv{"kind": kString, "nulls": 1, "nv": 0, "nn": 1, "ops": 3, "shared": 1, "index": 1, "stride": 2}, "3 rows, every 3 operations of 2 readers")

	P("C20")
	tail := func(n int, p kv) {
		in := orc(fmt.Sprintf("footer%d-none%d", n, p["none"]), "VfTailSize", with(kv{"footerLen": n, "nv": 1, "rows": 2}, p), "2 rows, footer of the given length")
		in.Model, in.Steps = true, 20000000
	}
	for _, n := range []int{60, 4096, 16000, 16365, 16370, 16373, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 16390, 16400, 17000, 20000, 24000} {
		tail(n, none)
		tail(n, kv{"chunk": 65536, "flate": 1})
	}

	P("C22")
	for k := 0; k < nKinds; k++ {
		for i, v := range []kv{{}, {"none": 1}, {"stripe": 1, "wbatch": 1, "index": 1, "stride": 1}, {"stripe": 1, "wbatch": 2, "none": 1, "index": 1, "stride": 1}} {
			orc(fmt.Sprintf("write-%s-%d", kindName[k], i), "VfWriteFault", with(kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1}, v), "3 rows, a fault at every call")
			orc(fmt.Sprintf("read-%s-%d", kindName[k], i), "VfReadFault", with(kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1}, v), "3 rows, a fault at every call")
			orc(fmt.Sprintf("seek-%s-%d", kindName[k], i), "VfReadFault", with(kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1, "seekto": 2}, v), "3 rows read with seeks, a fault at every call")
		}
	}

	P("C23")
	for k := 0; k < nKinds; k++ {
		for i, v := range []kv{{}, {"none": 1}, {"rest": 1}, {"rest": 2, "none": 1}, {"stripe": 1, "wbatch": 1, "index": 1, "stride": 1, "seekto": 2}, {"rest": 3, "chunk": 8}} {
			orc(fmt.Sprintf("%s-%d", kindName[k], i), "VfShort", with(kv{"kind": k, "nulls": 1, "nv": 0, "nn": 1, "shorts": 2, "maxlen": 1}, v), "3 rows, every pattern of 2 consecutive short reads (1 byte, half, all with EOF) at any place").NoMerge = true
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
