package main

import "fmt"

// The properties of single streams and chunks (harness/verifh/stm, harness/orc/common).
func specStm(P pf, I inf) {
	const pkg = "verifh/stm"

	P("C11", "deflate is any lossless function whose output has one of the lengths minimal, equal to the input, one more than the input (chosen per chunk)")
	I("header", "orc/common", "HeaderRound", 20, kv{}, "every length below 2^23, compressed or original", "done").Optional = true
	I("header-any", pkg, "HeaderAny", 20, kv{}, "every 3 bytes", "done")
	I("chunk-sizes", pkg, "ChunkSizes", 20, kv{}, "every 64-bit chunk size", "valid", "invalid")
	F := func(name, bound string, secs int, p kv) *Inst {
		return I(name, pkg, "Framing", secs, p, bound, "done")
	}
	F("any-length", "0..8 bytes in one piece, chunk size 1..9, every chunk of any kind", 60, kv{"n": 8, "chunks": 9, "anylen": 1, "sym": 8, "flate": -1})
	F("pieces", "7 bytes in any 3 pieces, chunk size 1..8, every chunk of any kind", 100, kv{"n": 7, "chunks": 8, "pieces": 3, "sym": 7, "flate": -1})
	F("pieces4", "6 bytes in any 4 pieces, chunk size 1..4", 100, kv{"n": 6, "chunks": 4, "pieces": 4, "sym": 6, "flate": -1})
	F("none", "6 bytes in any 3 pieces, not compressed", 60, kv{"n": 6, "pieces": 3, "sym": 6, "none": 1})
	F("minimal", "12 bytes, chunk size 1..13, all chunks compressed", 60, kv{"n": 12, "chunks": 13, "pieces": 2, "flate": 0})
	F("incompressible", "12 bytes, chunk size 1..13, no chunk compressible", 60, kv{"n": 12, "chunks": 13, "pieces": 2, "flate": 1})
	for _, c := range []int{127, 128, 129, 255, 256, 257} {
		F(fmt.Sprintf("chunk%d", c), "600 bytes (6 of them any) in chunks of this size", 60, kv{"n": 600, "chunk": c, "flate": -1}).deep()
	}
	for _, c := range []int{32767, 32768, 32769, 65537} {
		in := F(fmt.Sprintf("chunk%d", c), "one more byte than the chunk size, incompressible", 100, kv{"n": c + 1, "chunk": c, "flate": 1})
		in.Steps = 60000000
		in.NoMerge = true
		in.Thorough = c != 32768
	}
	Q := func(name, bound string, secs int, p kv) *Inst {
		return I(name, pkg, "Pieces", secs, p, bound, "done")
	}
	Q("stream-w2-r2", "6 bytes written in any 2 pieces, read in any 2, chunk size 1..7", 100, kv{"n": 6, "chunks": 7, "flate": -1})
	Q("stream-w3-r1", "5 bytes written in any 3 pieces, chunk size 1..6", 100, kv{"n": 5, "chunks": 6, "writes": 3, "reads": 1, "flate": -1})
	Q("stream-w1-r3", "6 bytes read in any 3 pieces, chunk size 1..7", 100, kv{"n": 6, "chunks": 7, "writes": 1, "reads": 3, "flate": -1})
	Q("stream-none", "5 bytes, not compressed, written in any 2 pieces, read in any 2, chunk size 1..6", 100, kv{"n": 5, "chunks": 6, "none": 1})
	Q("stream-w2-r2-12", "12 bytes in any 2 pieces", 100, kv{"n": 12, "chunks": 13, "flate": -1}).later(90)

	P("C21", "without compression a position has no chunk: the column readers pass 0 for it")
	kinds := []string{"byte", "bool", "int", "uint", "float", "double", "varint", "date", "string"}
	for k, name := range kinds {
		S := func(v, bound string, secs int, p kv) *Inst {
			p["kind"] = k
			return I(name+"-"+v, pkg, "Seek", secs, p, bound, "done")
		}
		rle := k == 0 || k == 1 || k == 2 || k == 3 || k == 7
		n := 4
		if k == 6 || k == 8 {
			n = 3
		}
		S("values", fmt.Sprintf("any %d values, any position, up to 2 values read before", n), 60, kv{"n": n})
		S("none", fmt.Sprintf("any %d values, not compressed", n), 60, kv{"n": n, "none": 1, "chunk": 4})
		S("seeks", "any 3 values, 2 seeks in a row to any positions", 60, kv{"n": 3, "seeks": 2, "chunk": 3})
		S("seeks-none", "any 3 values, 2 seeks in a row to any positions, not compressed", 60, kv{"n": 3, "seeks": 2, "none": 1, "chunk": 3})
		S("chunks", "any 3 values, chunk size 1..6, every chunk of any kind", 60, kv{"n": 3, "chunks": 6, "flate": -1})
		S("incompressible", "any 2 values after 5 fixed ones, chunk size 1..6, no chunk compressible", 60, kv{"n": 2, "pre": 5, "prekind": 1, "chunks": 6, "flate": 1})
		S("post", "any 2 values between fixed ones, chunk of 4 bytes", 60, kv{"n": 2, "pre": 4, "prekind": 1, "post": 6, "chunk": 4})
		S("reused", "the writer wrote another stream before", 60, kv{"n": 3, "stripes": 2, "before": 5, "chunk": 4})
		S("reused-none", "the writer wrote 2 other streams before", 60, kv{"n": 3, "stripes": 3, "before": 5, "chunk": 4, "none": 1, "prekind": 1})
		if rle {
			S("reused-any", "the writer wrote 3 other values before", 60, kv{"n": 2, "stripes": 2, "before": 3, "beforesym": 1, "chunk": 4})
		}
		for kind, kn := range []string{"copies", "literals", "steps"} {
			if kind == 2 && k != 2 && k != 3 && k != 7 {
				continue
			}
			for _, pre := range []int{7, 130, 513} {
				S(fmt.Sprintf("%s%d", kn, pre), fmt.Sprintf("any 2 values after %d fixed ones, chunk of 64 bytes, selected positions", pre), 60, kv{"n": 2, "pre": pre, "prekind": kind, "chunk": 64}).Steps = 4000000
			}
			for _, pre := range []int{126, 127, 128, 129, 510, 511, 512} {
				if k == 4 || k == 5 || k == 6 || k == 8 {
					continue
				}
				S(fmt.Sprintf("%s%d-none", kn, pre), fmt.Sprintf("any 2 values after %d fixed ones, not compressed", pre), 60, kv{"n": 2, "pre": pre, "prekind": kind, "chunk": 64, "none": 1}).Steps = 4000000
			}
		}
		if k == 1 {
			for _, pre := range []int{1023, 1024, 1025, 1040, 2060} {
				S(fmt.Sprintf("literals%d", pre), fmt.Sprintf("any 4 values after %d fixed ones", pre), 60, kv{"n": 4, "pre": pre, "prekind": 1, "chunk": 64}).Steps = 6000000
			}
		}
		if k == 2 || k == 3 || k == 7 {
			for i, lo := range []int{-2, 126, 1000000} {
				if k == 3 && lo < 0 {
					continue
				}
				S(fmt.Sprintf("domain%d", i), fmt.Sprintf("any 4 values of %d..%d", lo, lo+3), 60, kv{"n": 4, "lo": lo, "span": 4, "chunk": 5})
			}
			S("values5", "any 5 values of 3", 200, kv{"n": 5, "chunk": 6}).later(100)
			S("values6", "any 6 values of 2", 200, kv{"n": 6, "span": 2, "chunk": 6}).later(100)
			S("patched", "any 2 values of 2 after 20 fixed ones, with an outlier", 60, kv{"n": 2, "pre": 20, "prekind": 1, "lo": 1 << 30, "span": 2, "post": 12}).Steps = 4000000
		}
		if k == 6 {
			S("wide", "any 2 64-bit values", 60, kv{"n": 2, "w": 64, "chunk": 8})
		}
	}

	P("C15")
	A := func(name, bound string, secs int, pkg string, p kv, reach ...string) *Inst {
		in := I(name, pkg, "Any", secs, p, bound, reach...)
		in.NoMerge, in.Hang, in.Conc, in.Steps = true, true, 600, 400000
		return in
	}
	dec := []string{"bytes", "bools", "int", "uint", "date", "varint", "float", "double", "string", "vuint"}
	for k, name := range dec {
		ns := []int{1, 2, 3, 4}
		switch k {
		case 0, 1:
			ns = []int{1, 2, 3}
		case 5, 9:
			ns = []int{1, 2, 9, 10, 11, 12}
		case 6, 7:
			ns = []int{1, 3, 4, 7, 8, 9, 17}
		}
		for _, n := range ns {
			reach := []string{"error"}
			if k == 6 && n%4 == 0 || k == 7 && n%8 == 0 {
				reach = []string{"values"}
			}
			A(fmt.Sprintf("decode-%s%d", name, n), fmt.Sprintf("all %d bytes", n), 100, "verifh/enc", kv{"kind": k, "n": n}, reach...).NoMerge = k != 5 && k != 9
		}
		if k >= 2 && k <= 4 {
			for sub := 0; sub < 4; sub++ {
				A(fmt.Sprintf("decode-%s5-%d", name, sub), "all 5 bytes with this kind of run", 300, "verifh/enc", kv{"kind": k, "n": 5, "sub.0": sub}, "error").later(200)
			}
			for _, l := range []int{0, 1, 255} {
				A(fmt.Sprintf("decode-%s-delta6-%d", name, l), "delta run of any width and varints", 100, "verifh/enc", kv{"kind": k, "n": 6, "sub.0": 3, "h.1": l}, "error")
				A(fmt.Sprintf("decode-%s-patched6-%d", name, l), "patched run of any width", 100, "verifh/enc", kv{"kind": k, "n": 6, "sub.0": 2, "h.1": l}, "error")
			}
		}
		if k == 0 || k == 1 {
			A(fmt.Sprintf("decode-%s4", name), "all 4 bytes", 100, "verifh/enc", kv{"kind": k, "n": 4}, "error").later(100)
		}
	}
	for k, name := range kinds {
		vn := 4
		if k == 1 || k == 0 {
			vn = 3
		}
		reach := []string{"error", "value"}
		if k == 4 || k == 5 {
			reach = []string{"error"}
		}
		with := func(p kv) kv { p["kind"] = k; return p }
		A("stream-none-"+name, "any stream bytes, not compressed", 60, pkg, with(kv{"none": 1, "n": vn}), reach...)
		A("stream-zlib-"+name, "any 5 stream bytes, compressed", 60, pkg, with(kv{"n": 5}), reach...)
		A("stream-orig-"+name, "an original chunk of any 3 bytes, then any 2 bytes", 60, pkg, with(kv{"n": 8, "h.0": 7, "h.1": 0, "h.2": 0}), reach...)
		A("stream-place-"+name, "any 3 bytes of a file, any length and start, compressed", 60, pkg, with(kv{"n": 3, "anylen": 1, "ops": 1}), "error")
		A("stream-place-none-"+name, "any 3 bytes of a file, any length and start, not compressed", 60, pkg, with(kv{"n": 3, "anylen": 1, "ops": 1, "none": 1}), "error")
		A("stream-seek-none-"+name, "any 3 bytes, seek to any place", 60, pkg, with(kv{"n": 3, "seek": 1, "none": 1}), "seek error")
		n2 := 2
		if k == 1 {
			n2 = 1
		}
		A("stream-seek2-none-"+name, "any 2 bytes, seek to any positions", 60, pkg, with(kv{"n": n2, "seek": 2, "ops": 1, "none": 1}), "seek error")
		A("stream-seek2-zlib-"+name, "any 4 bytes, seek to any positions, compressed", 60, pkg, with(kv{"n": 4, "seek": 2, "ops": 1}), "seek error")
		A("stream-seek2-orig-"+name, "an original chunk of any 2 bytes, seek to any positions", 60, pkg, with(kv{"n": 5, "h.0": 5, "h.1": 0, "h.2": 0, "seek": 2, "ops": 1}), "seek error")
	}
}
