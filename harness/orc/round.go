package orc

import vp "github.com/patrickhuang888/goorc/verifvp"

// VfRound: rows written with any options come back unchanged, in order, for any batch size.
func VfRound() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	br, vec := vfBatchReader(vfOpen(f), vfBatch())
	n := d.vfReadAll(br, vec, 0)
	vp.Assert(n == d.rows, "rows lost")
	end, err := br.Next(vec)
	vp.Assert(err == nil && end && vec.Len() == 0, "rows after the end")
	br.Close()
	vp.Reach("end")
}

// VfSeek: any history of Next and Seek calls reads the rows from the position last sought.
func VfSeek() {
	d := vfGen()
	f := vfNewFile()
	d.vfWrite(f)
	br, vec := vfBatchReader(vfOpen(f), vfBatch())
	at := 0
	ops := vp.Param("ops", 2)
	for k := 0; k < ops; k++ {
		if vp.Choose(vp.N("op", k), 2) == 0 {
			end, err := br.Next(vec)
			vp.Assert(err == nil, "read failed")
			l := vec.Len()
			vp.Assert(at+l <= d.rows, "more rows read than written")
			vp.Assert(l > 0 || at == d.rows, "no rows before the end")
			d.vfCheck(vec, at, l)
			at += l
			vp.Assert(end == (at == d.rows), "end reported at the wrong row")
		} else {
			to := vfSeekTo(vp.N("to", k), d.rows)
			err := br.Seek(uint64(to))
			if to < d.rows {
				vp.Assert(err == nil, "seek to an existing row failed")
				at = to
			} else {
				vp.Assert(err != nil, "seek beyond the last row succeeded")
			}
		}
	}
	n := d.vfReadAll(br, vec, at)
	vp.Assert(n == d.rows, "rows lost")
	vp.Reach("end")
}

// vfSeekTo is any row up to 2 beyond the end, or any row of the window [ts,ts+tn).
func vfSeekTo(name string, rows int) int {
	if n := vp.Param("tn", 0); n > 0 {
		return vp.Param("ts", 0) + vp.Choose(name, n)
	}
	return vp.Choose(name, rows+2)
}
