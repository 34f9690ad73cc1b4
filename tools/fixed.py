#!/usr/bin/env python3
"""Prints the "fixed:" lines of known-findings.txt from the fix commits of /repo."""
import subprocess
M = {  # words of the subject -> property
 "RLEv2 patch list": "C06", "patched base runs of unsigned": "C06", "chunk sizes that do not fit": "C11", "projections": "C13",
 "stripe footers": "C16", "file footers": "C16", "file tails": "C20", "bloom filter": "C16", "seek used neither": "C03", "row indexes written could": "C10",
 "structs without nulls": "C09", "without rows": "C02", "flattened at the same time": "C19", "schema verification": "C18", "decimal as float64": "C08",
 "timestamp milliseconds": "C08", "dates more than 292": "C08", "string of a wrong length": "C15", "without a data stream": "C16", "char and varchar": "C01",
 "string dictionary writer": "C01", "string readers panicked": "C15", "remained in reused batches": "C14", "nulls of a struct": "C14", "list and map readers": "C04",
 "date reader could not seek": "C03", "timestamp values read": "C01", "decimal values read": "C01", "decimal index positions": "C10", "too few positions": "C16",
 "row index entries and column statistics": "C10", "the last row of a stripe": "C02", "stream seek without compression": "C21", "Reset panicked": "C01",
 "truncated chunk header": "C17", "compressing more than one chunk": "C11", "without compression could not be written": "C01", "float columns were big": "C07",
 "date encoder": "C07", "ReadVUint looped": "C15", "bool encoder leaked": "C07", "stale position": "C21", "delta run of length 1": "C06", "patch position outside": "C15",
 "wider than 56": "C06", "chose widths": "C05", "histogram overflowed": "C05", "overran the 512": "C05", "fixed delta did not": "C05", "more than 8 bytes": "C15",
 "inside of null structs": "C14", "chunk lengths beyond the end": "C15", "errors closing the file": "C22",
 "direct run of zeros": "C05", "short repeat dropped": "C05",
}
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for ln in out.splitlines():
    h, s = ln.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = [v for k, v in M.items() if k in s]
    print("fixed: property=%s %s %s" % (p[0] if p else "C15", h, s[5:]))
    if not p: import sys; print("unmapped", s, file=sys.stderr)
