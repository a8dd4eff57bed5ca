#!/usr/bin/env python3
"""Writes data/lunar_ref.bin: the month tables and solar-term instants of the years 0..10000 as
the code at the base commit computes them (regression reference; see DESIGN.md for how it was
validated).  Not run by the checks."""
import lzma, pickle, struct, sys, array
R = pickle.load(open(sys.argv[1], "rb"))
months, terms = [], array.array("i")
for y, ms, jq in R:
    if not 0 <= y <= 10000:
        continue
    months.append((y, [(a - y, b, c, d, i) for (a, b, c, d, i) in [(m[0], m[1], m[2], int(m[3]), m[4]) for m in ms]]))
    base = 1721045.0 + 365.2425 * y
    for i in range(31):
        terms.append(round((jq[i] - base - 15.2184 * i) * 86400))
out = []
for y, ms in months:
    out.append(struct.pack("<i", ms[0][3]) + b"".join(struct.pack("<bbbb", a, b, c, i) for a, b, c, d, i in ms))
d = terms
# differences along the years compress well
rows = [d[k * 31:k * 31 + 31] for k in range(len(months))]
delta = array.array("i")
prev = [0] * 31
for r in rows:
    delta.extend(x - p for x, p in zip(r, prev))
    prev = r
blob = pickle.dumps((len(months), b"".join(out), delta.tobytes()))
open(sys.argv[2], "wb").write(lzma.compress(blob, preset=9 | lzma.PRESET_EXTREME))
