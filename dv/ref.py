"""The pinned reference tables (data/lunar_ref.bin, written once by tools/mkref.py)."""
import array
import lzma
import os
import pickle
import struct

_R = None


def load():
    global _R
    if _R is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "lunar_ref.bin")
        n, months, delta = pickle.loads(lzma.decompress(open(p, "rb").read()))
        d = array.array("i")
        d.frombytes(delta)
        M, T = [], []
        prev = [0] * 31
        for y in range(n):
            o = y * 64
            first = struct.unpack_from("<i", months, o)[0]
            row = []
            for k in range(15):
                a, b, c, i = struct.unpack_from("<bbbb", months, o + 4 + 4 * k)
                row.append((y + a, b, c, first, i))
                first += c
            M.append(row)
            prev = [p + x for p, x in zip(prev, d[y * 31:y * 31 + 31])]
            base = 1721045.0 + 365.2425 * y
            T.append([base + 15.2184 * i + s / 86400 for i, s in enumerate(prev)])
        _R = (M, T)
    return _R


def months(y):
    """[(lunar year, month, days, first Julian day, index)] * 15 of the table of year y"""
    return load()[0][y]


def terms(y):
    """Julian days (civil time of 120 degrees east) of the 31 terms of the table of year y, to half a second"""
    return load()[1][y]
