"""Lunar objects reduced to their pillars: whatever is read besides the pillar indices handed in is refused.

The contract of the pillar indices themselves is C11 and C12; here a real Lunar, made by the real constructor,
has its index fields replaced by given values (the fields are found by comparing them with the public getters), so
that the functions that read pillars only are decided for every combination of pillars that can occur."""
from .spec import *
from .lunarspec import GAN, ZHI
from . import rt
from .sym import Unsupported

JZ = [GAN[i % 10] + ZHI[i % 12] for i in range(60)]
KINDS = {"Year": ("", "ByLiChun", "Exact"), "Month": ("", "Exact"), "Day": ("", "Exact", "Exact2"), "Time": ("",)}
ANIMALS = "鼠牛虎兔龙蛇马羊猴鸡狗猪"
_fields = {}


class Poison:
    """a field the function has no business to read"""
    def __init__(self, name):
        self.__dict__["n"] = name

    def _no(self, *a, **k):
        raise Unsupported("reads %s, which the contract does not give it" % self.__dict__["n"])
    __add__ = __radd__ = __sub__ = __rsub__ = __mod__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __index__ = __int__ = _no
    __mul__ = __rmul__ = __floordiv__ = __truediv__ = __bool__ = __str__ = __format__ = __getattr__ = __getitem__ = __abs__ = __neg__ = _no
    __hash__ = None


def index_getters():
    for p, ss in KINDS.items():
        for s in ss:
            for x in ("Gan", "Zhi"):
                yield p, s, x, "get%s%sIndex%s" % (p, x, s)


def fields(lib):
    return rt.unseen(lambda: _fields_of(lib))


def _fields_of(lib):
    """public index getter -> the attribute it returns"""
    L = lib.Lunar
    if L in _fields:
        return _fields[L]
    probes = []
    rest = {g: None for *_, g in index_getters()}
    for c in ((2024, 2, 4, 12, 0, 0), (2024, 2, 4, 23, 30, 0), (2023, 1, 25, 1, 0, 0), (2024, 1, 6, 8, 0, 0), (2019, 2, 4, 13, 0, 0),
              (1988, 6, 5, 23, 10, 0), (1999, 8, 8, 5, 0, 0), (2020, 5, 5, 8, 55, 0), (2000, 12, 31, 17, 0, 0), (1976, 10, 8, 9, 0, 0),
              (2024, 2, 4, 16, 20, 0), (2024, 2, 4, 16, 30, 0), (2022, 7, 7, 10, 30, 0), (2022, 7, 7, 10, 40, 0)):
        o = lib.Solar.fromYmdHms(*c).getLunar()
        v = {k: x for k, x in vars(o).items() if type(x) is int}
        for g in rest:
            hit = {k for k, x in v.items() if x == getattr(o, g)()}
            rest[g] = hit if rest[g] is None else rest[g] & hit
    out = {}
    for g, h in rest.items():
        own = "_Lunar__" + g[3].lower() + g[4:]
        if own in h:
            h = {own}
        if len(h) != 1:
            raise Unsupported("no single field behind %s: %s" % (g, sorted(h)))
        out[g] = h.pop()
    _fields[L] = out
    return out


_templates = {}


def clone(V, key, build):
    """a copy of a real object (made once per process and library)"""
    k = (key, V.lib.Lunar)
    if k not in _templates:
        _templates[k] = rt.unseen(build)
    o = _templates[k]
    n = object.__new__(type(o))
    vars(n).update(vars(o))
    return n


def gz(x):
    """(stem, branch) of a pillar 0..59, or of a pair with None for what is not given"""
    return x if isinstance(x, tuple) else (x % 10, x % 12)


def make(V, pillars, **more):
    """a Lunar with pillars {(kind, suffix): 0..59 or (stem, branch)}; more: {attribute: value}; in proofs every other
    attribute is refused, elsewhere it holds something else"""
    f = fields(V.lib)
    o = clone(V, "lunar", lambda: V.lib.Solar.fromYmdHms(2024, 2, 4, 12, 0, 0).getLunar())
    d = vars(o)
    if V.symbolic:
        for k in list(d):
            d[k] = None if d[k] is None else Poison(k)
    else:
        for k in d:
            if type(d[k]) is type(o.getEightChar()):
                d[k] = None
    for (p, s, x, g) in index_getters():
        v = None
        if (p, s) in pillars:
            v = gz(pillars[(p, s)])[0 if x == "Gan" else 1]
        if v is not None:
            d[f[g]] = v
        elif not V.symbolic:
            d[f[g]] = (V.rng.randrange(60) if V.rng is not None else 17) % (10 if x == "Gan" else 12)
    for k, v in more.items():
        d[k if k in d else behind(V, k)] = v
    return o


def behind(V, k):
    """the attribute behind a getter, where it goes by another name"""
    return rt.unseen(lambda: _behind(V, k))


def _behind(V, k):
    g = "get" + k.split("__")[1][0].upper() + k.split("__")[1][1:]
    hit = None
    for c in ((2024, 2, 4, 12, 0, 0), (2023, 4, 1, 23, 30, 0), (2033, 12, 29, 1, 0, 0), (1987, 8, 11, 8, 0, 0), (1999, 11, 30, 5, 0, 0)):
        o = V.lib.Solar.fromYmdHms(*c).getLunar()
        if not hasattr(o, g):
            raise Unsupported("no attribute " + k)
        x = getattr(o, g)()
        h = {a for a, v in vars(o).items() if v is x or type(v) is int and type(x) is int and v == x}
        hit = h if hit is None else hit & h
    if len(hit) != 1:
        raise Unsupported("no attribute " + k)
    return hit.pop()


def make_time(V, z, g, lunar):
    """a LunarTime with branch z and stem g on a day"""
    t = clone(V, "time", lambda: V.lib.Solar.fromYmdHms(2024, 2, 4, 12, 0, 0).getLunar().getTime())
    d = vars(t)
    zi = [k for k, x in d.items() if type(x) is int and x == t.getZhiIndex()]
    gi = [k for k, x in d.items() if type(x) is int and x == t.getGanIndex()]
    lu = [k for k, x in d.items() if isinstance(x, V.lib.Lunar)]
    if len(zi) != 1 or len(gi) != 1 or zi == gi or len(lu) != 1:
        raise Unsupported("fields of LunarTime")
    d[zi[0]], d[gi[0]], d[lu[0]] = z, g, lunar
    return t


def month60(y, k):
    """the pillar of month k (0 = 寅) of a year with pillar y: 甲己之年丙作首"""
    z = (k + 2) % 12
    g = (y % 10 % 5 * 2 + 2 + k) % 10
    return pillar(g, z)


def pillar(g, z):
    return (6 * g - 5 * z) % 60


def time60(d, z):
    """the pillar of double hour z of a day with pillar d: 甲己还加甲"""
    return pillar((d % 10 % 5 * 2 + z) % 10, z)
