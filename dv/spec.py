"""Specification functions and input domains shared by the contracts.

Everything here works on symbolic and on concrete values alike."""
from .sym import and_, or_, not_, implies, iff, ite, bsum, SymInt, is_sym, Unsupported
import z3
from . import sym, engine as E

YMIN, YMAX = 1, 9999


def div(a, b):
    return a // b


def leap(y):
    """Julian rule before 1600, Gregorian from 1600 on (1582..1599 the two agree)"""
    return and_(y % 4 == 0, or_(y < 1600, y % 100 != 0, y % 400 == 0))


CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def ite_table(tab, i):
    """tab[i] for 0 <= i < len(tab)"""
    if not is_sym(i):
        return tab[i]
    r = tab[-1]
    for k in range(len(tab) - 2, -1, -1):
        r = ite(i == k, tab[k], r)
    return r


def gap(y, m, d):
    """1 when (y, m, d) is at or after 1582-10-15"""
    return or_(y > 1582, and_(y == 1582, or_(m > 10, and_(m == 10, d >= 15))))


def month_len(y, m):
    """number of days the civil month has (October 1582 has 21)"""
    base = ite_table((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), m - 1)
    return ite(and_(y == 1582, m == 10), 21, base + ite(and_(m == 2, leap(y)), 1, 0))


def year_len(y):
    return ite(y == 1582, 355, 365 + ite(leap(y), 1, 0))


def last_day(y, m):
    """largest day number of the month"""
    base = ite_table((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), m - 1)
    return base + ite(and_(m == 2, leap(y)), 1, 0)


def valid_date(y, m, d):
    return and_(m >= 1, m <= 12, d >= 1, d <= last_day(y, m), not_(and_(y == 1582, m == 10, d > 4, d < 15)))


def valid_time(h, mi, s):
    return and_(h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59)


def shift(y, m, d, n):
    """the date n days later, |n| <= 21 (lemma-shift of C01)"""
    o = d + n - ite(and_(y == 1582, m == 10, d > 4), 10, 0)
    ln = month_len(y, m)
    over, under = o > ln, o < 1
    y2 = ite(and_(over, m == 12), y + 1, ite(and_(under, m == 1), y - 1, y))
    m2 = ite(over, ite(m == 12, 1, m + 1), ite(under, ite(m == 1, 12, m - 1), m))
    # the month before is never longer than needed: its length matters only when under
    o = ite(over, o - ln, ite(under, o + month_len(ite(m == 1, y - 1, y), ite(m == 1, 12, m - 1)), o))
    return y2, m2, o + ite(and_(y2 == 1582, m2 == 10, o > 4), 10, 0)


def doy(y, m, d):
    """1-based day of the year, as counted in days that existed"""
    return ite_table(CUM, m - 1) + ite(and_(m > 2, leap(y)), 1, 0) + d - ite(and_(y == 1582, gap(y, m, d)), 10, 0)


def jan1(y):
    """Julian day number (noon) of January 1"""
    if is_sym(y) and sym.cur().opaque:
        return _jan1_opaque(y)
    z = y - 1
    jul = 1721424 + 365 * z + z // 4
    greg = 1721426 + 365 * z + z // 4 - z // 100 + z // 400
    return ite(y <= 1582, jul, greg)


def _jan1_opaque(y):
    """jan1 hidden behind an uninterpreted function; what is known of it are instances of
    the lemma  jan1(y + 1) == jan1(y) + year_len(y)  (proved as a unit of C01)"""
    p = sym.cur()
    f = p.extra.setdefault("jan1", z3.Function("jan1", z3.IntSort(), z3.IntSort()))
    e = z3.simplify(y.e)
    seen = p.extra.setdefault("jan1_seen", {})
    if e.get_id() not in seen:
        seen[e.get_id()] = e
        for t in (SymInt(e), SymInt(z3.simplify(e - 1))):
            t2 = z3.simplify(t.e + 1)
            p.assume_raw(f(t2) == f(t.e) + sym.zint(year_len(t)))
    return SymInt(f(e))


def jdn(y, m, d):
    """Julian day number at noon of the civil date"""
    return jan1(y) + doy(y, m, d) - 1


def ymd_key(y, m, d):
    return (y * 100 + m) * 100 + d


def sec_of_day(h, mi, s):
    return (h * 60 + mi) * 60 + s


def lex_lt(a, b):
    """lexicographic order of equally long tuples"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = or_(x < y, and_(x == y, r))
    return r


def eq(a, b):
    return and_([x == y for x, y in zip(a, b)])


# ---- inverse of jdn, concrete only -------------------------------------------
def from_jdn(j):
    if j >= 2299161:
        a = j + 32044
        b = (4 * a + 3) // 146097
        c = a - 146097 * b // 4
    else:
        b = 0
        c = j + 32082
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return 100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1


J_MIN = 1721424                      # 0001-01-01
J_MAX = 5373484                      # 9999-12-31


# ---- domains -------------------------------------------------------------------
def date(V, name="", ymin=YMIN, ymax=YMAX, months=None):
    """a civil date that exists, as three integers"""
    if V.symbolic:
        y = V.int(name + "y", ymin, ymax)
        m = V.int(name + "m", 1, 12)
        d = V.int(name + "d", 1, 31)
        V.assume(valid_date(y, m, d))
        return y, m, d
    if V.rng is not None:
        c = draw_date(V.rng, ymin, ymax)
    else:
        c = (ymin, 1, 1)
    y = V.int(name + "y", ymin, ymax, lambda r: c[0])
    m = V.int(name + "m", 1, 12, lambda r: c[1])
    d = V.int(name + "d", 1, 31, lambda r: c[2])
    V.assume(valid_date(y, m, d))
    return y, m, d


def date_by_month(V, name="", ymin=YMIN, ymax=YMAX):
    """the same domain, one path per calendar month"""
    if V.symbolic:
        y = V.int(name + "y", ymin, ymax)
        m = V.int(name + "m", 1, 12).__index__()
        d = V.int(name + "d", 1, 31)
        V.assume(valid_date(y, m, d))
        return y, m, d
    return date(V, name, ymin, ymax)


def draw_date(rng, ymin, ymax):
    z = rng.random()
    if z < 0.08 and ymin <= 1582 <= ymax:
        c = (1582, rng.choice((9, 10, 10, 10, 11)), rng.choice((1, 2, 3, 4, 15, 16, 17, 30, 31, 28)))
    elif z < 0.16:
        y = rng.choice((1600, 1700, 1800, 1900, 2000, 2100, 1500, 1400, 100, 400, 4, 1584, 1580, 1582, 1583, 2400, 9999,
                        9996, 1, 2, 3))
        c = (y, rng.choice((1, 2, 2, 3, 12)), rng.choice((1, 28, 29, 30, 31)))
    elif z < 0.3:
        c = (rng.randint(ymin, ymax), rng.choice((1, 2, 12)), rng.choice((1, 2, 28, 29, 30, 31)))
    elif z < 0.65:
        c = (rng.randint(max(ymin, 1850), min(ymax, 2150)) if ymin <= 2150 and ymax >= 1850 else rng.randint(ymin, ymax),
             rng.randint(1, 12), rng.randint(1, 31))
    else:
        c = (rng.randint(ymin, ymax), rng.randint(1, 12), rng.randint(1, 31))
    if not ymin <= c[0] <= ymax:
        c = (rng.randint(ymin, ymax), c[1], c[2])
    y, m, d = c
    while not valid_date(y, m, d):
        d -= 1
        if d < 1:
            d = 1
            break
    return y, m, d


def time_(V, name=""):
    def samp(lo, hi):
        return lambda r: r.choice((lo, hi, lo + 1, hi - 1)) if r.random() < 0.3 else r.randint(lo, hi)
    return (V.int(name + "hour", 0, 23, samp(0, 23)), V.int(name + "minute", 0, 59, samp(0, 59)),
            V.int(name + "second", 0, 59, samp(0, 59)))


def mk_solar(V, y, m, d, h=0, mi=0, s=0):
    return V.lib.Solar.fromYmdHms(y, m, d, h, mi, s)


def comps(s):
    return s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()


def ymd(s):
    return s.getYear(), s.getMonth(), s.getDay()


def jdn_of(s):
    """Julian day number of a Solar (the ghost value a contract gave it, when there is one)"""
    j = getattr(s, "dv_jdn", None)
    return jdn(*ymd(s)) if j is None else j


def max_(a, b):
    return ite(a >= b, a, b)


def min_(a, b):
    return ite(a <= b, a, b)


# ---- contracts used as stubs -----------------------------------------------------
def fresh_date(p, hint, ymin=YMIN - 1, ymax=YMAX + 1):
    y = SymInt(p.fresh_int(hint + "_y", ymin, ymax))
    m = SymInt(p.fresh_int(hint + "_m", 1, 12))
    d = SymInt(p.fresh_int(hint + "_d", 1, 31))
    p.assume(valid_date(y, m, d))
    return y, m, d
