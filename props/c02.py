"""C02 Julian day conversion"""
from fractions import Fraction
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *


def close(V, x, days, secs, eps):
    """|x - (days - 1/2 + secs/86400)| <= eps days"""
    if V.symbolic:
        from dv.sym import SymFloat
        x = SymFloat.of(x)
        assert x.err < eps / 2
        # x is within err of k/den:  compare integers
        lhs = SymInt(x.k) * 86400 - (days * 86400 - 43200 + secs) * x.den
        lim = ((eps - x.err) * 86400 * x.den).__floor__()
        return and_(lhs <= lim, lhs >= -lim)
    return abs(Fraction(x) - (Fraction(days) - Fraction(1, 2) + Fraction(secs, 86400))) <= eps


EPS = JD_EPS


def u_value(V):
    a = date(V)
    t = time_(V)
    s = mk_solar(V, *(a + t))
    V.check("Julian day of the instant", close(V, s.getJulianDay(), jdn(*a), sec_of_day(*t), EPS))


def u_round(V):
    a = date(V)
    t = time_(V)
    s = mk_solar(V, *(a + t))
    r = V.lib.Solar.fromJulianDay(s.getJulianDay())
    V.lemma("round trip to the second", jdn(*ymd(r)) * 86400 + sec_of_day(*comps(r)[3:]) == jdn(*a) * 86400 + sec_of_day(*t))
    V.check("round trip of the date", jdn(*ymd(r)) == jdn(*a))
    V.check("round trip of the time", eq(comps(r)[3:], t))
    if not V.symbolic:
        V.check("round trip", eq(comps(r), a + t))


def u_noon(V):
    """whole Julian day numbers are noons, and their conversion is exact"""
    a = date(V)
    s = mk_solar(V, *(a + (12, 0, 0)))
    V.check("noon is a whole number", s.getJulianDay() == jdn(*a))
    s = mk_solar(V, *(a + (0, 0, 0)))
    V.check("midnight is exact", s.getJulianDay() * 2 == 2 * jdn(*a) - 1)


# x = j - 1/2 + f 2^-grid, by binade: every double of the supported range except the halves
# of the days before 2^21 and 2^22 finer than 2^-31 (2^-30)
RANGES = [(J_MIN, 2 ** 21 - 1, 32), (2 ** 21, 2 ** 22 - 1, 31), (2 ** 22, J_MAX - 1, 30)]
STEP = 36525


def chunks(lo, hi, *more):
    """case split of a range of days: [lo, hi] in pieces of a century"""
    out = []
    while lo <= hi:
        out.append((lo, min(hi, lo + STEP - 1)) + more)
        lo += STEP
    return out


CHUNKS = [c for lo, hi, g in RANGES for c in chunks(lo, hi, g)]
DAYS = chunks(J_MIN, J_MAX)


def u_from(V):
    """any Julian day: the nearest second"""
    lo, hi, grid = V.choice("range", CHUNKS)
    j = V.int("j", lo, hi)
    f = V.int("f", 0, 2 ** grid - 1)
    x = V.double((2 * j - 1) * 2 ** (grid - 1) + f, grid)
    s = V.lib.Solar.fromJulianDay(x)
    V.check("a date that exists", valid_date(*ymd(s)))
    V.check("a time of day", valid_time(*comps(s)[3:]))
    n = jdn_of(s)
    n1 = j if V.guess(n == j) else j + 1
    V.lemma("the day that contains it, or its end", n == n1)
    n = n1
    V.check("the nearest second", near_second(V, x, n, sec_of_day(*comps(s)[3:])))


def near_second(V, x, j, sod):
    if V.symbolic:
        # |86400 k / 2^32 - T| <= 1/2 + 1e-3
        T = j * 86400 - 43200 + sod
        d = SymInt(x.k) * 86400 - T * x.den
        return and_(d * 2 <= x.den, d * -2 <= x.den)
    return abs(Fraction(x) * 86400 - (j * 86400 - 43200 + sod)) <= Fraction(1, 2)


UNITS = [
    Unit("from-any-julian-day", u_from, ["Solar.fromJulianDay"], samples=2000, weight=6, stubs=[ST_NEXT], heavy=True),
    Unit("julian-day-value", u_value, ["Solar.getJulianDay"], samples=300),
    Unit("noon-is-whole", u_noon, ["Solar.getJulianDay"], samples=300),
    Unit("round-trip", u_round, ["Solar.getJulianDay", "Solar.fromJulianDay"], samples=2000, weight=5,
         stubs=[ST_GET_JD, ST_FROM_JD]),
]
BUDGET = 400
