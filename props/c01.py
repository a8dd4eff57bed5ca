"""C01 civil-day arithmetic"""
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *

SU = lambda V: V.lib.util.SolarUtil


def u_leap(V):
    y = V.int("y", YMIN, YMAX)
    r = SU(V).isLeapYear(y)
    V.check("leap", iff(r, leap(y)))
    s = mk_solar(V, y, 1, 1)
    V.check("Solar.isLeapYear", iff(s.isLeapYear(), leap(y)))


def u_len(V):
    y = V.int("y", YMIN, YMAX)
    m = V.int("m", 1, 12)
    r = SU(V).getDaysOfMonth(y, m)
    V.check("days of month", r == month_len(y, m))
    V.observe("r", r)
    q = SU(V).getDaysOfYear(y)
    V.check("days of year", q == year_len(y))
    V.observe("q", q)


def u_doy(V):
    y, m, d = date(V)
    r = SU(V).getDaysInYear(y, m, d)
    V.check("day of year", r == doy(y, m, d))
    V.observe("r", r)


def u_lemma_sum(V):
    y = V.int("y", YMIN, YMAX)
    V.check("months add up to the year", sum((month_len(y, m) for m in range(1, 13)), 0) == year_len(y))
    V.check("years are consecutive", jan1(y + 1) == jan1(y) + year_len(y))


def u_lemma_order(V):
    a = date(V, "a")
    b = date(V, "b")
    V.check("jdn orders dates", iff(jdn(*a) < jdn(*b), lex_lt(a, b)))
    V.check("jdn is injective", implies(jdn(*a) == jdn(*b), eq(a, b)))


def u_between(V):
    a = date(V, "a")
    b = date(V, "b")
    r = SU(V).getDaysBetween(*(a + b))
    V.check("days between", r == jdn(*b) - jdn(*a))
    V.observe("r", r)


def u_subtract(V):
    a = date(V, "a")
    b = date(V, "b")
    ta, tb = time_(V, "a"), time_(V, "b")
    x, y = mk_solar(V, *(a + ta)), mk_solar(V, *(b + tb))
    V.check("subtract", x.subtract(y) == jdn(*a) - jdn(*b))


def u_next(V):
    a = date(V, "", -99, 10099)
    t = time_(V)
    n = V.int("n", -4000000, 4000000)
    j = jdn(*a) + n
    if not V.symbolic:
        V.assume(and_(j >= J_MIN, j <= J_MAX))
    s = mk_solar(V, *(a + t))
    r = s.next(n)
    V.check("a date that exists", valid_date(*ymd(r)))
    V.check("moved by n days", jdn(*ymd(r)) == j)
    V.check("time of day kept", eq(comps(r)[3:], t))
    V.check("receiver unchanged", eq(comps(s), a + t))
    V.observe("r", list(comps(r)))


def u_lemma_shift(V):
    """shift() is the date n days later"""
    m0 = V.choice("m0", list(range(1, 13)))
    a = date(V)
    V.assume(a[1] == m0)
    n = V.int("n", -21, 21)
    r = shift(*((a[0], m0, a[2]) + (n,)))
    V.check("exists", valid_date(*r))
    V.check("n days later", jdn(*r) == jdn(*a) + n)


def u_lemma_one(V):
    """day numbers order dates as their texts do; different dates have different day numbers"""
    a, b = date(V, "a."), date(V, "b.")
    ja, jb = jdn(*a), jdn(*b)
    V.lemma("order of years", implies(a[0] < b[0], ja < jb))
    V.lemma("order of years, back", implies(a[0] > b[0], ja > jb))
    same = and_(a[0] == b[0], a[1] == b[1], a[2] == b[2])
    V.check("one date for a day", implies(ja == jb, same))
    V.check("order", implies(lex_lt(a, b), ja < jb))


UNITS = [
    Unit("leap", u_leap, ["SolarUtil.isLeapYear", "Solar.isLeapYear"], samples=200),
    Unit("month-year-length", u_len, ["SolarUtil.getDaysOfMonth", "SolarUtil.getDaysOfYear"], samples=200),
    Unit("day-of-year", u_doy, ["SolarUtil.getDaysInYear"], samples=300),
    Unit("lemma-sums", u_lemma_sum, []),
    Unit("lemma-order", u_lemma_order, []),
    Unit("lemma-shift", u_lemma_shift, [], samples=2000),
    Unit("lemma-one-date", u_lemma_one, [], samples=1000),
    Unit("days-between", u_between, ["SolarUtil.getDaysBetween"], stubs=[ST_DAYS_IN_YEAR, ST_DAYS_OF_YEAR], loops=LOOP_YEARS, opaque=True, samples=200, weight=5),
    Unit("subtract", u_subtract, ["Solar.subtract"], stubs=[ST_DAYS_BETWEEN], opaque=True, samples=100),
    Unit("next-day", u_next, ["Solar.nextDay", "Solar.next"], loops=LOOP_YMD, opaque=True, samples=300, weight=10),
]
