"""C04 calendar units: month, season, half-year, year and hour arithmetic"""
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *

N = 100000


def ym(V, ymin=YMIN, ymax=YMAX):
    return V.int("y", ymin, ymax), V.int("m", 1, 12)


def lin(x):
    return x.getYear() * 12 + x.getMonth() - 1


def u_month_next(V):
    y, m = ym(V)
    n = V.int("n", -N, N)
    r = V.lib.SolarMonth.fromYm(y, m).next(n)
    V.check("n months on", lin(r) == y * 12 + m - 1 + n)
    V.check("a month", and_(r.getMonth() >= 1, r.getMonth() <= 12))


def u_season(V):
    y, m = ym(V)
    s = V.lib.SolarSeason.fromYm(y, m)
    i = s.getIndex()
    V.check("index", i == (m - 1) // 3 + 1)
    ms = s.getMonths()
    V.check("three months", len(ms) == 3)
    for k, x in enumerate(ms):
        V.check("months in order", lin(x) == y * 12 + (m - 1) // 3 * 3 + k)
    n = V.int("n", -N, N)
    r = s.next(n)
    V.check("n seasons on", lin(r) == y * 12 + m - 1 + 3 * n)
    V.check("index n seasons on", r.getYear() * 4 + r.getIndex() - 1 == y * 4 + i - 1 + n)


def u_half(V):
    y, m = ym(V)
    s = V.lib.SolarHalfYear.fromYm(y, m)
    i = s.getIndex()
    V.check("index", i == (m - 1) // 6 + 1)
    ms = s.getMonths()
    V.check("six months", len(ms) == 6)
    for k, x in enumerate(ms):
        V.check("months in order", lin(x) == y * 12 + (m - 1) // 6 * 6 + k)
    n = V.int("n", -N, N)
    r = s.next(n)
    V.check("n half-years on", lin(r) == y * 12 + m - 1 + 6 * n)
    V.check("index n half-years on", r.getYear() * 2 + r.getIndex() - 1 == y * 2 + i - 1 + n)


def u_year(V):
    y = V.int("y", YMIN, YMAX)
    n = V.int("n", -N, N)
    s = V.lib.SolarYear.fromYear(y)
    V.check("n years on", s.next(n).getYear() == y + n)
    ms = s.getMonths()
    V.check("twelve months", len(ms) == 12)
    for k, x in enumerate(ms):
        V.check("months in order", lin(x) == y * 12 + k)


def u_month_days(V):
    y = V.int("y", YMIN, YMAX)
    m = V.choice("m", list(range(1, 13)))
    ds = V.lib.SolarMonth.fromYm(y, m).getDays()
    V.check("every day of the month", len(ds) == month_len(y, m))
    for k, s in enumerate(ds):
        V.check("in the month", eq(ymd(s)[:2], (y, m)))
        V.check("in order", jdn_of(s) == jdn(y, m, 1) + k)


def clamp(y, m, d):
    return ite(and_(y == 1582, m == 10), ite(and_(d > 4, d < 15), d + 10, d), min_(d, last_day(y, m)))


def u_next_month(V):
    a = date(V)
    t = time_(V)
    n = V.int("n", -N, N)
    k = a[0] * 12 + a[1] - 1 + n
    V.assume(and_(k >= YMIN * 12, k < (YMAX + 1) * 12))
    r = mk_solar(V, *(a + t)).nextMonth(n)
    y, m, d = ymd(r)
    V.check("n months on", y * 12 + m - 1 == k)
    V.check("same day of the month, or its last", d == clamp(y, m, a[2]))
    V.check("a date that exists", valid_date(y, m, d))
    V.check("time kept", eq(comps(r)[3:], t))


def u_next_year(V):
    a = date(V)
    t = time_(V)
    n = V.int("n", -10000, 10000)
    V.assume(and_(a[0] + n >= YMIN, a[0] + n <= YMAX))
    r = mk_solar(V, *(a + t)).nextYear(n)
    y, m, d = ymd(r)
    V.check("n years on", and_(y == a[0] + n, m == a[1]))
    V.check("same day of the month, or its last", d == clamp(y, m, a[2]))
    V.check("a date that exists", valid_date(y, m, d))
    V.check("time kept", eq(comps(r)[3:], t))


def u_next_hour(V):
    a = date(V)
    t = time_(V)
    n = V.int("n", -50000000, 50000000)
    k = jdn(*a) * 24 + t[0] + n
    V.assume(and_(k >= J_MIN * 24, k < (J_MAX + 1) * 24))
    r = mk_solar(V, *(a + t)).nextHour(n)
    V.check("n hours on", jdn_of(r) * 24 + r.getHour() == k)
    V.check("a date that exists", valid_date(*ymd(r)))
    V.check("an hour", and_(r.getHour() >= 0, r.getHour() <= 23))
    V.check("minute and second kept", eq(comps(r)[4:], t[1:]))


def u_texts(V):
    """the text of a unit is its year and its number in the year"""
    y = V.int("y", 1, 9999)
    m = V.choice("m", list(range(1, 13)))
    L = V.lib
    h, q = (m - 1) // 6, (m - 1) // 3 + 1
    for n, x, short, full in (("month", L.SolarMonth.fromYm(y, m), "-%d" % m, "年%d月" % m), ("season", L.SolarSeason.fromYm(y, m), ".%d" % q, "年%d季度" % q),
                              ("half-year", L.SolarHalfYear.fromYm(y, m), ".%d" % (h + 1), "年%s半年" % "上下"[h]), ("year", L.SolarYear.fromYear(y), "", "年")):
        for s, end in ((x.toString(), short), (x.toFullString(), full)):
            k = len(s) - len(end)
            V.check("number of the " + n, s[k:] == end)
            V.check("year of the " + n, and_(V.num(s[:k]) == y, *[implies(y < 10 ** d, k <= d) for d in range(1, 4)]))


UNITS = [
    Unit("month-next", u_month_next, ["SolarMonth.next"], samples=500),
    Unit("season", u_season, ["SolarSeason.getIndex", "SolarSeason.getMonths", "SolarSeason.next"], samples=300),
    Unit("half-year", u_half, ["SolarHalfYear.getIndex", "SolarHalfYear.getMonths", "SolarHalfYear.next"], samples=300),
    Unit("year", u_year, ["SolarYear.next", "SolarYear.getMonths"], samples=300),
    Unit("texts", u_texts, ["Solar%s.%s" % (c, n) for c in ("Month", "Season", "HalfYear", "Year") for n in ("toString", "toFullString")], samples=500),
    Unit("days-of-month", u_month_days, ["SolarMonth.getDays"], stubs=[ST_NEXT], opaque=True, samples=300),
    Unit("next-month", u_next_month, ["Solar.nextMonth"], samples=1000),
    Unit("next-year", u_next_year, ["Solar.nextYear"], samples=1000),
    Unit("next-hour", u_next_hour, ["Solar.nextHour"], stubs=[ST_NEXT], opaque=True, samples=1000),
]
