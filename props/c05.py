"""C05 dates that cannot exist are rejected; what is constructed is what was asked for"""
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *


def mostly(lo, hi, wlo, whi):
    return lambda r: r.randint(lo, hi) if r.random() < 0.85 else r.randint(wlo, whi)


def parts(V):
    return (V.int("y", -100, 12000, lambda r: r.choice((1582, 1581, 1583, r.randint(1, 9999)))),
            V.int("m", -20, 40, lambda r: r.choice((10, r.randint(1, 12), r.randint(0, 13)))),
            V.int("d", -40, 80, mostly(1, 31, -2, 34)), V.int("h", -30, 60, mostly(0, 23, -2, 26)),
            V.int("mi", -70, 130, mostly(0, 59, -2, 62)), V.int("s", -70, 130, mostly(0, 59, -2, 62)))


def ok(y, m, d, h, mi, s):
    return and_(m >= 1, m <= 12, d >= 1, d <= 31, valid_time(h, mi, s),
                not_(and_(y == 1582, m == 10, d > 4, d < 15)))


def u_ctor(V):
    c = parts(V)
    r = V.call(V.lib.Solar.fromYmdHms, *c)
    if V.raised(r):
        V.check("only impossible components are rejected", not_(ok(*c)))
    else:
        V.check("impossible components are rejected", ok(*c))
        V.check("components kept", eq(comps(r), c))


def u_ymd(V):
    c = parts(V)[:3]
    r = V.call(V.lib.Solar.fromYmd, *c)
    t = c + (0, 0, 0)
    if V.raised(r):
        V.check("only impossible components are rejected", not_(ok(*t)))
    else:
        V.check("impossible components are rejected", ok(*t))
        V.check("components kept", eq(comps(r), t))


class _Dt:
    def __init__(self, *c):
        self.year, self.month, self.day, self.hour, self.minute, self.second = c


def u_date(V):
    """fromDate takes the six fields of a datetime"""
    a = date(V)
    t = time_(V)
    V.check("components kept", eq(comps(V.lib.Solar.fromDate(_Dt(*(a + t)))), a + t))
    m = V.lib.SolarMonth.fromDate(_Dt(*(a + t)))
    V.check("month", eq((m.getYear(), m.getMonth()), a[:2]))
    x = V.lib.SolarSeason.fromDate(_Dt(*(a + t)))
    V.check("season", eq((x.getYear(), x.getMonth()), a[:2]))
    x = V.lib.SolarHalfYear.fromDate(_Dt(*(a + t)))
    V.check("half-year", eq((x.getYear(), x.getMonth()), a[:2]))
    V.check("year", V.lib.SolarYear.fromDate(_Dt(*(a + t))).getYear() == a[0])
    w = V.lib.SolarWeek.fromDate(_Dt(*(a + t)), 1)
    V.check("week", eq((w.getYear(), w.getMonth(), w.getDay()), a))


def u_gap_doy(V):
    y = V.int("y", 1580, 1585)
    m = V.int("m", 1, 12)
    d = V.int("d", 1, 31)
    V.assume(d <= last_day(y, m))
    r = V.call(V.lib.util.SolarUtil.getDaysInYear, y, m, d)
    if V.raised(r):
        V.check("only the dropped days are rejected", not_(valid_date(y, m, d)))
    else:
        V.check("the dropped days are rejected", valid_date(y, m, d))


UNITS = [
    Unit("constructor", u_ctor, ["Solar.__init__", "Solar.fromYmdHms"], samples=3000),
    Unit("from-ymd", u_ymd, ["Solar.fromYmd", "Solar.__init__"], samples=2000),
    Unit("from-date", u_date, ["Solar.fromDate", "SolarMonth.fromDate", "SolarSeason.fromDate", "SolarHalfYear.fromDate",
                               "SolarYear.fromDate", "SolarWeek.fromDate"], samples=300),
    Unit("dropped-days", u_gap_doy, ["SolarUtil.getDaysInYear"], samples=500),
]
