"""C06 the order of instants"""
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *


def pair(V, ymin=YMIN):
    a, b = date(V, "a", ymin), date(V, "b", ymin)
    ta, tb = time_(V, "a"), time_(V, "b")
    if not V.symbolic and V.rng is not None and V.rng.random() < 0.5:
        pass
    return a + ta, b + tb


def instant(c):
    return jdn(*c[:3]) * 86400 + sec_of_day(*c[3:])


def near(V):
    """pairs which share a prefix of their components"""
    k = V.choice("k", [0, 1, 2, 3, 4, 5, 6])
    x, y = pair(V)
    if k:
        y = x[:k] + y[k:]
        V.assume(valid_date(*y[:3]))
    return x, y


def u_order(V):
    x, y = near(V)
    a, b = mk_solar(V, *x), mk_solar(V, *y)
    V.check("isBefore is the order of components", iff(a.isBefore(b), lex_lt(x, y)))
    V.check("isAfter is its converse", iff(a.isAfter(b), lex_lt(y, x)))


def u_time(V):
    """the order of components is the order in time, and it is total"""
    x, y = pair(V)
    V.check("in time", iff(lex_lt(x, y), instant(x) < instant(y)))
    V.check("total", or_(instant(x) != instant(y), eq(x, y)))


def u_subtract(V):
    x, y = pair(V)
    a, b = mk_solar(V, *x), mk_solar(V, *y)
    V.check("whole days", a.subtract(b) == jdn(*x[:3]) - jdn(*y[:3]))


def u_minutes(V):
    x, y = pair(V)
    a, b = mk_solar(V, *x), mk_solar(V, *y)
    r = a.subtractMinute(b)
    V.check("minutes", r == (jdn(*x[:3]) - jdn(*y[:3])) * 1440 + (x[3] - y[3]) * 60 + x[4] - y[4])
    V.observe("r", r)


def u_text(V):
    """YYYY-MM-DD hh:mm:ss sorts as time"""
    x, y = near(V)
    a, b = mk_solar(V, *x), mk_solar(V, *y)
    V.check("text of instants", iff(a.toYmdHms() < b.toYmdHms(), lex_lt(x, y)))
    V.check("text of dates", iff(a.toYmd() < b.toYmd(), lex_lt(x[:3], y[:3])))
    V.check("equal texts", iff(a.toYmdHms() == b.toYmdHms(), eq(x, y)))


def u_text_parts(V):
    """every component can be read back from the text"""
    a = date(V)
    t = time_(V)
    s = mk_solar(V, *(a + t))
    x = s.toYmdHms()
    V.check("length", len(x) == 19)
    V.check("date", s.toYmd() == x[0:10])
    V.check("printed as a date", s.toString() == s.toYmd())
    V.check("fields", and_(V.num(x[0:4]) == a[0], V.num(x[5:7]) == a[1], V.num(x[8:10]) == a[2], V.num(x[11:13]) == t[0],
                           V.num(x[14:16]) == t[1], V.num(x[17:19]) == t[2]))


UNITS = [
    Unit("order", u_order, ["Solar.isBefore", "Solar.isAfter"], samples=3000),
    Unit("order-in-time", u_time, [], opaque=False),
    Unit("subtract-days", u_subtract, ["Solar.subtract"], stubs=[ST_DAYS_BETWEEN], samples=500),
    Unit("subtract-minutes", u_minutes, ["Solar.subtractMinute"], stubs=[ST_SUBTRACT], samples=500),
    Unit("text-order", u_text, ["Solar.toYmd", "Solar.toYmdHms"], samples=2000),
    Unit("text-fields", u_text_parts, ["Solar.toYmd", "Solar.toYmdHms", "Solar.toString"], samples=500),
]
