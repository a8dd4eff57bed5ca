"""C11 day and hour pillars, double hours"""
from dv.engine import Unit
from dv.lunarspec import *

OFF = None
SKIP = ("__computeYear", "__computeMonth", "__computeWeek")


def day60(a):
    return (jdn(*a) - 11) % 60


def zhi(h):
    return (h + 1) // 2 % 12


def u_day(V):
    a, t = instant(V, bymonth=False)
    L = lunar(V, a, t, SKIP + ("__computeTime",), OFF).lunar
    p = day60(a)
    late = t[0] == 23
    V.check("day stem", L.getDayGanIndex() == p % 10)
    V.check("day branch", L.getDayZhiIndex() == p % 12)
    V.check("day counted from midnight: stem", L.getDayGanIndexExact2() == p % 10)
    V.check("day counted from midnight: branch", L.getDayZhiIndexExact2() == p % 12)
    q = p + ite(late, 1, 0)
    V.check("day counted from 23:00: stem", L.getDayGanIndexExact() == q % 10)
    V.check("day counted from 23:00: branch", L.getDayZhiIndexExact() == q % 12)


def u_hour(V):
    a, t = instant(V, bymonth=False)
    if V.symbolic:
        t = (t[0].__index__(),) + t[1:]
    L = lunar(V, a, t, SKIP, OFF).lunar
    z = zhi(t[0])
    q = day60(a) + ite(t[0] == 23, 1, 0)
    g = L.getDayGanIndexExact()
    V.lemma("stem of the day from 23:00", g == q % 10)
    V.check("double hour", L.getTimeZhiIndex() == z)
    V.check("hour stem", L.getTimeGanIndex() == (g % 5 * 2 + z) % 10)
    T = L.getTime()
    V.check("LunarTime: double hour", T.getZhiIndex() == z)
    V.check("LunarTime: stem", T.getGanIndex() == (g % 5 * 2 + z) % 10)


def minutes(hm):
    return int(hm[:2]) * 60 + int(hm[3:])


def u_span(V):
    """the span of the double hour contains the instant"""
    (a, t) = instant(V, time=False, bymonth=False) if V.symbolic else instant(V, bymonth=False)
    h = V.choice("h", list(range(24)))
    mi = V.int("mi", 0, 59)
    T = lunar(V, a, (h, mi, 0), SKIP, OFF, day=1 if V.symbolic else None).lunar.getTime()
    lo, hi = minutes(T.getMinHm()), minutes(T.getMaxHm())
    V.check("contains the instant", and_(lo <= h * 60 + mi, h * 60 + mi <= hi))
    V.check("one double hour (half of one around midnight)", hi - lo == (59 if h in (0, 23) else 119))
    V.check("starts with it", lo == (0 if h == 0 else 1380 if h == 23 else (h + 1) // 2 * 120 - 60))


def u_times(V):
    """the thirteen spans of a day tile it"""
    (a, t) = instant(V, time=False, bymonth=False) if V.symbolic else instant(V, bymonth=False)
    L = lunar(V, a, t, SKIP, OFF, day=1 if V.symbolic else None).lunar
    ts = L.getTimes()
    V.check("thirteen", len(ts) == 13)
    end = -1
    g = L.getDayGanIndex()
    V.lemma("stem of the day", g == day60(a) % 10)
    for k, x in enumerate(ts):
        V.check("no gap, no overlap", minutes(x.getMinHm()) == end + 1)
        end = minutes(x.getMaxHm())
        V.check("branches in order", x.getZhiIndex() == k % 12)
        V.check("stems in order", x.getGanIndex() == ((g + (1 if k == 12 else 0)) % 5 * 2 + k % 12) % 10)
    V.check("to the end of the day", end == 1439)


def u_convert(V):
    """text of a time of day to its double hour"""
    h, m = V.int("h", 0, 23), V.int("m", 0, 59)
    s = "%02d:%02d" % (h, m) if not V.symbolic else rt_fmt(V, h, m)
    i = V.lib.util.LunarUtil.getTimeZhiIndex(s)
    V.check("double hour of the text", i == zhi(h))


def rt_fmt(V, h, m):
    from dv import rt
    return rt.concat([rt.fmt_int(h, True, 2), ":", rt.fmt_int(m, True, 2)])


def u_cycle(V):
    """consecutive days have consecutive pillars"""
    a = date(V, ymax=LMAX - 1)
    b = shift(*(a + (1,)))
    V.check("next day, next pillar", day60(b) == (day60(a) + 1) % 60)
    V.check("60 days, same pillar", (jdn(*a) + 60 - 11) % 60 == day60(a))


UNITS = [
    Unit("day-pillar", u_day, ["Lunar.__computeDay"], stubs=[ST_GET_JD], exact=False, samples=2000, opaque=True),
    Unit("hour-pillar", u_hour, ["Lunar.__computeTime", "LunarTime.__init__", "LunarUtil.getTimeZhiIndex"], stubs=[ST_GET_JD],
         exact=False, samples=2000, opaque=True),
    Unit("span", u_span, ["LunarTime.getMinHm", "LunarTime.getMaxHm"], stubs=[ST_GET_JD], exact=False, samples=800, opaque=True),
    Unit("times", u_times, ["Lunar.getTimes"], stubs=[ST_GET_JD], exact=False, samples=400, opaque=True),
    Unit("time-text", u_convert, ["LunarUtil.getTimeZhiIndex"], samples=400),
    Unit("cycle", u_cycle, [], samples=400),
]
