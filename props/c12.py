"""C12 year and month pillars: which term interval an instant falls into"""
from dv.engine import Unit
from dv.lunarspec import *

OFF = (0, 1, -1)


def u_year(V):
    a, t = instant(V)
    u = lunar(V, a, t, skip=("__computeMonth", "__computeDay", "__computeTime", "__computeWeek"), offsets=OFF)
    L = u.lunar
    V.check("lunar year stem", L.getYearGanIndex() == (u.ly - 4) % 10)
    V.check("lunar year branch", L.getYearZhiIndex() == (u.ly - 4) % 12)
    yd = u.sy - ite(year_start(u, False), 0, 1)
    yx = u.sy - ite(year_start(u, True), 0, 1)
    V.check("year by the day of 立春: stem", L.getYearGanIndexByLiChun() == (yd - 4) % 10)
    V.check("year by the day of 立春: branch", L.getYearZhiIndexByLiChun() == (yd - 4) % 12)
    V.check("year by the instant of 立春: stem", L.getYearGanIndexExact() == (yx - 4) % 10)
    V.check("year by the instant of 立春: branch", L.getYearZhiIndexExact() == (yx - 4) % 12)


def months_begun(u, exact):
    """how many of the 节 (even terms) have begun"""
    return bsum([begun(u, i, exact) for i in range(0, 31, 2)])


def u_month(V):
    a, t = instant(V)
    u = lunar(V, a, t, skip=("__computeDay", "__computeTime", "__computeWeek"), offsets=OFF)
    L = u.lunar
    k = months_begun(u, False)
    p = ((u.sy - 4) * 12 + k - 3 + 2) % 60
    V.check("by day: stem", L.getMonthGanIndex() == p % 10)
    V.check("by day: branch", L.getMonthZhiIndex() == p % 12)
    k = months_begun(u, True)
    p = ((u.sy - 4) * 12 + k - 3 + 2) % 60
    V.check("by instant: stem", L.getMonthGanIndexExact() == p % 10)
    V.check("by instant: branch", L.getMonthZhiIndexExact() == p % 12)


UNITS = [
    Unit("year-pillar", u_year, ["Lunar.__computeYear"], exact=False, samples=2000, opaque=True),
    Unit("month-pillar", u_month, ["Lunar.__computeMonth"], exact=False, samples=1500, opaque=True),
]
