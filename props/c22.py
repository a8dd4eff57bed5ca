"""C22 what to do and to avoid, good and evil spirits: look-ups of packed tables"""
import json
import os
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars as P
from dv.pillars import JZ

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "data", "almanac.json"), encoding="utf-8") as f:
    A = json.load(f)
NONE = ["无"]


def ref(kind, a, b, which):
    r = A[kind].get("%d,%d" % (a, b))
    return [A["names"][i] for i in r[which]] or NONE if r else NONE


def both(V, label, got, kind, a, b):
    V.check(label + ": good", list(got[0]) == ref(kind, a, b, 0))
    V.check(label + ": bad", list(got[1]) == ref(kind, a, b, 1))


def u_day(V):
    """every pillar of the month with every pillar of the day"""
    m = V.choice("month", list(range(60)))
    U = V.lib.util.LunarUtil
    for d in range(60):
        both(V, "day", (U.getDayYi(JZ[m], JZ[d]), U.getDayJi(JZ[m], JZ[d])), "day", m, d)


def u_hour(V):
    """every pillar of the day with every pillar of the hour; hours a day cannot have give nothing"""
    d = V.choice("day", list(range(60)))
    U = V.lib.util.LunarUtil
    for t in range(60):
        both(V, "hour", (U.getTimeYi(JZ[d], JZ[t]), U.getTimeJi(JZ[d], JZ[t])), "time", d, t)


def u_spirits(V):
    """every lunar month, leap or not, with every pillar of the day"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    U = V.lib.util.LunarUtil
    for d in range(60):
        both(V, "spirits", (U.getDayJiShen(m, JZ[d]), U.getDayXiongSha(m, JZ[d])), "spirits", abs(m), d)


def u_which(V):
    """which pillars the lunar date and the hour look up"""
    r = [V.choice(n, [0, 13, 26, 39, 52, 59]) for n in ("month", "day")]
    s = V.choice("step", [1, 7, 29])
    m, d = r
    mx, dx = (m + s) % 60, (d + 2 * s + 1) % 60
    z = V.choice("hour", [0, 5, 11])
    t = P.time60(dx, z)
    lm = V.choice("lunar month", [1, -4, 12])
    L = P.make(V, {("Month", ""): m, ("Month", "Exact"): mx, ("Day", ""): d, ("Day", "Exact"): dx, ("Day", "Exact2"): (d + 3) % 60,
                   ("Time", ""): t}, _Lunar__month=lm)
    both(V, "day", (L.getDayYi(), L.getDayJi()), "day", m, d)
    both(V, "day by the month's instant", (L.getDayYi(2), L.getDayJi(2)), "day", mx, d)
    both(V, "hour", (L.getTimeYi(), L.getTimeJi()), "time", dx, t)
    both(V, "spirits", (L.getDayJiShen(), L.getDayXiongSha()), "spirits", abs(lm), d)
    T = P.make_time(V, t % 12, t % 10, L)
    both(V, "hour by itself", (T.getYi(), T.getJi()), "time", dx, t)


def u_real(V):
    """the same on dates as the library makes them"""
    a, t = instant(V)
    L = mk_solar(V, *(tuple(a) + tuple(t))).getLunar()
    m, mx, d = JZ.index(L.getMonthInGanZhi()), JZ.index(L.getMonthInGanZhiExact()), JZ.index(L.getDayInGanZhi())
    dx, h = JZ.index(L.getDayInGanZhiExact()), JZ.index(L.getTimeInGanZhi())
    both(V, "day", (L.getDayYi(), L.getDayJi()), "day", m, d)
    both(V, "day by the month's instant", (L.getDayYi(2), L.getDayJi(2)), "day", mx, d)
    both(V, "hour", (L.getTimeYi(), L.getTimeJi()), "time", dx, h)
    both(V, "hour by itself", (L.getTime().getYi(), L.getTime().getJi()), "time", dx, h)
    both(V, "spirits", (L.getDayJiShen(), L.getDayXiongSha()), "spirits", abs(L.getMonth()), d)
    V.check("hours of a day are listed", (dx, h) and "%d,%d" % (dx, h) in A["time"])


UNITS = [
    Unit("day", u_day, ["LunarUtil.getDayYi", "LunarUtil.getDayJi"], samples=60),
    Unit("hour", u_hour, ["LunarUtil.getTimeYi", "LunarUtil.getTimeJi"], samples=60),
    Unit("spirits", u_spirits, ["LunarUtil.getDayJiShen", "LunarUtil.getDayXiongSha"], samples=60),
    Unit("which", u_which, ["Lunar.getDayYi", "Lunar.getDayJi", "Lunar.getTimeYi", "Lunar.getTimeJi", "Lunar.getDayJiShen", "Lunar.getDayXiongSha",
                            "LunarTime.getYi", "LunarTime.getJi"], samples=500),
    Unit("real-days", u_real, ["Lunar.getDayYi", "Lunar.getTimeYi", "Lunar.getDayJiShen"], prove=False, samples=1000),
]
