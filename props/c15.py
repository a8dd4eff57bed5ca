"""C15 luck cycles (起运, 大运, 流年, 小运, 流月)"""
import importlib
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars, rt
from dv.pillars import JZ, make, month60, pillar


class Jie:
    """a 节 as getPrevJie and getNextJie return it (C10)"""
    def __init__(self, solar):
        self.solar = solar

    def getSolar(self):
        return self.solar


def solar_attr(V):
    o = V.lib.Solar.fromYmd(2024, 2, 4).getLunar()
    h = [k for k, v in vars(o).items() if isinstance(v, V.lib.Solar)]
    if len(h) != 1:
        raise Unsupported("the Solar of a Lunar")
    return h[0]


def mod(V):
    return importlib.import_module(V.lib.__name__ + ".eightchar")


def put(o, **methods):
    for k, f in methods.items():
        vars(o)[k] = f
    return o


def hour_index(h):
    return 11 if h == 23 else (h + 1) // 2


def birth(V, hours=True, k=None):
    """(lunar, instant, 节 before, 节 after, days between)"""
    if not V.symbolic:
        a, t = instant(V, ymin=3, ymax=9980)
        L = mk_solar(V, *(a + t)).getLunar()
        return L, a, t, L.getPrevJie().getSolar(), L.getNextJie().getSolar()
    a = date(V, "", 3, 9980)
    t = time_(V)
    if hours:
        t = (t[0].__index__(),) + t[1:]
    j = jdn(*a)
    s = solar_of(V, *(a + t))
    out = []
    for n, sign in (("prev", -1), ("next", 1)):
        k = V.int(n + ".days", 0, 33)
        d = fresh_date(V.p, n, None, None)
        x = time_(V, n + ".")
        if hours:
            x = (x[0].__index__(),) + x[1:]
        V.assume(jdn(*d) == j + sign * k)
        V.assume(and_(d[0] >= a[0] - 1, d[0] <= a[0] + 1))         # as the day counts are opaque
        V.assume(implies(k == 0, eq(tuple(d), tuple(a))))
        V.assume(implies(k == 0, le(x, t) if sign < 0 else lt(t, x)))
        q = solar_of(V, *(tuple(d) + x))
        q.__dict__["dv_jdn"] = j + sign * k
        out.append(q)
    s.__dict__["dv_jdn"] = j
    yg = V.int("year stem", 0, 9)
    L = make(V, {("Year", "Exact"): (yg, None)}, **{solar_attr(V): s})
    put(L, getPrevJie=lambda *w: Jie(out[0]), getNextJie=lambda *w: Jie(out[1]))
    return L, a, t, out[0], out[1]


def _zhi(V, hm):
    h, mi = rt.b_int(hm[0:2]), rt.b_int(hm[3:5])
    if len(hm) != 5:
        raise Unsupported("a time that is not HH:MM")
    V.p.check("the time is HH:MM", and_(h >= 0, h <= 23, mi >= 0, mi <= 59))
    return (h + 1) // 2 % 12


ST_ZHI = fstub(lambda L: L.util.LunarUtil, "getTimeZhiIndex", lambda hm: True, _zhi, label="LunarUtil.getTimeZhiIndex", deps=("c11/time-text",))


def u_start(V, sect):
    gender = V.choice("gender", [1, 0])
    L, a, t, P, N = birth(V, False)
    y = V.lib.EightChar(L).getYun(gender) if sect == 1 and gender else V.lib.EightChar(L).getYun(gender, sect)
    yang = L.getYearGanIndexExact() % 2 == 0
    fwd = iff(yang, gender == 1)
    V.check("forwards for yang men and yin women", iff(y.isForward(), fwd))
    V.check("gender", y.getGender() == gender)
    Y, M, D, H = y.getStartYear(), y.getStartMonth(), y.getStartDay(), y.getStartHour()
    V.check("ranges", and_(Y >= 0, M >= 0, M < 12, D >= 0, D < 30, H >= 0, H < 24))
    S = L.getSolar()
    x, z = (S, N) if (fwd if not is_sym(fwd) else y.isForward()) else (P, S)
    days = jdn_of(z) - jdn_of(x)
    if sect == 2:
        m = days * 1440 + (z.getHour() - x.getHour()) * 60 + z.getMinute() - x.getMinute()
        V.check("three days are a year, two hours a month, a double minute an hour", Y * 8640 + M * 720 + D * 24 + H == 2 * m)
    else:
        n = days * 12 + hour_index(z.getHour()) - hour_index(x.getHour())
        V.check("three days are a year, a day four months, a double hour ten days", Y * 360 + M * 30 + D == n * 10)
        V.check("no hours", H == 0)


def u_start1(V):
    u_start(V, 1)


def u_start2(V):
    u_start(V, 2)


# --------------------------------------------------------------------------
def cycles(V, pil):
    """a Yun of which the year of birth, the year it starts and its direction are given"""
    by = V.int("birth year", 2, 9000)
    sy = V.int("start year", 2, 9100)
    V.assume(sy >= by)
    V.assume(sy <= by + 12)
    fwd = V.choice("forward", [True, False])
    c = (by, 7, 1, 12, 0, 0)
    L = make(V, pil, **{solar_attr(V): solar_of(V, *c) if V.symbolic else mk_solar(V, *c)})
    y = object.__new__(mod(V).Yun)
    put(y, getLunar=lambda: L, getStartSolar=lambda: (solar_of if V.symbolic else mk_solar)(V, sy, 8, 1, 0, 0, 0), isForward=lambda: fwd)
    # 立春 of the year of birth
    beg = make(V, {("Year", "Exact"): (((by - 4) % 10), ((by - 4) % 12))}) if not V.symbolic else None
    return L, y, by, sy, fwd


def u_decades(V):
    m = V.choice("month pillar", list(range(60)))
    L, y, by, sy, fwd = cycles(V, {("Month", "Exact"): m})
    i = V.choice("i", [0, 1, 2, 3, 9, 10, 11, 12, 30, 59])
    D = mod(V).DaYun(y, i)
    V.check("number", D.getIndex() == i)
    if i == 0:
        V.check("before the first", and_(D.getStartYear() == by, D.getEndYear() == sy - 1, D.getStartAge() == 1, D.getEndAge() == sy - by))
        V.check("has no pillar", D.getGanZhi() == "")
        return
    V.check("ten years each, one after the other", and_(D.getStartYear() == sy + 10 * (i - 1), D.getEndYear() == sy + 10 * i - 1))
    V.check("ages: one in the year of birth", and_(D.getStartAge() == D.getStartYear() - by + 1, D.getEndAge() == D.getEndYear() - by + 1))
    p = (m + (i if fwd else -i)) % 60
    V.check("pillars follow (precede) that of the month", D.getGanZhi() == JZ[p])
    V.check("decade of the cycle", and_(D.getXun() == JZ[p // 10 * 10], D.getXunKong() == ZHI[(p // 10 * 10 + 10) % 12] + ZHI[(p // 10 * 10 + 11) % 12]))


def u_years(V):
    """流年, 流月, 小运 of every year of the first ten decades"""
    r = V.choice("year of birth in the cycle", list(range(60)))
    q = V.int("cycle", 0, 140)
    diff = V.choice("years until the start", list(range(13)))
    by = 60 * q + r + 4
    fwd = V.choice("forward", [True, False]) if diff == 7 else True
    sy = by + diff
    t = (r * 7 + 5) % 60                      # some pillar of the hour: any of the 60 as r varies
    c = (by, 7, 1, 12, 0, 0)
    mk = solar_of if V.symbolic else mk_solar
    L = make(V, {("Time", ""): t}, **{solar_attr(V): mk(V, *c)})
    spring = mk(V, by, 2, 4, 0, 0, 0)
    beg = make(V, {("Year", "Exact"): r})
    put(spring, getLunar=lambda: beg)
    put(L, getJieQiTable=lambda: {"立春": spring})
    y = put(object.__new__(mod(V).Yun), getLunar=lambda: L, getStartSolar=lambda: mk(V, sy, 8, 1, 0, 0, 0), isForward=lambda: fwd)
    ds = y.getDaYun()
    V.check("ten decades, the one before the first included", [D.getIndex() for D in ds] == list(range(10)))
    V.check("as many decades as asked for", [D.getIndex() for D in y.getDaYun(3)] == [0, 1, 2])
    V.check("as many years as asked for", [len(D.getLiuNian(4)) for D in ds[:3]] + [len(D.getXiaoYun(4)) for D in ds[:3]] == [diff, 4, 4] * 2)
    for i in (0, 1, 2, 5, 9):
        D = ds[i]
        ys, xs = D.getLiuNian(), D.getXiaoYun()
        n = diff if i == 0 else 10
        V.check("as many years as the decade has", len(ys) == n and len(xs) == n)
        for j in range(n):
            age = j + 1 if i == 0 else diff + 10 * (i - 1) + j + 1
            Y, X = ys[j], xs[j]
            V.check("year and age", and_(Y.getIndex() == j, Y.getYear() == by + age - 1, Y.getAge() == age,
                                         X.getIndex() == j, X.getYear() == by + age - 1, X.getAge() == age))
            p = (r + age - 1) % 60
            V.check("流年: the pillar of the year", Y.getGanZhi() == JZ[p])
            V.check("its decade", Y.getXun() == JZ[p // 10 * 10] and Y.getXunKong() == ZHI[(p // 10 * 10 + 10) % 12] + ZHI[(p // 10 * 10 + 11) % 12])
            x = (t + (age if fwd else -age)) % 60
            V.check("小运: the hour's pillar and one more each year", X.getGanZhi() == JZ[x])
            V.check("its decade ", X.getXun() == JZ[x // 10 * 10] and X.getXunKong() == ZHI[(x // 10 * 10 + 10) % 12] + ZHI[(x // 10 * 10 + 11) % 12])
            if j in (0, 3) and i < 2:
                ms = Y.getLiuYue()
                V.check("twelve months", len(ms) == 12)
                for k, M in enumerate(ms):
                    z = month60(p, k)
                    V.check("流月: 五虎遁", M.getIndex() == k and M.getGanZhi() == JZ[z] and M.getXun() == JZ[z // 10 * 10]
                            and M.getXunKong() == ZHI[(z // 10 * 10 + 10) % 12] + ZHI[(z // 10 * 10 + 11) % 12])
                    V.check("its name", M.getMonthInChinese() == "正二三四五六七八九十冬腊"[k])


def last(y, m, d):
    """the day of the month, or the month's last"""
    return ite(and_(y == 1582, m == 10), ite(and_(d > 4, d < 15), d + 10, d), min_(d, last_day(y, m)))


def u_start_day(V):
    """起运 by the calendar: years, then months, then days, then hours after the birth"""
    if V.symbolic:
        a, t = date_by_month(V, "", 3, 9980), time_(V)
        Y, M, D, H = V.int("Y", 0, 11), V.int("M", 0, 11), V.int("D", 0, 29), V.int("H", 0, 23)
        s = solar_of(V, *(a + t))
        y = pillars.clone(V, "yun", lambda: V.lib.Solar.fromYmdHms(2024, 2, 4, 12, 0, 0).getLunar().getEightChar().getYun(1))
        d = vars(y)
        for k, v in (("Year", Y), ("Month", M), ("Day", D), ("Hour", H)):
            n = "_Yun__start" + k
            if n not in d:
                h = [{a for a, v in vars(o).items() if type(v) is int and v == getattr(o, "getStart" + k)()} for o in (
                    V.lib.Solar.fromYmdHms(*c).getLunar().getEightChar().getYun(1, 2) for c in
                    ((2024, 2, 4, 12, 0, 0), (1990, 5, 21, 3, 10, 0), (1977, 11, 2, 20, 20, 20), (2001, 8, 19, 5, 5, 5)))]
                n = set.intersection(*h)
                if len(n) != 1:
                    raise Unsupported("fields of Yun")
                n = n.pop()
            d[n] = v
        h = [k for k, v in d.items() if isinstance(v, V.lib.Lunar)]
        if len(h) != 1:
            raise Unsupported("the Lunar of a Yun")
        d[h[0]] = make(V, {}, **{solar_attr(V): s})
    else:
        gender = V.choice("gender", [1, 0])
        sect = V.choice("sect", [1, 2])
        L, a, t, P, N = birth(V)
        y = V.lib.EightChar(L).getYun(gender, sect)
        Y, M, D, H = y.getStartYear(), y.getStartMonth(), y.getStartDay(), y.getStartHour()
    y1 = a[0] + Y
    d1 = last(y1, a[1], a[2])
    m2 = a[1] - 1 + M
    y2, m2 = y1 + ite(m2 >= 12, 1, 0), m2 - ite(m2 >= 12, 12, 0) + 1
    d2 = last(y2, m2, d1)
    h = t[0] + H
    r = comps(y.getStartSolar())
    V.check("the day", jdn(*r[:3]) == jdn(y2, m2, d2) + D + ite(h >= 24, 1, 0))
    V.check("exists", valid_date(*r[:3]))
    V.check("the hour", r[3] == h - ite(h >= 24, 24, 0))
    V.check("minute and second of the birth", and_(r[4] == t[1], r[5] == t[2]))


UNITS = [
    Unit("start-1", u_start1, ["Yun.__init__", "Yun.__compute_start"], stubs=[ST_SUBTRACT, ST_ZHI], samples=2000, opaque=True),
    Unit("start-2", u_start2, ["Yun.__init__", "Yun.__compute_start"], stubs=[ST_SUBTRACT], samples=2000, opaque=True),
    Unit("decades", u_decades, ["DaYun.__init__", "DaYun.getGanZhi"], samples=2000),
    Unit("years", u_years, ["LiuNian.__init__", "LiuNian.getGanZhi", "XiaoYun.__init__", "XiaoYun.getGanZhi", "LiuYue.getGanZhi", "DaYun.getLiuNian", "Yun.getDaYun",
                            "DaYun.getXiaoYun", "LiuNian.getLiuYue"], samples=100),
    Unit("start-day", u_start_day, ["Yun.getStartSolar"], stubs=[ST_NEXT, ST_NEXT_DAY], samples=4000, opaque=True),
]
