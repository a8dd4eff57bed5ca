"""C21 nine stars of years, months, days and hours"""
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars as P

SKIP = ("__computeYear", "__computeMonth", "__computeDay", "__computeTime", "__computeWeek")
STAR = ["一白水", "二黑土", "三碧木", "四绿木", "五黄土", "六白金", "七赤金", "八白土", "九紫火"]
PLACE = "坎坤震巽中乾兑艮离"
DIPPER = ("天枢", "天璇", "天玑", "天权", "玉衡", "开阳", "摇光", "洞明", "隐元")
NAMES_OF = {
    "getNameInXuanKong": ("贪狼", "巨门", "禄存", "文曲", "廉贞", "武曲", "破军", "左辅", "右弼"),
    "getNameInQiMen": ("天蓬", "天芮", "天冲", "天辅", "天禽", "天心", "天柱", "天任", "天英"),
    "getBaMenInQiMen": ("休", "死", "伤", "杜", "", "开", "惊", "生", "景"),
    "getNameInTaiYi": ("太乙", "摄提", "轩辕", "招摇", "天符", "青龙", "咸池", "太阴", "天乙"),
    "getTypeInTaiYi": ("吉神", "凶神", "安神", "安神", "凶神", "吉神", "凶神", "吉神", "吉神"),
    "getLuckInXuanKong": ("吉", "凶", "凶", "吉", "凶", "吉", "凶", "吉", "吉"),
    "getLuckInQiMen": ("大凶", "大凶", "小吉", "大吉", "大吉", "大吉", "小凶", "小吉", "小凶"),
    "getYinYangInQiMen": ("阳", "阴", "阳", "阳", "阳", "阴", "阴", "阳", "阴")}


def u_star(V):
    """the nine stars: number, colour, element, place"""
    i = V.choice("star", list(range(9)))
    n = V.lib.NineStar.fromIndex(i)
    V.check("index", n.getIndex() == i)
    V.check("number, colour and element", n.getNumber() + n.getColor() + n.getWuXing() == STAR[i])
    V.check("place", n.getPosition() == PLACE[i])
    V.check("dipper", n.getNameInBeiDou() == DIPPER[i])
    V.check("text", n.toString() == STAR[i] + DIPPER[i] and str(n) == n.toString())
    for k, v in NAMES_OF.items():
        V.check(k, getattr(n, k)() == v[i])


def abstract_year(V, y):
    """a LunarYear without its tables"""
    c = V.lib.LunarYear
    old = c.compute
    c.compute = lambda self: None
    try:
        return c(y)
    finally:
        c.compute = old


def u_year(V):
    """one star back each year, 七赤 in 1984; by the pillar of the chosen start of the year"""
    r = V.choice("pillar of the lunar year", list(range(60)))
    k = V.int("cycles", 0, 166)
    off = V.choice("pillar of the term year", [0, 1, -1])
    y = 60 * k + r + 4
    V.assume(and_(y >= 1, y <= 9999))
    p = (r + off) % 60
    w = (r + 1) % 60                       # the pillars the chosen convention does not use are others
    L = P.make(V, {("Year", ""): r, ("Year", "ByLiChun"): p, ("Year", "Exact"): w}, _Lunar__year=y)
    V.check("by lunar year", L.getYearNineStar(1).getIndex() == (6 - (y - 1984)) % 9)
    V.check("by the day of 立春", L.getYearNineStar().getIndex() == (6 - (y + off - 1984)) % 9)
    V.check("by the day of 立春, asked for", L.getYearNineStar(2).getIndex() == (6 - (y + off - 1984)) % 9)
    V.check("by the instant of 立春", L.getYearNineStar(3).getIndex() == (6 - (y + 1 - 1984)) % 9)


def u_lunar_year(V):
    """star, 元 of sixty and 运 of twenty years of a lunar year"""
    r = V.choice("pillar of the lunar year", list(range(60)))
    k = V.int("cycles", 0, 166)
    y = 60 * k + r + 4
    V.assume(and_(y >= 1, y <= 9999))
    Y = abstract_year(V, y)
    V.check("star", Y.getNineStar().getIndex() == (6 - (y - 1984)) % 9)
    n = (y - 1864) // 60 % 3
    V.check("元", or_(*[and_(n == i, Y.getYuan() == x + "元") for i, x in enumerate("上中下")]))
    n = (y - 1864) // 20 % 9
    V.check("运", or_(*[and_(n == i, Y.getYun() == x + "运") for i, x in enumerate("一二三四五六七八九")]))


def month_star(yz, mz):
    """寅 has 八白 in years of 子午卯酉, 五黄 in 辰戌丑未, 二黑 in 寅申巳亥; one back each month"""
    first = {0: 7, 1: 4, 2: 1}[yz % 3]
    return (first - (mz - 2) % 12) % 9


def u_month(V):
    z = V.choice("branch of the year", list(range(12)))
    m = V.choice("branch of the month", list(range(12)))
    G = {("Year", ""): (0, z), ("Year", "ByLiChun"): (0, (z + 1) % 12), ("Year", "Exact"): (0, (z + 2) % 12),
         ("Month", ""): (0, m), ("Month", "Exact"): (0, (m + 1) % 12)}
    L = P.make(V, G)
    V.check("by lunar year", L.getMonthNineStar(1).getIndex() == month_star(z, m))
    V.check("by the day of 立春", L.getMonthNineStar().getIndex() == month_star(z + 1, m))
    V.check("by the instant", L.getMonthNineStar(3).getIndex() == month_star(z + 2, (m + 1) % 12))


def u_lunar_month(V):
    m = V.choice("month", [x for x in range(-12, 13) if x])
    z = V.choice("branch of the year", list(range(12)))
    y = 4 + z + 60 * V.int("cycles", 0, 166)
    c = V.lib.LunarYear
    old = c.fromYear
    Y = abstract_year(V, y)

    def from_year(n):
        if V.symbolic and is_sym(n) and V.p.prove(n == y)[0] != "proved":
            raise Unsupported("another year")
        return Y
    c.fromYear = staticmethod(from_year)
    try:
        M = V.lib.LunarMonth(y, m, 30, 2451545, 1)
        got = M.getNineStar().getIndex()
    finally:
        c.fromYear = old
    V.check("star", got == month_star(z, (abs(m) + 1) % 12))


class Pillar:
    """contract of getDayInGanZhi() of another day (C11): its place in the cycle of sixty"""
    def __init__(self, j):
        self.j = j

    def getDayInGanZhi(self):
        return self


def ghosts(V, pat):
    pat.set(V.lib.Solar, "getLunar", lambda s: Pillar(jdn_of(s)))
    real = V.lib.util.LunarUtil.getJiaZiIndex
    pat.set(V.lib.util.LunarUtil, "getJiaZiIndex", staticmethod(lambda g: (g.j + 49) % 60 if isinstance(g, Pillar) else real(g)))
ghosts.deps = (("c11", "day-pillar"), ("c21", "jiazi"))


def u_jiazi(V):
    i = V.choice("pillar", list(range(60)))
    V.check("place in the cycle", V.lib.util.LunarUtil.getJiaZiIndex(P.JZ[i]) == i)
    V.check("no pillar", V.lib.util.LunarUtil.getJiaZiIndex(GAN[i % 10] + ZHI[(i + 1) % 12]) == -1)


def near(j):
    """the 甲子 day next to a day"""
    k = (j + 49) % 60
    return ite(k <= 29, j - k, j - k + 60)


def u_day(V):
    """from the 甲子 day next to 冬至 on stars ascend from 一白, from that next to 夏至 on they descend from 九紫"""
    a, t = instant(V, bymonth=V.symbolic)
    u = lunar(V, a, t, SKIP, None)
    if V.symbolic:
        old = Terms(V, u.sy - 1, "before.")
        x0 = old(13)
        real = V.lib.Solar.fromJulianDay

        def from_jd(x):
            if isinstance(x, JDH) and V.p.prove(x.year == u.sy - 1)[0] == "proved":
                return old(x.i)
            return real(x)
        V.pat.set(V.lib.Solar, "fromJulianDay", staticmethod(from_jd))
    else:
        x0 = V.lib.Solar.fromJulianDay(V.lib.LunarYear.fromYear(u.sy - 1).getJieQiJulianDays()[13])
    ds = [jdn(*a)] + [jdn_of(x) for x in (x0, u.T(1), u.T(13), u.T(25))]
    V.days = [tuple(a)]
    j, px, w0, x, w1 = ds
    if V.symbolic:
        for p, q in ((px, w0), (w0, x), (x, w1)):      # twelve terms of 14 to 16 days
            V.assume(and_(q - p >= 168, q - p <= 192))
        V.assume(and_(j >= w0 + 1, j <= w1 + 31))
    s0, n0, s1 = near(w0), near(x), near(w1)
    np = near(px)
    desc = lambda f: 8 - (j - f) % 9
    want = ite(j < s0, desc(np), ite(j < n0, (j - s0) % 9, ite(j < s1, desc(n0), (j - s1) % 9)))
    got = u.lunar.getDayNineStar().getIndex()
    V.check("star of the day", got == want)


def u_hour(V):
    """stars of the double hours ascend from the day of 冬至 on and descend from the day of 夏至 on"""
    a, t = instant(V)
    if V.symbolic:
        f = P.fields(V.lib)
        P.make_time(V, 0, 0, None)
    u = lunar(V, a, t, SKIP, None)
    z = V.choice("branch of the day", list(range(12)))
    h = V.int("branch of the hour", 0, 11)
    L = u.lunar
    if V.symbolic:
        vars(L)[f["getDayZhiIndex"]] = z
        vars(L)[f["getTimeZhiIndex"]] = h
        T = P.make_time(V, h, 0, L)
    else:
        z, T = L.getDayZhiIndex(), L.getTime()
        h = (t[0] + 1) // 2 % 12
    asc = or_(and_(le(u.T.ymd(1), tuple(a)), lt(tuple(a), u.T.ymd(13))), le(u.T.ymd(25), tuple(a)))
    up = {0: 0, 1: 3, 2: 6}[z % 3]
    want = ite(asc, (up + h) % 9, (8 - up - h) % 9)
    V.check("star of the hour", L.getTimeNineStar().getIndex() == want)
    V.check("the same from the hour", T.getNineStar().getIndex() == want)


def u_runs(V):
    """day by day through the years: runs of 180 or 240 days between 甲子 days, up, then down"""
    y = V.int("year", 2, 9998)
    LY, S = V.lib.LunarYear, V.lib.Solar

    def nj(yy, i):
        return near(jdn_of(S.fromJulianDay(LY.fromYear(yy).getJieQiJulianDays()[i])))
    a, b, c, d = nj(y - 1, 13), nj(y, 1), nj(y, 13), nj(y, 25)
    for p, q in ((a, b), (b, c), (c, d)):
        V.check("180 or 240 days", q - p in (180, 240))
    for day in {(y, 1, 1), from_jdn(b), from_jdn(b - 1), from_jdn(c), from_jdn(c - 1), from_jdn(d), from_jdn(d - 1), (y, 1, 20), (y, 12, 31)}:
        if day[0] != y:
            continue
        j = jdn(*day)
        i = mk_solar(V, *day).getLunar().getDayNineStar().getIndex()
        want = 8 - (j - a) % 9 if j < b else (j - b) % 9 if j < c else 8 - (j - c) % 9 if j < d else (j - d) % 9
        V.check("star of the day", i == want)


def years(tier):
    return [{"year": y} for y in (range(1600, 2300) if tier == "quick" else range(2, 9999))]


UNITS = [
    Unit("star", u_star, ["NineStar.*"], samples=30),
    Unit("jiazi", u_jiazi, ["LunarUtil.getJiaZiIndex"], samples=100),
    Unit("year", u_year, ["Lunar.getYearNineStar"], samples=2000),
    Unit("lunar-year", u_lunar_year, ["LunarYear.getNineStar", "LunarYear.getYuan", "LunarYear.getYun"], samples=2000),
    Unit("month", u_month, ["Lunar.getMonthNineStar"], samples=500),
    Unit("lunar-month", u_lunar_month, ["LunarMonth.getNineStar"], samples=1000),
    Unit("day", u_day, ["Lunar.getDayNineStar"], stubs=[ghosts, ST_SUBTRACT] + ST_NEXT_ORDERED, exact=False, samples=2500, opaque=True),
    Unit("hour", u_hour, ["Lunar.getTimeNineStar", "LunarTime.getNineStar"], exact=False, samples=2500, opaque=True),
    Unit("runs", u_runs, ["Lunar.getDayNineStar"], prove=False, sweep=years, over="the turning points of the years 1600..2299 (thorough: 2..9998)"),
]
