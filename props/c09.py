"""C09 lunar years and months as units: stepping, numbers, pillars, directions, omens"""
from dv.engine import Unit, LoopSpec, reset_ghost
from dv.lunarspec import *
from dv.spec import *
from dv.contracts import *
from dv import sym
from dv.sym import SymInt, SymBool, is_sym, cur, zint
from dv.pillars import JZ
from props.c19 import XI, YANG_GUI, YIN_GUI, FU, CAI, SUI, DESC, STEM_PLACE
from props.c21 import abstract_year
import z3

S = z3.Function("dv_months_before", z3.IntSort(), z3.IntSort())               # months before a lunar year
LABEL = z3.Function("dv_month_number", z3.IntSort(), z3.IntSort(), z3.IntSort())   # number of the i-th month of a year (-m: leap)
PLACE = z3.Function("dv_month_place", z3.IntSort(), z3.IntSort(), z3.IntSort())    # and back: numbers are distinct within a year
NUM = "〇一二三四五六七八九十"
MONTHS = "正二三四五六七八九十冬腊"


def before(y):
    return SymInt(S(zint(y)))


class Months:
    """contract of LunarYear.getMonthsInYear (C08): the 11 to 13 months of the year in order, with distinct numbers"""
    def __init__(self, V, y):
        self.V, self.y, self.n = V, y, None
        n = before(y + 1) - before(y)
        cur().assume(and_(n >= 11, n <= 13))

    def __len__(self):
        if self.n is None:
            n = before(self.y + 1) - before(self.y)
            self.n = 12 if self.V.fork(n == 12) else 13 if self.V.fork(n == 13) else 11
        return self.n

    def __getitem__(self, i):
        n = len(self)
        cur().check("a month of the list", and_(i >= -n, i < n))
        if self.V.fork(i < 0):
            i = i + n
        return Month(self.y, i)

    def __iter__(self):
        return iter([Month(self.y, i) for i in range(len(self))])


class Month:
    def __init__(self, y, i):
        self.y, self.i = y, i
        l = LABEL(zint(y), zint(i))
        cur().assume(SymInt(PLACE(zint(y), l)) == i)
        self.label = SymInt(l)

    def getYear(self):
        return self.y

    def getMonth(self):
        return self.label


class Year:
    def __init__(self, V, y):
        self.V, self.y = V, y

    def getYear(self):
        return self.y

    def getMonthsInYear(self):
        return Months(self.V, self.y)

    def getMonth(self, m):
        i = SymInt(PLACE(zint(self.y), zint(m)))
        cur().check("the year has a month of this number", and_(i >= 0, i < before(self.y + 1) - before(self.y),
                                                               SymInt(LABEL(zint(self.y), zint(i))) == m))
        return Month(self.y, i)


def years_stub(V, pat):
    pat.set(V.lib.LunarYear, "fromYear", staticmethod(lambda y: Year(V, y)))
years_stub.deps = (("c08", "accessors"),)


def keep(v):
    return isinstance(v, (Months, Year))


def candidates(env):
    out = []
    ms = [k for k, v in env.items() if keep(v)]
    ints = [k for k, v in env.items() if isinstance(v, (int, SymInt)) and not isinstance(v, bool) and not k.startswith("dv_")]
    for m in ms:
        for v in ints:
            for sg in (1, -1):
                for o in (0, 1):
                    def f(e, m=m, v=v, sg=sg, o=o):
                        return before(e[m].y + o) + sg * e[v]
                    c = f(env)
                    out.append(("S(%s+%d)%+d*%s const" % (m, o, sg, v), lambda e, f=f, c=c: f(e) == c))
            out.append(("%s is of year %s" % (m, v), lambda e, m=m, v=v, c=env[m].y - env[v]: e[m].y - e[v] == c))
            out.append(("%s < months of %s" % (v, m), lambda e, m=m, v=v: e[v] < before(e[m].y + 1) - before(e[m].y)))
            out.append(("%s <= months of %s" % (v, m), lambda e, m=m, v=v: e[v] <= before(e[m].y + 1) - before(e[m].y)))
    for v in ints:
        out.append(("const " + v, lambda e, v=v, c=env[v]: e[v] == c))
        out.append((v + ">=0", lambda e, v=v: e[v] >= 0))
        out.append((v + "<=0", lambda e, v=v: e[v] <= 0))
        out.append((v + "<0 or small", lambda e, v=v: e[v] < 13))
    return out


def variants(env):
    for v in env:
        if isinstance(env[v], (int, SymInt)) and not isinstance(env[v], bool) and not v.startswith("dv_"):
            yield v, lambda e, v=v: e[v]
            yield "-" + v, lambda e, v=v: -e[v]
            yield "-%s+13" % v, lambda e, v=v: 13 - e[v]


def havoc(p, name, v):
    if not keep(v):
        raise sym.Unsupported("a loop changes %s" % name)
    return type(v)(v.V, SymInt(p.fresh_int(name + "_year")))


LOOP = LoopSpec(candidates, variants, havoc, keep)


def step(V, lo, hi):
    L = V.lib.LunarMonth
    if V.symbolic:
        y, n = V.int("year", 1, 9999), V.int("n", lo, hi)
        i = V.choice("place in the year", list(range(13)))
        V.assume(i < before(y + 1) - before(y))
        own = Month(y, i)
        M = object.__new__(L)
        t = L(0, 77, 30, 2451545, 0)
        for k, v in vars(t).items():
            vars(M)[k] = y if k.endswith("__year") else own.label if k.endswith("__month") else v
        r = M.next(n)
        if isinstance(r, Month):
            V.check("n months on", before(r.y) + r.i == before(y) + i + n)
            V.check("a month of that year", and_(r.i >= 0, r.i < before(r.y + 1) - before(r.y)))
        else:
            raise sym.Unsupported("result is no month of a list of months")
        return
    y, n = V.int("year", 1, 9990), V.int("n", max(lo, -60), min(hi, 60))
    odd = V.int("reform", 0, 90)
    if odd < 18:
        y = (6, 7, 8, 9, 16, 17, 18, 19, 20, 22, 23, 24, 235, 236, 237, 238, 239, 240)[odd]
    V.assume(1 <= y + n // 11 - 1 and y + n // 11 + 1 <= 9998)
    seq = [(m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m.getIndex(), m.getGanZhi())
           for k in range(y - 7 if y > 7 else 1, y + 8) for m in V.lib.LunarYear.fromYear(k).getMonthsInYear()]
    i = V.int("place", 0, 12)
    at = [k for k, x in enumerate(seq) if x[0] == y]
    V.assume(i < len(at) and 0 <= at[i] + n < len(seq))
    x = seq[at[i]]
    m = L.fromYm(x[0], x[1]).next(n)
    V.check("n months on", (m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m.getIndex(), m.getGanZhi()) == seq[at[i] + n])


def u_on(V):
    """n months on is the month with n months from the start to it, whatever years lie between"""
    step(V, 0, 200000)


def u_back(V):
    """n months back likewise"""
    step(V, -200000, -1)


def u_year_next(V):
    """n years on"""
    c = V.lib.LunarYear
    y, n = V.int("year", 1, 9999), V.int("n", -9998, 9998)
    V.assume(and_(y + n >= 1, y + n <= 9999))
    reset_ghost(V.lib)
    old = c.compute
    c.compute = lambda self: None
    try:
        Y = c(y)
        r = Y.next(n)
        V.check("n years on", r.getYear() == y + n)
        g, z = (y + n - 4) % 10, (y + n - 4) % 12
        V.check("its stem and branch", and_(r.getGanIndex() == g, r.getZhiIndex() == z))
        V.check("receiver stays", Y.getYear() == y)
    finally:
        c.compute = old
        reset_ghost(V.lib)


def directions(V, o, s, fu=True):
    for n, t in (("Xi", XI), ("YangGui", YANG_GUI), ("YinGui", YIN_GUI), ("Cai", CAI)):
        V.check("position of " + n, getattr(o, "getPosition" + n)() == t[s])
        V.check("its direction " + n, getattr(o, "getPosition%sDesc" % n)() == DESC[t[s]])
    V.check("position of Fu", and_(o.getPositionFu(1) == FU[1][s], o.getPositionFu(2) == FU[2][s], o.getPositionFu() == FU[2][s]))
    V.check("its direction Fu", and_(o.getPositionFuDesc(1) == DESC[FU[1][s]], o.getPositionFuDesc(2) == DESC[FU[2][s]], o.getPositionFuDesc() == DESC[FU[2][s]]))


def u_year(V):
    """pillar and directions of a lunar year"""
    r = V.choice("pillar", list(range(60)))
    k = V.int("cycles", -1, 166)
    y = 60 * k + r + 4
    V.assume(and_(y >= 0, y <= 10000))
    Y = abstract_year(V, y)
    V.check("pillar", and_(Y.getGanIndex() == r % 10, Y.getZhiIndex() == r % 12, Y.getGan() == GAN[r % 10], Y.getZhi() == ZHI[r % 12], Y.getGanZhi() == JZ[r]))
    V.check("year", Y.getYear() == y)
    directions(V, Y, r % 10)
    V.check("太岁", and_(Y.getPositionTaiSui() == SUI[r % 12], Y.getPositionTaiSuiDesc() == DESC[SUI[r % 12]]))


class Lunarish:
    def __init__(self, V, j):
        self.V, self.j = V, j

    def __getattr__(self, name):
        x = self.__dict__["V"].first.get(name)
        if x is None:
            raise Unsupported("asks the first day for " + name)
        return lambda: x


def first_day(V, pat):
    """contracts of Solar.fromJulianDay (C02) and Solar.getLunar (C11, C12) for the first day of the month"""
    def from_jd(x):
        V.p.check("the first day of the month", x == V.first_jd)
        return V.first_solar
    pat.set(V.lib.Solar, "fromJulianDay", staticmethod(from_jd))
    pat.set(V.lib.Solar, "getLunar", lambda s: Lunarish(V, None))
first_day.deps = (("c02", "from-any-julian-day"), ("c11", "day-pillar"))


def u_month(V):
    """number, pillar and directions of a lunar month by its place in the year"""
    i = V.choice("place", list(range(1, 14)))
    m = V.choice("month", [x for x in range(-12, 13) if x])
    r = V.choice("stem of the year", list(range(10)))
    y = 4 + r + 10 * V.int("decades", 0, 999)
    dc, first = V.choice("days", [29, 30]), V.int("first", 1721058, 5373484)
    s = (2 * (r % 5) + 2 + i - 1) % 10          # 甲 and 己 begin with 丙寅
    c = V.lib.LunarYear
    old = c.fromYear
    Y = abstract_year(V, y)

    def from_year(n):
        if V.symbolic and is_sym(n) and V.p.prove(n == y)[0] != "proved":
            raise Unsupported("another year")
        return Y
    c.fromYear = staticmethod(from_year)
    try:
        M = V.lib.LunarMonth(y, m, dc, first, i)
        V.check("what it was made of", and_(M.getYear() == y, M.getMonth() == m, M.getDayCount() == dc, M.getFirstJulianDay() == first, M.getIndex() == i))
        V.check("leap", M.isLeap() == (m < 0))
        z = (i + 1) % 12
        V.check("pillar", and_(M.getGanIndex() == s, M.getZhiIndex() == z, M.getGan() == GAN[s], M.getZhi() == ZHI[z], M.getGanZhi() == GAN[s] + ZHI[z]))
        directions(V, M, s)
    finally:
        c.fromYear = old


def u_month_sui(V):
    """太岁 of a month: by its number, in months 2, 6 and 10 by the stem of the month its first day lies in"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    g = V.choice("stem", list(range(10)))
    first = V.int("first", 1721058, 5373484)
    if V.symbolic:
        V.first_jd, V.first_solar, V.first = first, mk_solar(V, 2000, 1, 1), {"getMonthGanIndex": g}
        M = V.lib.LunarMonth(2000, m, 30, first, abs(m))
    else:
        y = 1 + first % 9990
        M = V.lib.LunarMonth.fromYm(y, m)
        V.assume(M is not None)
        g = V.lib.Solar.fromJulianDay(M.getFirstJulianDay()).getLunar().getMonthGanIndex()
    k = abs(m) % 4
    want = {0: "巽", 1: "艮", 3: "坤"}.get(k) or STEM_PLACE[g]
    V.check("太岁", and_(M.getPositionTaiSui() == want, M.getPositionTaiSuiDesc() == DESC[want]))


OMENS = {"getTouLiang": ("几鼠偷粮", 0), "getCaoZi": ("草子几分", 0), "getGengTian": ("几牛耕田", 1), "getHuaShou": ("花收几分", 3),
         "getZhiShui": ("几龙治水", 4), "getTuoGu": ("几马驮谷", 6), "getQiangMi": ("几鸡抢米", 9), "getKanCan": ("几姑看蚕", 9),
         "getGongZhu": ("几屠共猪", 11)}
STEM_OMENS = {"getJiaTian": ("甲田几分", 0), "getFenBing": ("几人分饼", 2), "getDeJin": ("几日得金", 7)}


def num(n):
    return NUM[n] if n <= 10 else "十" + NUM[n - 10]


def u_omens(V):
    """omens of the year: the day of month 1 that first has a branch or stem"""
    if V.symbolic:
        r = V.choice("pillar of the first day", list(range(60)))
        V.first_jd, V.first_solar = V.int("first", 1721058, 5373484), mk_solar(V, 2000, 1, 1)
        V.first = {"getDayGanIndex": r % 10, "getDayZhiIndex": r % 12}
        Y = abstract_year(V, 2000)
        M = V.lib.LunarMonth(2000, 1, 30, V.first_jd, 1)
        c = V.lib.LunarYear
        old = c.getMonth
        c.getMonth = lambda s, m: M if m == 1 else None
    else:
        y = V.int("year", 1, 9998)
        Y = V.lib.LunarYear.fromYear(y)
        r = (int(Y.getMonth(1).getFirstJulianDay()) + 49) % 60
    try:
        b = lambda z: num((z - r) % 12 + 1)
        s = lambda g: num((g - r) % 10 + 1)
        for k, (t, z) in OMENS.items():
            V.check(k, getattr(Y, k)() == t.replace("几", b(z)))
        for k, (t, g) in STEM_OMENS.items():
            V.check(k, getattr(Y, k)() == t.replace("几", s(g)))
        V.check("getRenBing", Y.getRenBing() == b(2) + "人" + s(2) + "丙")
        V.check("getRenChu", Y.getRenChu() == b(2) + "人" + s(3) + "锄")
    finally:
        if V.symbolic:
            c.getMonth = old


def u_index(V):
    """the months of a year are numbered from one on, by whatever way they are got; texts"""
    y = V.int("year", 1, 9999)
    L, Y = V.lib.LunarMonth, V.lib.LunarYear.fromYear(y)
    V.check("texts of the year", (Y.toString(), str(Y), Y.toFullString()) == (str(y), str(y), "%d年" % y))
    ms = Y.getMonthsInYear()
    for i, m in enumerate(ms):
        V.check("place in the year", m.getIndex() == i + 1)
        o = L.fromYm(y, m.getMonth())
        V.check("the same month by number", (o.getIndex(), o.getFirstJulianDay()) == (i + 1, m.getFirstJulianDay()))
        V.check("text", str(o) == o.toString() == "%d年%s%s月(%d天)" % (y, "闰" if m.getMonth() < 0 else "", MONTHS[abs(m.getMonth()) - 1], m.getDayCount()))
        g = (2 * ((y - 4) % 5) + 2 + i) % 10
        V.check("pillar", o.getGanZhi() == GAN[g] + ZHI[(i + 2) % 12])
    z = L.fromYm(y, ms[0].getMonth()).next(0)
    V.check("no step", (z.getYear(), z.getMonth(), z.getFirstJulianDay()) == (y, ms[0].getMonth(), ms[0].getFirstJulianDay()))


UNITS = [
    Unit("on", u_on, ["LunarMonth.next"], stubs=[years_stub], loops=LOOP, exact=False, samples=150),
    Unit("back", u_back, ["LunarMonth.next"], stubs=[years_stub], loops=LOOP, exact=False, samples=150),
    Unit("year-next", u_year_next, ["LunarYear.next", "LunarYear.fromYear", "LunarYear.__init__"], samples=300),
    Unit("year", u_year, ["LunarYear.getGan", "LunarYear.getZhi", "LunarYear.getGanZhi"] + ["LunarYear.getPosition%s" % x for x in
         ("Xi", "YangGui", "YinGui", "Fu", "Cai", "TaiSui")], samples=200),
    Unit("month", u_month, ["LunarMonth.__init__", "LunarMonth.isLeap", "LunarMonth.getGanIndex", "LunarMonth.getZhiIndex", "LunarMonth.getGanZhi"] +
         ["LunarMonth.getPosition%s" % x for x in ("Xi", "YangGui", "YinGui", "Fu", "Cai")], samples=300),
    Unit("month-tai-sui", u_month_sui, ["LunarMonth.getPositionTaiSui"], stubs=[first_day], exact=False, samples=200),
    Unit("omens", u_omens, ["LunarYear.__getZaoByGan", "LunarYear.__getZaoByZhi"] + ["LunarYear." + x for x in list(OMENS) + list(STEM_OMENS) + ["getRenBing", "getRenChu"]],
         stubs=[first_day], exact=False, samples=150),
    Unit("index", u_index, ["LunarYear.getMonthsInYear", "LunarMonth.fromYm", "LunarMonth.toString", "LunarYear.toString"], prove=False,
         sweep=lambda tier: [{"year": y} for y in range(1, 10000) if tier != "quick" or y % 4 == 1 or y < 60 or 230 < y < 245 or 1880 < y < 2110],
         over="years 1..9999 (quick: every fourth, 1..59, 231..244 and 1881..2109)"),
]
