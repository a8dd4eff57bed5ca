"""C08 the structure of the lunar year"""
LEVEL = "other"
from math import floor
from dv.engine import Unit
from dv.lunarspec import *
from dv import ref, astro

SHORT = {(236, 12): 28}
# lunar years in which a reform dropped or doubled a month
ODD = {8: [1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 237: [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12]}


def years(a, b):
    return lambda tier: [{"year": y} for y in range(a, b + 1)]


def table(V, y):
    return [(m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m) for m in V.lib.LunarYear.fromYear(y).getMonths()]


def u_tables(V):
    y = V.int("year", 1, 9999)
    T = table(V, y)
    V.check("fifteen months", len(T) == 15)
    for k, (ly, lm, n, first, m) in enumerate(T):
        V.check("29 or 30 days", n == SHORT.get((ly, lm)) or n in (29, 30))
        V.check("whole first day", first == int(first))
        if k:
            V.check("contiguous", T[k - 1][3] + T[k - 1][2] == first)
    V.check("covers the solar year", T[0][3] <= jdn(y, 1, 1) and T[14][3] + T[14][2] > jdn(y, 12, 31))
    # labels agree with the months' own years
    own = {}
    for d in (-1, 0, 1):
        if 0 <= y + d <= 10000:
            for x in table(V, y + d):
                if x[0] == y + d:
                    own.setdefault((x[0], x[1]), x)
    for k, x in enumerate(T):
        o = own.get((x[0], x[1]))
        V.check("the month it names", o is not None and (o[3], o[2]) == (x[3], x[2]))
    months = [x[1] for x in T if x[0] == y]
    plain = [m for m in months if m > 0]
    leaps = [m for m in months if m < 0]
    if y in ODD:
        V.check("months of a reform year", months == ODD[y])
    else:
        V.check("months 1 to 12", plain == list(range(1, 13)))
        V.check("at most one leap month", len(leaps) <= 1)
    for m in leaps:
        V.check("a leap month follows its month", months[months.index(m) - 1] == -m)
    R = ref.months(y)
    V.check("labels, lengths and first days as in the reference", [tuple(map(int, x[:4])) + (x[4].getIndex(),) for x in T] == R)


def u_accessors(V):
    y = V.int("year", 1, 9999)
    L = V.lib.LunarYear.fromYear(y)
    T = [x for x in table(V, y) if x[0] == y]
    V.check("year", L.getYear() == y)
    V.check("months of the year", [m.getMonth() for m in L.getMonthsInYear()] == [x[1] for x in T])
    V.check("days of the year", L.getDayCount() == sum(x[2] for x in T))
    nxt = [x for x in table(V, y + 1) if x[0] == y + 1][0]
    V.check("from one new year to the next", y == 18 or T[0][3] + L.getDayCount() == nxt[3])
    leap = [x[1] for x in T if x[1] < 0]
    L = V.lib.LunarYear.fromYear(y)
    V.check("leap month", L.getLeapMonth() == (-leap[0] if leap else 0))
    for lm in range(-12, 13):
        m = L.getMonth(lm)
        at = [x for x in T if x[1] == lm]
        V.check("month by number", (m is None) == (not at))
        if m is not None and at:
            V.check("month by number", (m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay()) == at[0][:4])
            V.check("leap flag", m.isLeap() == (lm < 0))
            o = V.lib.LunarMonth.fromYm(y, lm)
            V.check("LunarMonth.fromYm", (o.getYear(), o.getMonth(), o.getDayCount(), o.getFirstJulianDay(), o.getIndex()) ==
                    at[0][:4] + (m.getIndex(),))
            L = V.lib.LunarYear.fromYear(y)
    g, z = (y - 4) % 10, (y - 4) % 12
    V.check("stem and branch", (L.getGanIndex(), L.getZhiIndex(), L.getGan(), L.getZhi(), L.getGanZhi()) ==
            (g, z, GAN[g], ZHI[z], GAN[g] + ZHI[z]))


def u_rule(V):
    """from 1728 on: month 11 holds the winter solstice and a leap month holds no mid-term"""
    y = V.int("year", 1728, 9999)
    T = table(V, y)
    jq = V.lib.LunarYear.fromYear(y).getJieQiJulianDays()
    zq = [floor(jq[i] + 0.5) for i in range(1, 31, 2)]
    for ly, lm, n, first, m in T[:14]:
        has = [i for i, z in enumerate(zq) if first <= z < first + n]
        if lm == 11:
            V.check("month 11 holds the solstice", 0 in has or 12 in has)
        if lm < 0:
            V.check("no mid-term in a leap month", not has)


def u_new_moon(V):
    """1700..2400: months begin on the day of the new moon (Meeus; 20 minutes around midnight left open)"""
    y = V.int("year", 1700, 2400)
    for ly, lm, n, first, m in table(V, y)[1:14]:
        b = astro.beijing(astro.new_moon(round((first - 2451550.1) / 29.530588861)), y)
        V.check("begins on the day of the new moon", floor(b + 0.5) == first or min((b + 0.5) % 1, 1 - (b + 0.5) % 1) * 1440 < 20)


# --------------------------------------------------------------------------
# the rule itself, over abstract astronomy

def u_labels(V):
    """LunarYear.compute over arbitrary new moons and solar terms of the right spacing"""
    y = V.int("year", 1, 9999)
    if not V.symbolic:
        u_concrete_labels(V, y)
        return
    lib, p = V.lib, V.p
    X = lib.util.ShouXingUtil
    # terms: mid-terms (中气) 29 to 32 days apart; months of 29 or 30 days
    z = [V.int("solstice", 366000, 4000000)]
    for i in range(13):
        z.append(z[-1] + V.int("gap%d" % i, 29, 32))
    odd = [z[i] + V.int("half%d" % i, 14, 16) for i in range(13)]
    qi = [odd[i // 2] if i % 2 else z[i // 2] for i in range(26)]
    k = V.int("age", 0, 29)
    hs = [z[0] - k]
    for i in range(15):
        hs.append(hs[-1] + V.int("len%d" % i, 29, 30))
    V.assume(hs[1] > z[0])
    # solar year: twelve mid-terms take 365 or 366 days
    V.assume(and_(z[12] - z[0] >= 365, z[12] - z[0] <= 366))
    # no reform years
    V.assume(y > 300)
    calls = {"qi": 0, "shuo": 0}

    def calc_qi(x):
        n = calls["qi"]
        calls["qi"] += 1
        if n == 0:                       # the estimate: on either side of the wanted solstice
            return V.int("estimate", -10000000, 10000000)
        if n > 26:
            raise Unsupported("more solar terms than abstracted")
        return qi[n - 1]

    def calc_shuo(x):
        n = calls["shuo"]
        calls["shuo"] += 1
        if n == 0:
            return hs[0] if V.choice("side", [0, 1]) == 0 else hs[1]
        if n > 16:
            raise Unsupported("more new moons than abstracted")
        return hs[n - 1]
    V.pat.set(X, "calcQi", staticmethod(calc_qi))
    V.pat.set(X, "calcShuo", staticmethod(calc_shuo))
    V.pat.set(X, "qiAccurate2", staticmethod(lambda x: 0))
    listed = V.bool("listed")
    L = lib.LunarYear(y)
    ms = L.getMonths()
    V.check("fifteen months", len(ms) == 15)
    for i, m in enumerate(ms):
        V.check("month lengths from one new moon to the next", m.getDayCount() == hs[i + 1] - hs[i])
        V.check("first days", m.getFirstJulianDay() == hs[i] + 2451545)
    lab = [m.getMonth() for m in ms]
    V.check("begins in month 11 of the year before", and_(lab[0] == 11, ms[0].getYear() == y - 1))
    leaps = [i for i in range(15) if V.fork(lab[i] < 0)]
    V.check("at most one leap month", len(leaps) <= 1)
    i0 = leaps[0] if leaps else 15
    mids = lambda i: bsum([and_(hs[i] <= t, t < hs[i + 1]) for t in z])
    thirteen = hs[13] <= z[12]           # thirteen months from solstice month to solstice month
    listed = sym_listed(V, y)
    if leaps:
        V.check("a leap month only where the year has thirteen, or by decree", or_(listed, thirteen))
        V.check("no mid-term in the leap month", or_(listed, mids(i0) == 0))
        for j in range(1, i0):
            V.check("the first month without a mid-term", or_(listed, mids(j) > 0))
    else:
        V.check("a year of thirteen months has a leap month", or_(listed, not_(thirteen)))
    n, yy = 11, y - 1
    for i in range(15):
        if i == i0:
            V.check("named after the month before it", and_(lab[i] == -n, ms[i].getYear() == yy))
            continue
        if i:
            n += 1
            if n > 12:
                n, yy = 1, yy + 1
        V.check("month numbers in order", and_(lab[i] == n, ms[i].getYear() == yy))


def sym_listed(V, y):
    L = V.lib.LunarYear
    a = [x for k, t in vars(L).items() if isinstance(t, (tuple, list, set, frozenset, dict)) for x in t if isinstance(x, int) and x > 12]
    return or_(*[y == v for v in a])


def u_concrete_labels(V, y):
    lab = [(m.getYear(), m.getMonth()) for m in V.lib.LunarYear.fromYear(y).getMonths()]
    V.check("labels as in the reference", lab == [r[:2] for r in ref.months(y)])


UNITS = [
    Unit("tables", u_tables, ["LunarYear.compute", "ShouXingUtil.calcShuo", "ShouXingUtil.calcQi"], prove=False,
         sweep=years(1, 9999), over="every lunar year 1..9999"),
    Unit("accessors", u_accessors, ["LunarYear.getMonth", "LunarYear.getMonthsInYear", "LunarYear.getLeapMonth", "LunarYear.getDayCount",
                                    "LunarMonth.fromYm"], prove=False, sweep=lambda tier: [{"year": y} for y in range(1, 10000) if tier != "quick" or y % 8 == 3 or y < 60 or 230 < y < 245 or 1880 < y < 2110],
         over="years 1..9999 (quick: every eighth, 1..59, 231..244 and 1881..2109)"),
    Unit("rule-1728", u_rule, ["LunarYear.compute"], prove=False, sweep=years(1728, 9999), over="every lunar year 1728..9999"),
    Unit("new-moons", u_new_moon, ["ShouXingUtil.calcShuo"], prove=False, sweep=years(1700, 2400), over="every lunar year 1700..2400"),
    Unit("leap-rule", u_labels, ["LunarYear.compute"], exact=False, samples=200),
]
