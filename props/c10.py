"""C10 the solar-term table and what is found in it"""
from dv.engine import Unit
from dv.lunarspec import *
from dv import ref, astro

SKIP = ("__computeYear", "__computeMonth", "__computeDay", "__computeTime", "__computeWeek")
KINDS = {"Jie": lambda i: i % 2 == 0, "Qi": lambda i: i % 2 == 1, "JieQi": lambda i: True}


def which(V, u, s):
    """the number of the term whose instant the library returned"""
    for i in range(31):
        x = u.T.made.get(i) if V.symbolic else u.T(i)
        if s is x or (V.symbolic and isinstance(x, Lazy) and s is x.__dict__.get("dv_s")):
            return i
        if not V.symbolic and comps(s) == comps(x):
            return i
    raise Unsupported("a term instant that is not in the table") if V.symbolic else AssertionError("not an instant of the table")


def u_near(V):
    a, t = instant(V)
    kind = V.choice("kind", list(KINDS))
    forward = V.choice("forward", [True, False])
    whole = V.choice("whole day", [False, True])
    u = lunar(V, a, t, SKIP, None)
    r = getattr(u.lunar, "get%s%s" % ("Next" if forward else "Prev", kind))(whole)
    V.check("there is one", r is not None)
    if r is None:
        return
    i = which(V, u, r.getSolar())
    ok = [j for j in range(31) if KINDS[kind](j)]
    V.check("of the kind asked for", i in ok)
    V.check("its name", r.getName() == NAMES[i % 24])
    if i not in ok:
        return
    k = ok.index(i)
    if forward:
        V.check("strictly after", not_(begun(u, i, not whole)))
        V.check("none in between", begun(u, ok[k - 1], not whole) if k else True)
    else:
        V.check("not after", begun(u, i, not whole))
        V.check("none in between", not_(begun(u, ok[k + 1], not whole)) if k + 1 < len(ok) else True)


def on_day(u, i):
    if not is_sym(u.a[1]):
        (o1, m1, d1), (o2, m2, d2) = WINDOW[i]
        if o2 * 12 + m2 < u.a[1] or o1 * 12 + m1 > u.a[1]:
            return False
    return eq(u.T.ymd(i), tuple(u.a))


def u_today(V):
    a, t = instant(V)
    u = lunar(V, a, t, SKIP, None)
    L = u.lunar
    g = V.choice("getter", ["getJieQi", "getJie", "getQi", "getCurrentJieQi", "getCurrentJie", "getCurrentQi"])
    r = getattr(L, g)()
    kind = KINDS[g.replace("get", "").replace("Current", "")]
    hit = [(i, on_day(u, i)) for i in range(31) if kind(i)]
    if g.startswith("getCurrent"):
        name = "" if r is None else r.getName()
        if r is not None:
            V.check("on the day itself", eq(ymd(r.getSolar()), a))
    else:
        name = r
    V.check("empty exactly on days without a term", iff(name == "", not_(or_(*[h for i, h in hit]))))
    for i, h in hit:
        V.check("the name of the day's term", implies(h, name == NAMES[i % 24]))


def u_table(V):
    a, t = instant(V, bymonth=False)
    u = lunar(V, a, t, SKIP, None)
    T = u.lunar.getJieQiTable()
    V.check("31 terms", len(T) == 31 and list(u.lunar.getJieQiList()) == list(KEYS))
    for i, k in enumerate(KEYS):
        x = T[k]
        V.check("each key holds its term", x is u.T(i) if V.symbolic else comps(x) == u.T.at(i))


def u_kind(V):
    i = V.choice("i", list(range(24)))
    j = V.choice("j", list(range(24)))
    x = V.lib.JieQi.JieQi(NAMES[i], None) if hasattr(V.lib.JieQi, "JieQi") else V.lib.JieQi(NAMES[i], None)
    V.check("节 or 气", and_(x.isJie() == (i % 2 == 0), x.isQi() == (i % 2 == 1)))
    x.setName(NAMES[j])
    V.check("name", x.getName() == NAMES[j])
    V.check("节 or 气 after renaming", and_(x.isJie() == (j % 2 == 0), x.isQi() == (j % 2 == 1)))


# --------------------------------------------------------------------------
def u_windows(V):
    """the contract of the term table, evaluated for every year"""
    y = V.int("year", 1, 9999)
    jd = V.lib.LunarYear.fromYear(y).getJieQiJulianDays()
    V.check("31 terms", len(jd) == 31)
    R = ref.terms(y)
    nxt = V.lib.LunarYear.fromYear(y + 1).getJieQiJulianDays()
    prev = None
    for i, x in enumerate(jd):
        s = V.lib.Solar.fromJulianDay(x)
        b = ymd(s)
        (o1, m1, d1), (o2, m2, d2) = WINDOW[i]
        V.check("within its window", (y + o1, m1, d1) <= b <= (y + o2, m2, d2))
        V.check("13 to 17 days after the one before", prev is None or 13 < x - prev < 17)
        j = jdn(*b)
        V.check("14 to 16 civil days after the one before", prev is None or 14 <= j - prevj <= 16)
        prevj = j
        V.check("as in the reference", abs(x - R[i]) < 2.0 / 86400)
        if i >= 24:
            V.check("the same in the next year's table", abs(x - nxt[i - 24]) < 1e-6)
        prev = x


def u_sun(V):
    """1600..2400: the sun's apparent longitude at the instant (Meeus, 0.01 degree) is the term's"""
    y = V.int("year", 1600, 2400)
    for i, j in enumerate(V.lib.LunarYear.fromYear(y).getJieQiJulianDays()):
        d = (astro.sun_longitude(j - 8 / 24 + astro.delta_t(y) / 86400) - (255 + 15 * i) + 180) % 360 - 180
        V.check("longitude of the sun", abs(d) < 0.013)


def years(a, b):
    return lambda tier: [{"year": y} for y in range(a, b + 1)]


ASSUMPTIONS = ("the windows of the 31 terms of a year (WINDOW in dv/lunarspec.py) are a contract of LunarYear.compute that is evaluated "
               "for every year 1..9999 here, not deduced from the series of ShouXingUtil",)
LEVEL = "proof"
UNITS = [
    Unit("near-term", u_near, ["Lunar.__getNearJieQi", "Lunar.getNextJie", "Lunar.getPrevJie", "Lunar.getNextQi", "Lunar.getPrevQi",
                               "Lunar.getNextJieQi", "Lunar.getPrevJieQi"], exact=False, samples=4000, opaque=True),
    Unit("term-of-the-day", u_today, ["Lunar.getJieQi", "Lunar.getJie", "Lunar.getQi", "Lunar.getCurrentJieQi", "Lunar.getCurrentJie",
                                      "Lunar.getCurrentQi"], exact=False, samples=4000, opaque=True),
    Unit("table", u_table, ["Lunar.__computeJieQi", "Lunar.getJieQiTable", "Lunar.getJieQiList"], exact=False, samples=300, opaque=True),
    Unit("kind", u_kind, ["JieQi.setName"], samples=200),
    Unit("windows", u_windows, ["LunarYear.compute", "ShouXingUtil.qiAccurate2"], prove=False, sweep=years(1, 9999), over="every year 1..9999"),
    Unit("sun", u_sun, ["ShouXingUtil.qiAccurate2"], prove=False, sweep=years(1600, 2400), over="every year 1600..2400"),
]
