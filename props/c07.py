"""C07 civil and lunar dates correspond one to one"""
from dv.engine import Unit
from dv.lunarspec import *
from dv.lunarspec import JDM


class Tab:
    """the month table of a year by contract: 15 contiguous months of 28 to 30 days"""
    def __init__(self, V, year, first):
        self.V, self.year = V, year
        self.count = [V.int("count%d" % i, 28, 30) for i in range(15)]
        self.Y = [V.int("Y%d" % i, -1, 10001) for i in range(15)]
        self.M = [V.int("M%d" % i, -12, 12) for i in range(15)]
        self.first = [first]
        for c in self.count:
            self.first.append(self.first[-1] + c)

    def month(self, i):
        return self.V.lib.LunarMonth(self.Y[i], self.M[i], self.count[i], JDM(self.first[i]), i)


def install(V, tab, a):
    """LunarYear by contract: the month a label names is the same in every table"""
    lib, pat = V.lib, V.pat
    noon = mk_solar(V, a[0], a[1], a[2], 12, 0, 0)
    noon.__dict__["dv_jdn"] = jdn(*a)

    def same(x, y):
        return x is y or (is_sym(x) and is_sym(y) and x.e.eq(y.e)) or (not is_sym(x) and not is_sym(y) and x == y)

    class AbstractLunarYear(lib.LunarYear):
        def compute(self):
            pass

        def getMonths(self):
            if not same(self.getYear(), tab.year):
                raise Unsupported("months of another year")
            return [tab.month(i) for i in range(15)]

        def getMonth(self, lm):
            for i in range(15):
                if same(self.getYear(), tab.Y[i]) and same(lm, tab.M[i]):
                    return tab.month(i)
            raise Unsupported("another month of the abstract lunar year")

        def getJieQiJulianDays(self):
            return [JDH(self.getYear(), i) for i in range(31)]

    def from_jd(x):
        if isinstance(x, JDH):
            return Lazy(lambda: term_instant(V, x.year, x.i))
        if isinstance(x, JDM):
            d = simp(x.k - jdn(*a))
            if not is_sym(d):
                if d == 0:
                    return noon
            r = Lazy(lambda: None)
            r.__dict__["dv_jdn"] = x.k
            return r
        raise Unsupported("fromJulianDay of %r" % (x,))
    pat.set(lib.LunarYear, "fromYear", staticmethod(AbstractLunarYear))
    pat.set(lib.Solar, "fromJulianDay", staticmethod(from_jd))
    pat.set(lib.Solar, "subtract", lambda s, o: simp(jdn_of(s) - jdn_of(o)))
    for n in computes(lib):
        pat.set(lib.Lunar, n, lambda self, *r: None)


def u_from_solar(V):
    a, t = instant(V, ymax=YMAX, bymonth=False)
    if not V.symbolic:
        s = mk_solar(V, *(a + t))
        L = s.getLunar()
        V.check("back to the civil instant", eq(comps(L.getSolar()), a + t))
        m = V.lib.LunarMonth.fromYm(L.getYear(), L.getMonth())
        V.check("a month of the lunar year", m is not None)
        V.check("a day of the month", 1 <= L.getDay() <= m.getDayCount())
        V.check("the day's place in the month", int(m.getFirstJulianDay()) + L.getDay() - 1 == jdn(*a))
        M = V.lib.Lunar.fromYmdHms(L.getYear(), L.getMonth(), L.getDay(), *t)
        V.check("the lunar date names the civil one", eq(comps(M.getSolar()), a + t))
        return
    k = V.int("k", 0, 449)
    J = jdn(*a)
    tab = Tab(V, a[0], J - k)
    V.assume(k < sum(tab.count[1:], tab.count[0]))
    install(V, tab, a)
    L = mk_solar(V, *(a + t)).getLunar()
    V.check("back to the civil instant", eq(comps(L.getSolar()), a + t))
    y, m, d = L.getYear(), L.getMonth(), L.getDay()
    V.check("time of day kept", eq((L.getHour(), L.getMinute(), L.getSecond()), t))
    # the month that contains the day
    hit = [and_(k >= simp(f - tab.first[0]), k < simp(f - tab.first[0]) + c) for f, c in zip(tab.first, tab.count)]
    V.check("in exactly one month", bsum(hit) == 1)
    for i in range(15):
        V.check("that month", implies(hit[i], and_(y == tab.Y[i], m == tab.M[i], d == k - simp(tab.first[i] - tab.first[0]) + 1)))
    V.check("a day of the month", and_(d >= 1, d <= 30))


def u_from_lunar(V):
    """lunar -> civil -> lunar"""
    a, t = instant(V, ymax=YMAX, bymonth=False)
    if not V.symbolic:
        ms = V.lib.LunarYear.fromYear(a[0]).getMonthsInYear()
        i = V.int("i", 0, 13)
        V.assume(i < len(ms))
        m = ms[i]
        d = V.int("ld", 1, 30)
        V.assume(d <= m.getDayCount())
        L = V.lib.Lunar.fromYmdHms(a[0], m.getMonth(), d, *t)
        s = L.getSolar()
        V.check("the day's place in the month", jdn(*ymd(s)) == int(m.getFirstJulianDay()) + d - 1)
        V.check("time of day kept", eq(comps(s)[3:], t))
        b = s.getLunar()
        V.check("same lunar date", eq((b.getYear(), b.getMonth(), b.getDay()), (a[0], m.getMonth(), d)))
        return
    i = V.choice("i", list(range(15)))
    d = V.int("ld", 1, 30)
    J = jdn(*a)
    k = V.int("k", 0, 449)
    tab = Tab(V, a[0], J - k)
    V.assume(d <= tab.count[i])
    V.assume(k == simp(tab.first[i] - tab.first[0]) + d - 1)
    tab.first = [simp(f - tab.first[i] + J - d + 1) for f in tab.first]
    install(V, tab, a)
    L = V.lib.Lunar.fromYmdHms(tab.Y[i], tab.M[i], d, *t)
    s = L.getSolar()
    V.check("civil date", eq(comps(s), a + t))
    V.check("time of day kept", eq((L.getHour(), L.getMinute(), L.getSecond()), t))
    b = s.getLunar()
    V.check("same lunar date", eq((b.getYear(), b.getMonth(), b.getDay()), (tab.Y[i], tab.M[i], d)))


def u_reject(V):
    """lunar dates that do not exist are refused"""
    a, t = instant(V, ymax=YMAX, bymonth=False)
    d = V.int("ld", -5, 40)
    if not V.symbolic:
        ms = V.lib.LunarYear.fromYear(a[0]).getMonthsInYear()
        lm = V.int("lm", -14, 14)
        m = [x for x in ms if x.getMonth() == lm]
        r = V.call(V.lib.Lunar.fromYmdHms, a[0], lm, d, *t)
        V.check("refused exactly when there is no such month or day",
                V.raised(r) == (not m or not 1 <= d <= m[0].getDayCount()))
        return
    tab = Tab(V, a[0], jdn(*a) - d + 1)
    install(V, tab, a)
    V.pat.set(V.lib.LunarYear, "fromYear", staticmethod(_none_or(V, tab, a)))
    r = V.call(V.lib.Lunar.fromYmdHms, tab.Y[0], tab.M[0], d, *t)
    V.check("refused exactly when there is no such month or day",
            iff(V.raised(r), or_(V.no_month, d < 1, d > tab.count[0])))


def _none_or(V, tab, a):
    old = V.lib.LunarYear.__dict__["fromYear"].__func__
    V.no_month = V.bool("no such month")

    def f(y):
        ly = old(y)
        g = ly.getMonth
        ly.getMonth = lambda lm: None if V.fork(V.no_month) else g(lm)
        return ly
    return f


def u_next(V):
    """days on the lunar side are days on the civil side"""
    a, t = instant(V, bymonth=False)
    n = V.int("n", -4000, 4000)
    V.assume(and_(a[0] >= 13, a[0] <= LMAX - 12))
    if not V.symbolic:
        L = mk_solar(V, *(a + t)).getLunar()
        r = L.next(n)
        V.check("n days on", jdn(*ymd(r.getSolar())) == jdn(*a) + n)
        V.check("time of day kept", eq(comps(r.getSolar())[3:], t))
        back = r.next(-n)
        V.check("and back", eq((back.getYear(), back.getMonth(), back.getDay()), (L.getYear(), L.getMonth(), L.getDay())))
        return
    L = lunar(V, a, t, ("__compute",), None).lunar
    V.pat.set(V.lib.Solar, "getLunar", lambda s: s)
    r = L.next(n)
    V.check("n days on", jdn_of(r) == jdn(*a) + n)
    V.check("time of day kept", eq(comps(r)[3:], t))


UNITS = [
    Unit("from-solar", u_from_solar, ["Lunar.fromSolar", "Lunar.__init__"], exact=False, samples=6000, opaque=True),
    Unit("from-lunar", u_from_lunar, ["Lunar.__init__", "Lunar.fromSolar"], exact=False, samples=6000, opaque=True),
    Unit("reject", u_reject, ["Lunar.__init__"], exact=False, samples=1000, opaque=True),
    Unit("next", u_next, ["Lunar.next"], stubs=[ST_NEXT], exact=False, samples=2000, opaque=True),
]
