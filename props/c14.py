"""C14 from the eight characters back to instants"""
import sys
from contextlib import contextmanager
from dv.engine import Unit, LoopSpec, GhostList
from dv.contracts import *
from dv.sym import TabStr, SymInt, Unsupported
from dv.lunarspec import *
from dv.pillars import JZ

BUDGET = 480
S2 = 86400


def shift_s(s, n):
    """the instant n seconds later"""
    c = comps(s) if not isinstance(s, tuple) else s
    j, t = divmod(jdn(*c[:3]) * S2 + sec_of_day(*c[3:]) + n, S2)
    return tuple(from_jdn(j)) + (t // 3600, t // 60 % 60, t % 60)


def at(c):
    return jdn(*c[:3]) * S2 + sec_of_day(*c[3:])


def span(c, sect):
    """first and last second of the double hour (midnight parts the 子 hour when the day changes there)"""
    h = c[3]
    x = at(c) - sec_of_day(*c[3:])
    if sect == 2 and h in (0, 23):
        return x + h * 3600, x + h * 3600 + 3599
    a = x + ((h + 1) // 2 * 2 - 1) * 3600
    return a, a + 7199


@contextmanager
def clock(V, year):
    """the library searches up to the present year: say which year that is"""
    m = sys.modules[V.lib.Solar.__module__]
    old = getattr(m, "datetime", None)

    class Now:
        @staticmethod
        def now(*a):
            return Now

        @staticmethod
        def today(*a):
            return Now
    Now.year = year
    if old is not None:
        m.datetime = Now
    try:
        yield
    finally:
        if old is not None:
            m.datetime = old


def pillars_of(V, c, sect):
    e = mk_solar(V, *c).getLunar().getEightChar()
    e.setSect(sect)
    return e.getYear(), e.getMonth(), e.getDay(), e.getTime()


def found(V, c, sect, base):
    q = pillars_of(V, c, sect)
    R = V.lib.Solar.fromBaZi(*q, sect, base)
    lo, hi = span(c, sect)
    r = [comps(x) for x in R]
    V.check("an instant of the same double hour is found", any(lo <= at(x) <= hi for x in r))
    for x in r:
        V.check("what is found has the pillars", pillars_of(V, x, sect) == q)
    V.check("not before the year asked for", all(x[0] >= base for x in r))
    V.check("in order, none twice", all(at(x) < at(y) for x, y in zip(r, r[1:])))


def u_terms(V):
    """around each of the twelve 节 of a year and within its month"""
    around(V, V.int("year", 300, 9000), V.int("month", 0, 11))


def around(V, y, m):
    J = comps(V.lib.Solar.fromJulianDay(V.lib.LunarYear.fromYear(y).getJieQiJulianDays()[4 + 2 * m]))
    h = J[3] * 3600 + J[4] * 60 + J[5]
    a, b = span(J, 1)
    k = at(J)
    offs = {0, -1, a - k, b - k, a - k - 1, b - k + 1, -h, 82800 - h, 82799 - h, -h - 1, 86400 * ((y + m) % 29 + 1) + 3600 * ((y // 7) % 24),
            3600 * ((y + 5 * m) % 24) + 86400 * 14}
    for sect in (1, 2):
        for o in sorted(offs):
            with clock(V, y + 1):
                c = shift_s(J, o)
                found(V, c, sect, c[0])


def u_any(V):
    a, t = instant(V, ymin=200, ymax=2024)
    sect = V.choice("sect", [2, 1])
    back = V.int("years before", 0, 130)
    with clock(V, 2026):
        found(V, tuple(a) + tuple(t), sect, max(100, a[0] - back))


def u_default(V):
    """unless told otherwise: from 1900 on, the late 子 hour belongs to the day"""
    a, t = instant(V, ymin=1890, ymax=2024)
    q = pillars_of(V, tuple(a) + tuple(t), 2)
    with clock(V, 2026):
        r = [comps(x) for x in V.lib.Solar.fromBaZi(*q)]
        V.check("convention and first year", r == [comps(x) for x in V.lib.Solar.fromBaZi(*q, 2, 1900)])
        V.check("convention", r == [comps(x) for x in V.lib.Solar.fromBaZi(*q, 2)])


def u_mismatch(V):
    """pillars that do not belong together give nothing; arguments out of the search give nothing"""
    y, m = V.int("y", 0, 59), V.int("m", 0, 59)
    d, t = V.int("d", 0, 59), V.int("t", 0, 59)
    sect = V.choice("sect", [2, 1])
    with clock(V, 1985):
        R = V.lib.Solar.fromBaZi(JZ[y], JZ[m], JZ[d], JZ[t], sect, 1925)
    if (y % 5 * 2 + 2 + (m % 12 - 2) % 12) % 10 != m % 10:
        V.check("stem of the month against the year", R == [])
    for x in R:
        V.check("what is found has the pillars", pillars_of(V, comps(x), sect) == (JZ[y], JZ[m], JZ[d], JZ[t]))


def all_terms(tier):
    if tier == "quick":
        return [{"year": y, "month": (y * 5 + k) % 12} for y in range(1600, 2400) for k in range(1)] + \
               [{"year": y, "month": m} for y in range(1900, 2031, 5) for m in range(12)]
    return [{"year": y, "month": m} for y in range(1600, 2400) for m in range(12)]


# ---- the search, proved: one arbitrary year of it -------------------------------------------------------------
# Callee contracts: pillars of an instant (C11, C12), the table of terms (C10), day arithmetic (C01), find and
# getJiaZiIndex (units below).  The loop over the years is cut: the contract of one iteration says which instants it adds.

def _look(V, name, names, offset=0):
    if not isinstance(name, TabStr):
        return V.real["find"](name, names, offset)
    names = list(names)
    r = name.map(lambda x: names.index(x) + offset if x in names else -1)
    vals = sorted({names.index(x) + offset if x in names else -1 for x in name.table})
    if len(vals) <= 12:
        for v in [V.z + offset] + vals:
            if V.p.prove(r == v)[0] == "proved":
                return v
    return r


def _place(V, x):
    return x.map(JZ.index) if isinstance(x, TabStr) else V.real["place"](x)


class Only:
    """an object of which only some things are known"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        raise Unsupported("%s, which the contract does not give" % n)


def _year_table(V, y, m, d, *t):
    """Lunar.fromYmd(y, 1, 1): its table is that of the civil year y (unit first-day; C10 for the table)"""
    V.p.check("the first lunar day of a year", and_(m == 1, d == 1, y >= 20, y <= 9998))
    V.p.check("one year is looked at", y == V.year())
    return Only(getJieQiTable=lambda: Only(__getitem__=None))


class Table:
    def __init__(self, V):
        self.V = V

    def __getitem__(self, key):
        return self.V.term(list(self.V.lib.Lunar.JIE_QI_IN_USE).index(key))

    def get(self, key, default=None):
        return self[key]

    def __getattr__(self, n):
        raise Unsupported("%s of the table of terms" % n)


def _ids(c):
    return tuple(x if not is_sym(x) else ("e", x.e.get_id()) for x in c)


class Days:
    """day numbers of the dates met.  A date's number is a variable of its own; of how it follows from year, month and
    day only this is used: dates before the first of January of the base year have lesser numbers (c01/lemma-order)
    and Solar.next adds to it (c01/next-day).  For a date made otherwise all numbers are tied to the calendar."""

    def __init__(self, V, B):
        self.V, self.B, self.made, self.tied, self.keep = V, B, {}, False, []
        self.start = SymInt(V.p.fresh_int("start"))

    def put(self, c, j=None):
        p = self.V.p
        j = SymInt(p.fresh_int("j")) if j is None else j
        p.assume(iff(c[0] >= self.B, j >= self.start))
        self.made[_ids(c)] = (c, j)
        if self.tied:
            p.assume(jdn(*c) == j)
        return j

    def of(self, s):
        c = ymd(s)
        k = _ids(c)
        if k not in self.made:
            p = self.V.p
            if not self.tied:
                self.tied = True
                p.assume(jdn(self.B, 1, 1) == self.start)
                for c2, j in self.made.values():
                    p.assume(jdn(*c2) == j)
            ordered(self.V, c, (self.B, 1, 1))
            self.put(c, SymInt(p.name_int(jdn(*c).e, "j")))
        return self.made[k][1]


def day_of(s):
    return _now["V"].days14.of(s)


def _next14(V, s, n, *rest):
    if rest and rest[0]:
        raise Unsupported("next over working days")
    if not is_sym(n) and n == 0:
        return V.lib.Solar.fromYmdHms(*comps(s))
    d = fresh_date(V.p, "next", None, None)
    sy = s.getYear()
    V.p.assume(and_(d[0] >= sy - 1, d[0] <= sy + 1))
    V.days14.put(d, V.days14.of(s) + n)
    return V.lib.Solar.fromYmdHms(*(d + comps(s)[3:]))


ST_NEXT14 = [fstub(lambda L: L.Solar, nm, lambda s, n, *r: and_(valid_date(*ymd(s)), n >= -355, n <= 355), _next14, method=True,
                   label="Solar." + nm, deps=("c01/next-day", "c01/lemma-order")) for nm in ("next", "nextDay")]


def at_s(s):
    return day_of(s) * S2 + sec_of_day(*comps(s)[3:])


def _lunar_of(V, s):
    """pillars of an instant near the beginning of the month looked for"""
    V.p.check("an instant of the 61 days around the month", and_(day_of(V.S(1)) - 1 <= day_of(s), day_of(s) <= day_of(V.S(1)) + 60))
    c = comps(s)
    late = ite(c[3] == 23, 1, 0)
    dp, dx = V.day60(day_of(s)), V.day60(day_of(s) + late)
    x = at_s(s)

    def month():
        return ite(x < at_s(V.S(1)), -1, ite(x < at_s(V.S(2)), 0, ite(x < at_s(V.S(3)), 1, 2)))

    def hour():
        z = (c[3] + 1) // 2 % 12
        g = (dx % 5 * 2 + z) % 10
        return TabStr(JZ, (6 * g - 5 * z) % 60)
    return Only(getDayInGanZhiExact2=lambda: TabStr(JZ, dp), getDayInGanZhi=lambda: TabStr(JZ, dp), getDayInGanZhiExact=lambda: TabStr(JZ, dx),
                getTimeInGanZhi=hour, getSolar=lambda: s,
                getMonthInGanZhiExact=lambda: TabStr(JZ, (V.year() * 12 - 46 + V.m + month()) % 60),
                getYearInGanZhiExact=lambda: TabStr(JZ, (V.year() - 4 + ite(month() + V.m < 0, -1, ite(month() + V.m > 11, 1, 0))) % 60))


ST_FIND = fstub(lambda L: L.util.LunarUtil, "find", lambda *a: True, _look, label="LunarUtil.find", deps=("c14/find",))
ST_PLACE = fstub(lambda L: L.util.LunarUtil, "getJiaZiIndex", lambda *a: True, _place, label="LunarUtil.getJiaZiIndex", deps=("c14/find",))
ST_TABLE = fstub(lambda L: L.Lunar, "fromYmd", lambda *a: True, lambda V, *a: (_year_table(V, *a), Only(getJieQiTable=lambda: Table(V)))[1],
                 label="Lunar.fromYmd", deps=("c14/first-day",))
ST_LUNAR = fstub(lambda L: L.Solar, "getLunar", lambda *a: True, _lunar_of, method=True, label="Solar.getLunar",
                 deps=("c11/day-pillar", "c11/hour-pillar", "c12/year-pillar", "c12/month-pillar", "c19/names"))
_now = {}


def year_name(e, entry):
    """the variables that count the years of the cycle: they start at the year's pillar, at its first year or, years
    before the base year skipped, at the first that matters"""
    V = _now["V"]
    return [n for n, v in entry.items() if isinstance(v, (int, SymInt)) and not isinstance(v, bool) and (e is entry or e.get(n) is not v) and
            V.p.prove(and_(v >= 1, (v - 4 - V.Y) % 60 == 0, or_(v <= 60, v - 60 < V.B - 1)), timeout=2000)[0] == "proved"]


def cand_search(env):
    out = []
    for n in year_name(env, env):
        out.append(("cycle(%s)" % n, lambda e, n=n: (e[n] - 4 - _now["V"].Y) % 60 == 0))
        out.append(("first(%s)" % n, lambda e, n=n, c=env[n]: e[n] >= c))
        out.append(("most(%s)" % n, lambda e, n=n, c=env[n]: or_(e[n] <= _now["V"].N + 60, e[n] <= c)))
    return out


def on_iter(p, fr, after, lists):
    V = _now["V"]
    ys = V.ycount(fr, after)
    p.check("the years of the pillar are gone through", len(ys) > 0)
    p.check("one list is added to", len(lists) == 1)
    A = list(list(lists.values())[0])
    V.done(ys[0] if ys else None, A)


def u_search(V, m):
    """one year of the search adds, in order, one instant of each double hour of the month that has the pillars"""
    if not V.symbolic:
        n, Y, base = V.int("now", 1, 9998), V.int("Y", 0, 59), V.int("base", 21, 9998)
        V.assume(n >= 361)
        return around(V, min(n, 9000) - (min(n, 9000) - 4 - Y) % 60, m)
    z = 0 if V.choice("midnight", [True, False]) else V.int("z", 1, 11)
    V.z = z
    mid = not is_sym(z)
    sect = V.choice("sect", [2, 1])
    Y, D = V.int("Y", 0, 59), V.int("D", 0, 59)
    M, T = (m + 2) % 12 + 12 * V.int("M", 0, 4), z + 12 * V.int("T", 0, 4)
    B = V.int("base", 21, 9998)
    N = V.int("now", 1, 9998)
    lib, p = V.lib, V.p
    V.m, V.Y, V.N, V.B = m, Y, N, B
    V.days14 = Days(V, B)
    _now["V"] = V
    V.real = {"find": None, "place": None}
    state = {}

    def year():
        if "y" not in state:
            fr = list(p.frames.values())
            if len(fr) != 1:
                raise Unsupported("the loop over the years")
            ns = year_name(fr[0]["before"], fr[0]["entry"])
            if not ns:
                raise Unsupported("no variable counts the years")
            state["n"], state["y"] = ns, fr[0]["before"][ns[0]]
            state["T"] = Terms(V, state["y"])
        return state["y"]

    def term(i):
        year()
        if i not in state:
            s = state["T"](i)
            s.getYear()
            s = state[i] = s.dv_get()
            V.days14.put(ymd(s))
        return state[i]
    V.year, V.term = year, term

    def day60(j):
        """(j - 11) % 60 for a day up to 62 days around the month's first"""
        if "k" not in state:
            state["k"] = SymInt(p.fresh_int("k", 0, 59))
        x = state["k"] + (j - day_of(V.S(1)))
        return ite(x < 0, x + 60, ite(x < 60, x, ite(x < 120, x - 60, x - 120)))
    V.day60 = day60
    V.S = lambda k: term(2 + 2 * m + 2 * k)
    V.ycount = lambda fr, after: [n for n in year_name(fr["before"], fr["entry"]) if p.prove(after[n] == fr["before"][n] + 60, timeout=3000)[0] == "proved"]

    def done(n, A):
        y = year()
        s1, s2 = at_s(V.S(1)), at_s(V.S(2))
        n12, n23 = day_of(V.S(2)) - day_of(V.S(1)), day_of(V.S(3)) - day_of(V.S(2))
        p.assume(and_(n12 >= 28, n12 <= 32, n23 >= 28, n23 <= 32))            # c10/windows
        start = V.days14.start * S2
        for x in A:
            c = comps(x)
            t = at_s(x)
            p.check("within the month", and_(s1 <= t, t < s2))
            p.check("not before the base year", c[0] >= B)
            dx = V.day60(day_of(x) + ite(c[3] == 23, 1, 0))
            p.check("pillar of the day", (dx if sect == 1 else V.day60(day_of(x))) == D)
            p.check("double hour", (c[3] + 1) // 2 % 12 == z)
            p.check("stem of the hour", (dx % 5 * 2 + z) % 10 == T % 10)
        for a, b in zip(A, A[1:]):
            p.check("in order", at_s(a) < at_s(b))
        p.check("two at most", len(A) <= (2 if mid and sect == 2 else 1))
        if len(A) == 2:
            p.check("halves of the 子 hour", and_(comps(A[0])[3] == 0, comps(A[1])[3] == 23))
        # every double hour that has the pillars
        q = SymInt(p.fresh_int("q", -1, 34))
        J = day_of(V.S(1)) + q
        p.check("no other day meets the month", and_(s1 - S2 < day_of(V.S(1)) * S2 + 1, s2 < (day_of(V.S(1)) + 35) * S2 - 3600))
        if not mid:
            parts = [(J * S2 + (2 * z - 1) * 3600, J * S2 + (2 * z + 1) * 3600, D)]
        elif sect == 1:
            parts = [(J * S2 - 3600, J * S2 + 3600, D)]
        else:
            parts = [(J * S2, J * S2 + 3600, D), (J * S2 + 23 * 3600, (J + 1) * S2, D + 1)]
        for lo, hi, d in parts:
            lo2 = max_(max_(lo, s1), start)
            hi2 = min_(hi, s2)
            p.check("the double hour is found", implies(and_(V.day60(J) == D, (d % 5 * 2 + z) % 10 == T % 10, lo2 < hi2),
                                                        or_(False, *[and_(lo <= at_s(x), at_s(x) < hi) for x in A])))
    V.done = done
    p.now = Only(year=N)
    V.real = {"find": None, "place": None}
    r = lib.Solar.fromBaZi(TabStr(JZ, Y), TabStr(JZ, M), TabStr(JZ, D), TabStr(JZ, T), sect, B)
    if isinstance(r, GhostList):
        V.check("nothing more is added", len(r) == 0)
        y = year()
        V.check("up to the present year", y > N)
        V.check("stem of the month", (Y % 5 * 2 + 2 + m) % 10 == M % 10)
    else:
        V.check("nothing", len(r) == 0)
        V.check("pillars that do not belong together", or_((Y % 5 * 2 + 2 + m) % 10 != M % 10, False))


def u_first_day(V):
    """the first day of a lunar year lies in the civil year of the same number, whose table of terms it has"""
    y = V.int("year", 20, 9998)
    L = V.lib.Lunar.fromYmd(y, 1, 1)
    V.check("civil year", L.getSolar().getYear() == y)
    T = L.getJieQiTable()
    jd = V.lib.LunarYear.fromYear(y).getJieQiJulianDays()
    V.check("table", all(comps(T[n]) == comps(V.lib.Solar.fromJulianDay(jd[i])) for i, n in enumerate(V.lib.Lunar.JIE_QI_IN_USE)))


def u_find(V):
    """the place of a stem, a branch or a pillar"""
    LU = V.lib.util.LunarUtil
    for names in (LU.GAN, LU.ZHI):
        for x in names:
            if x:
                for off in (-1, 0, 1):
                    V.check("place of a stem or branch", LU.find(x, names, off) == list(names).index(x) + off)
        V.check("not there", LU.find("?", names, -1) == -1)
    for i, x in enumerate(JZ):
        V.check("place of a pillar", LU.getJiaZiIndex(x) == i)
    V.check("tables", list(LU.GAN[1:]) == list(GAN) and list(LU.ZHI[1:]) == list(ZHI))


UNITS = [
    Unit("find", u_find, ["LunarUtil.find", "LunarUtil.getJiaZiIndex"], samples=1),
    Unit("first-day", u_first_day, ["Lunar.fromYmd", "Lunar.getJieQiTable"], prove=False,
         sweep=lambda tier: [{"year": y} for y in range(20, 9999) if tier != "quick" or y % 6 == 2], over="lunar years 20..9998 (quick: each sixth)"),
] + [
    Unit("search-" + ZHI[(m + 2) % 12], lambda V, m=m: u_search(V, m), ["Solar.fromBaZi"],
         stubs=[ST_FIND, ST_PLACE, ST_TABLE, ST_LUNAR] + ST_NEXT14,
         loops=LoopSpec(cand_search, None, None, None, True, on_iter), opaque=True, max_seconds=400, weight=8) for m in range(12)
] + [
    Unit("around-terms", u_terms, ["Solar.fromBaZi"], prove=False, sweep=all_terms,
         over="the double hours around and within the month of each 节 of 1600..2399 (quick: one 节 of each year, all of every fifth year 1900..2030)"),
    Unit("any", u_any, ["Solar.fromBaZi"], prove=False, samples=1500),
    Unit("default", u_default, ["Solar.fromBaZi"], prove=False, samples=500),
    Unit("mismatch", u_mismatch, ["Solar.fromBaZi"], prove=False, samples=2000),
]
