"""C18 festivals and signs of the zodiac"""
import json
import os
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars as P

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "data", "festivals.json"), encoding="utf-8") as f:
    TABLE = json.load(f)
ALL = {}                     # kind -> names the tables know
for k_, v_ in TABLE.items():
    ALL[k_] = {n for x in v_.values() for n in ([x] if isinstance(x, str) else x)}
SIGNS = (("摩羯", 119), ("水瓶", 218), ("双鱼", 320), ("白羊", 419), ("金牛", 520), ("双子", 621), ("巨蟹", 722), ("狮子", 822),
         ("处女", 922), ("天秤", 1023), ("天蝎", 1122), ("射手", 1221), ("摩羯", 1231))


def known(got, names):
    return sorted(x for x in got if x in names)


def week_stub(V, pat):
    def f(s):
        V.p.check("precondition of Solar.getWeek holds at the call", valid_date(*ymd(s)))
        V.p.check("weekday of the day of the unit", and_(*[x == y for x, y in zip(ymd(s), V.day)]))
        return V.weekday
    pat.set(V.lib.Solar, "getWeek", f)
week_stub.deps = (("c03", "weekday"),)


def u_solar(V):
    """fixed days, n-th and last weekdays of a month; signs of the zodiac"""
    m = V.choice("month", list(range(1, 13)))
    d = V.choice("day", list(range(1, 32)))
    if (m, d) in ((2, 30), (2, 31), (4, 31), (6, 31), (9, 31), (11, 31)):
        V.assume(False)
    y = V.int("year", 1, 9999)
    V.assume(valid_date(y, m, d))
    w = (jdn(y, m, d) + 1) % 7
    if V.symbolic:
        V.day, V.weekday = (y, m, d), V.choice("weekday", list(range(7)))
        V.assume(w == V.weekday)
        w = V.weekday
    s = mk_solar(V, y, m, d)
    got = s.getFestivals()
    key = "%d-%d" % (m, d)
    V.check("fixed festival", known(got, ALL["solar"]) == sorted([TABLE["solar"][key]] if key in TABLE["solar"] else []))
    for k, name in TABLE["week"].items():
        fm, n, fw = (int(x) for x in k.split("-"))
        if fm != m or w != fw:
            on = False
        elif n == 0:
            on = d + 7 > month_len(y, m)
        else:
            on = 7 * n - 7 < d <= 7 * n
        V.check("weekday festival", iff(name in got, on))
    V.check("each once", len(set(got)) == len(got))
    got = s.getOtherFestivals()
    V.check("other festivals of the day", known(got, ALL["solar_other"]) == sorted(TABLE["solar_other"].get(key, [])))
    V.check("sign", s.getXingZuo() == [n for n, e in SIGNS if m * 100 + d <= e][0])


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


class Next:
    """contract of Lunar.next(1): only the year of the next day matters"""
    def __init__(self, year):
        self.year = year

    def getYear(self):
        return self.year


def u_lunar(V):
    """festivals of a lunar day; 除夕 is the last day of a year"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    d = V.choice("day", list(range(1, 31)))
    last = V.choice("last day of the year", [False, True])
    tpl = P.clone(V, "lunar", lambda: V.lib.Solar.fromYmdHms(2024, 2, 4, 12, 0, 0).getLunar())
    more = {k: v for k, v in vars(tpl).items() if isinstance(v, (V.lib.Solar, dict))}
    L = P.make(V, {}, _Lunar__year=2023, _Lunar__month=m, _Lunar__day=d, **more)
    tpl_next = V.lib.Lunar.next
    try:
        def nxt(self, n):
            if n != 1:
                raise Unsupported("another day")
            return Next(2024 if last else 2023)
        V.lib.Lunar.next = nxt
        got = L.getFestivals()
        other = L.getOtherFestivals()
    finally:
        V.lib.Lunar.next = tpl_next
    key = "%d-%d" % (m, d)
    V.check("festival of the lunar day", known(got, ALL["lunar"]) == sorted([TABLE["lunar"][key]] if key in TABLE["lunar"] else []))
    V.check("除夕", ("除夕" in got) == (last and abs(m) == 12 and d >= 29))
    V.check("each once", len(set(got)) == len(got))
    V.check("other festivals of the lunar day", known(other, ALL["lunar_other"]) == sorted(TABLE["lunar_other"].get(key, [])))


SKIP = ("__computeYear", "__computeMonth", "__computeDay", "__computeTime", "__computeWeek")


class Day:
    def __init__(self, j):
        self.j = j

    def getDayGanIndex(self):
        return (self.j + 9) % 10

    def getDayGan(self):
        return GAN[cur_int(self.getDayGanIndex())]


def cur_int(x):
    return x


def get_lunar(V, pat):
    """contract of Solar.getLunar().getDayGanIndex() (C11): the stem of the day"""
    pat.set(V.lib.Solar, "getLunar", lambda s: Day(jdn_of(s)))
get_lunar.deps = (("c11", "day-pillar"),)


def u_terms(V):
    """寒食 the day before 清明; 春社 and 秋社 the fifth 戊 day from 立春 and 立秋 on"""
    a, t = instant(V)
    V.days = [a]
    u = lunar(V, a, t, SKIP, None, month=6 if V.symbolic else None, day=7 if V.symbolic else None)
    got = u.lunar.getOtherFestivals()
    j = jdn(*a)

    def on(i):
        return jdn_of(u.T(i))
    V.check("寒食", iff("寒食节" in got, j == on(8) - 1))
    for name, i in (("春社", 4), ("秋社", 16)):
        n = j - on(i)
        V.check(name, iff(name in got, and_(n >= 40, n < 50, (j + 9) % 10 == 4)))
    V.check("each once", len(set(got)) == len(got))


def u_real(V):
    """the same on lunar days as the library makes them"""
    a, t = instant(V)
    if V.rng is not None and V.rng.random() < .3:
        L = mk_solar(V, a[0], 2, 10).getLunar()
        V.assume(L is not None)
    L = mk_solar(V, *(tuple(a) + tuple(t))).getLunar()
    y, m, d = L.getYear(), L.getMonth(), L.getDay()
    got, other = L.getFestivals(), L.getOtherFestivals()
    key = "%d-%d" % (m, d)
    V.check("festival of the lunar day", known(got, ALL["lunar"]) == sorted([TABLE["lunar"][key]] if key in TABLE["lunar"] else []))
    n = mk_solar(V, *from_jdn(jdn(*a) + 1)).getLunar().getYear()
    V.check("除夕", ("除夕" in got) == (n != y and abs(m) == 12 and d >= 29))
    V.check("other festivals of the lunar day", known(other, ALL["lunar_other"]) == sorted(TABLE["lunar_other"].get(key, [])))


UNITS = [
    Unit("solar", u_solar, ["Solar.getFestivals", "Solar.getOtherFestivals", "Solar.getXingZuo"], stubs=[week_stub], samples=3000, opaque=True),
    Unit("lunar", u_lunar, ["Lunar.getFestivals", "Lunar.getOtherFestivals"], samples=1500),
    Unit("by-terms", u_terms, ["Lunar.getOtherFestivals"], stubs=[get_lunar] + ST_NEXT_ORDERED, exact=False, samples=1500, opaque=True),
    Unit("real-days", u_real, ["Lunar.getFestivals", "Lunar.getOtherFestivals", "Lunar.next"], prove=False, samples=1500),
]
