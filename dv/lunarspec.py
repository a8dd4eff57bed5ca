"""Abstract lunar years: the contract of LunarYear (solar-term windows, month table) stands for
its astronomical tables, and Lunar objects are built from it by the real constructor.

The contract is discharged in C08 and C10 by evaluating the real LunarYear for every year."""
import ast
import inspect
import textwrap
from .spec import *
from .contracts import *
from .contracts import _get_jd
from . import sym
from .sym import SymInt, SymFloat, zint
import z3

KEYS = ("DA_XUE", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑",
        "大暑", "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪", "DONG_ZHI", "XIAO_HAN", "DA_HAN",
        "LI_CHUN", "YU_SHUI", "JING_ZHE")
NAMES = ("大雪", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑",
         "大暑", "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪")
GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
LI_CHUN = 4
LMAX = 9998            # the terms of the year 10000 have five-digit years, which the library compares as text

# term i of the table of a year falls between these dates (year offset, month, day)
WINDOW = (
    ((-1, 11, 27), (-1, 12, 9)), ((-1, 12, 11), (-1, 12, 23)), ((-1, 12, 26), (0, 1, 7)), ((0, 1, 10), (0, 1, 22)),
    ((0, 1, 25), (0, 2, 6)), ((0, 2, 9), (0, 2, 21)), ((0, 2, 23), (0, 3, 8)), ((0, 3, 10), (0, 3, 23)),
    ((0, 3, 26), (0, 4, 8)), ((0, 4, 10), (0, 4, 23)), ((0, 4, 25), (0, 5, 9)), ((0, 5, 11), (0, 5, 25)),
    ((0, 5, 27), (0, 6, 9)), ((0, 6, 11), (0, 6, 25)), ((0, 6, 27), (0, 7, 11)), ((0, 7, 13), (0, 7, 26)),
    ((0, 7, 29), (0, 8, 11)), ((0, 8, 13), (0, 8, 26)), ((0, 8, 28), (0, 9, 11)), ((0, 9, 13), (0, 9, 26)),
    ((0, 9, 28), (0, 10, 11)), ((0, 10, 13), (0, 10, 25)), ((0, 10, 28), (0, 11, 9)), ((0, 11, 12), (0, 11, 24)),
    ((0, 11, 27), (0, 12, 9)), ((0, 12, 11), (0, 12, 23)), ((0, 12, 26), (1, 1, 7)), ((1, 1, 10), (1, 1, 22)),
    ((1, 1, 25), (1, 2, 6)), ((1, 2, 9), (1, 2, 21)), ((1, 2, 23), (1, 3, 8)))


class JDH:
    """an entry of LunarYear.getJieQiJulianDays()"""
    def __init__(self, year, i):
        self.year, self.i = year, i

    def __repr__(self):
        return "<julian day of term %d>" % self.i


def simp(x):
    """the same number, its symbolic terms simplified"""
    if not is_sym(x):
        return x
    e = z3.simplify(x.e, som=True)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


class JDM:
    """an integral Julian day"""
    def __init__(self, k):
        self.k = k

    def __add__(self, n):
        return JDM(self.k + n)
    __radd__ = __add__

    def __sub__(self, n):
        return JDM(self.k - n)


def solar_of(V, *c):
    """a Solar with these components, known to be valid: by the constructor's contract (C05) it carries exactly
    the components given, so the fields of a real one are filled in and no path is divided by its range checks"""
    S = V.lib.Solar
    w = (2003, 4, 5, 6, 7, 8)
    x = S(*w)
    d = vars(x)
    if sorted(map(repr, d.values())) != sorted(map(repr, w)):
        return S.fromYmdHms(*c)
    for k, v in list(d.items()):
        d[k] = c[w.index(v)]
    return x


class Lazy:
    """a Solar made when it is first looked at"""
    def __init__(self, make):
        self.__dict__["dv_make"] = make

    def dv_get(self):
        d = self.__dict__
        if "dv_s" not in d:
            d["dv_s"] = d["dv_make"]()
        return d["dv_s"]

    def __getattr__(self, n):
        return getattr(self.dv_get(), n)

    def __setattr__(self, n, v):
        setattr(self.dv_get(), n, v)


def term_instant(V, year, i, tag=""):
    """fresh instant within the window of term i"""
    p = V.p
    (o1, m1, d1), (o2, m2, d2) = WINDOW[i]
    n = "%sterm%d" % (tag, i)
    if m1 == m2:
        y, m = year + o1, m1
        d = V.int(n + ".d", d1, d2)
        if m == 10:
            V.assume(or_(year != 1582, d >= 15))
    else:
        late = V.bool(n + ".late")
        d = V.int(n + ".d", 1, 31)
        if m1 == 2:
            end = ite(leap(year + o1), 29, 28)
        else:
            end = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m1 - 1]
        V.assume(ite(late, d <= d2, and_(d >= d1, d <= end)))
        if m2 == 10:
            V.assume(or_(year != 1582, not_(late), d <= 4))
        m = ite(late, m2, m1)
        y = year + o1 if o1 == o2 else ite(late, year + o2, year + o1)
        m = SymInt(p.name_int(m.e, n + ".m"))
    h, mi, s = V.int(n + ".h", 0, 23), V.int(n + ".mi", 0, 59), V.int(n + ".s", 0, 59)
    return solar_of(V, y, m, d, h, mi, s)


class Terms:
    """the 31 instants of the table of one year"""
    def __init__(self, V, year, tag=""):
        self.V, self.year, self.tag = V, year, tag
        self.made = {}
        if not V.symbolic:
            self.jd = V.lib.LunarYear.fromYear(year).getJieQiJulianDays()

    def __call__(self, i):
        if i not in self.made:
            if self.V.symbolic:
                self.made[i] = Lazy(lambda: term_instant(self.V, self.year, i, self.tag))
            else:
                self.made[i] = self.V.lib.Solar.fromJulianDay(self.jd[i])
        return self.made[i]

    def ymd(self, i):
        return ymd(self(i))

    def at(self, i):
        return comps(self(i))


class LU:
    pass


def lt(a, b):
    return lex_lt(a, b)


def le(a, b):
    return not_(lex_lt(b, a))


def nth_term(V, T, key):
    pass


def draw_instant(V, rng, ymin, ymax):
    """an instant near something the lunar calendar turns on"""
    z = rng.random()
    a = draw_date(rng, ymin, ymax)
    t = (rng.choice((0, 0, 1, 12, 22, 23, 23, rng.randint(0, 23))), rng.choice((0, 59, rng.randint(0, 59))),
         rng.choice((0, 59, rng.randint(0, 59))))
    S = V.lib.Solar
    try:
        if z < 0.4:
            s = S.fromJulianDay(V.lib.LunarYear.fromYear(a[0]).getJieQiJulianDays()[rng.choice((rng.randint(0, 30), 4, 28, 1, 25, 13, 16, 8))])
            k = rng.random()
            a = ymd(s)
            if k < 0.3:
                t = comps(s)[3:]
            elif k < 0.5:
                x = sec_of_day(*comps(s)[3:]) + rng.choice((-1, 1))
                if 0 <= x < 86400:
                    t = (x // 3600, x // 60 % 60, x % 60)
            elif k < 0.8:
                a = from_jdn(jdn(*a) + rng.choice((-1, 1, rng.randint(-12, 12))))
        elif z < 0.6:
            ms = V.lib.LunarYear.fromYear(a[0]).getMonths()
            m = rng.choice(ms[1:14])
            a = from_jdn(int(m.getFirstJulianDay()) + rng.choice((-1, 0, 0, 1, 14, m.getDayCount() - 1, rng.randint(0, 29))))
        elif z < 0.64 and ymin <= 15:
            a = rng.choice(((15, 12, 30), (15, 12, 31), (15, 12, 29), (18, 12, 27), (18, 12, 30), (18, 12, 31), (19, 1, 1), (16, 1, 1),
                            (8, 12, 15), (9, 1, 10), (23, 12, 20), (237, 3, 28), (239, 12, 28)))
    except Exception:
        pass
    if not (ymin <= a[0] <= ymax):
        a = draw_date(rng, ymin, ymax)
    return tuple(a), tuple(t)


def instant(V, ymin=YMIN, ymax=LMAX, bymonth=True, time=True):
    """(date, time of day)"""
    if V.symbolic:
        a = date_by_month(V, "", ymin, ymax) if bymonth else date(V, "", ymin, ymax)
        t = time_(V) if time else (0, 0, 0)
        return a, t
    a, t = draw_instant(V, V.rng, ymin, ymax) if V.rng is not None else ((ymin, 1, 1), (0, 0, 0))
    y = V.int("y", ymin, ymax, lambda r: a[0])
    m = V.int("m", 1, 12, lambda r: a[1])
    d = V.int("d", 1, 31, lambda r: a[2])
    V.assume(valid_date(y, m, d))
    if time:
        t = tuple(V.int(n, 0, hi, lambda r, v=v: v) for n, hi, v in zip(("hour", "minute", "second"), (23, 59, 59), t))
    else:
        t = (0, 0, 0)
    return (y, m, d), t


def lunar(V, a, t, skip=(), offsets=(0, 1), month=None, day=None):
    """the Lunar of the civil instant (a, t): in proofs made by the real constructor from an abstract lunar year,
    else Solar.getLunar() of the real one"""
    u = LU()
    u.a, u.t, u.sy = a, t, a[0]
    lib = V.lib
    if not V.symbolic:
        u.T = Terms(V, a[0])
        u.lunar = mk_solar(V, *(tuple(a) + tuple(t))).getLunar()
        u.ly, u.lm, u.ld = u.lunar.getYear(), u.lunar.getMonth(), u.lunar.getDay()
        if offsets is not None and a[0] - u.ly not in offsets:
            V.assume(False)
        u.count = None
        return u
    if offsets is None:                       # the unit does not turn on the lunar year
        u.off = off = V.int("off", -1, 1)
    else:
        off = V.choice("sy-ly", list(offsets))
    # lunar new year falls between mid-December and the end of February
    if is_sym(off):
        pass
    elif off == 1:
        V.assume(a[1] <= 3)
    elif off == -1:
        V.assume(and_(a[1] == 12, a[2] >= 26, or_(a[0] == 15, a[0] == 18)))
    u.ly = a[0] - off
    u.lm = month if month is not None else V.int("lm", -12, 12)
    if month is None:
        V.assume(u.lm != 0)
    u.count = V.int("count", 29, 30)
    u.ld = day if day is not None else V.int("ld", 1, 30)
    V.assume(u.ld <= u.count)
    u.T = Terms(V, a[0])
    install(V, u, skip)
    u.lunar = lib.Lunar.fromYmdHms(u.ly, u.lm, u.ld, *t)
    return u


def install(V, u, skip=()):
    """LunarYear.fromYear and Solar.fromJulianDay by contract"""
    lib = V.lib
    pat = V.pat
    first = jdn(*u.a) - u.ld + 1
    noon = solar_of(V, u.a[0], u.a[1], u.a[2], 12, 0, 0)
    LYc = lib.LunarYear
    other = {}

    class AbstractLunarYear(LYc):
        def compute(self):
            pass

        def getMonth(self, lm):
            if V.p.prove((self.getYear() == u.ly) & (lm == u.lm) if is_sym(self.getYear()) or is_sym(lm) or is_sym(u.ly) or is_sym(u.lm)
                         else self.getYear() == u.ly and lm == u.lm)[0] != "proved":
                raise Unsupported("another month of the abstract lunar year")
            return lib.LunarMonth(u.ly, u.lm, u.count, JDM(first), 1)

        def getMonths(self):
            raise Unsupported("months of the abstract lunar year")

        def getJieQiJulianDays(self):
            return [JDH(self.getYear(), i) for i in range(31)]

    def from_jd(x):
        if isinstance(x, JDH):
            same = V.p.prove(x.year == u.sy)[0] == "proved" if is_sym(x.year) or is_sym(u.sy) else x.year == u.sy
            if same:
                return u.T(x.i)
            k = str(x.year)
            if k not in other:
                other[k] = Terms(V, x.year, "other%d." % len(other))
            return other[k](x.i)
        if isinstance(x, JDM):
            d = simp(x.k - jdn(*u.a))
            if is_sym(d):
                raise Unsupported("another Julian day of the abstract lunar year")
            return noon if d == 0 else noon.next(d)
        raise Unsupported("fromJulianDay of %r" % (x,))

    real = lib.Solar.fromYmdHms

    def from_ymdhms(*c):
        same = all((x is y) if is_sym(x) or is_sym(y) else x == y for x, y in zip(c, tuple(u.a) + tuple(u.t)))
        return solar_of(V, *c) if same and len(c) == 6 else real(*c)

    pat.set(lib.Solar, "fromYmdHms", staticmethod(from_ymdhms))
    pat.set(LYc, "fromYear", staticmethod(AbstractLunarYear))
    pat.set(lib.Solar, "fromJulianDay", staticmethod(from_jd))
    for n in skip:
        # a step of another name runs as it stands
        for m in computes(lib) if n == "__compute" else ["_Lunar" + n] if "_Lunar" + n in vars(lib.Lunar) else []:
            pat.set(lib.Lunar, m, lambda self, *a: None)


def computes(lib):
    """what the constructor calls, once its date stands, to fill in terms and pillars: no part of this property"""
    if "_Lunar__compute" in vars(lib.Lunar):
        return ["_Lunar__compute"]
    from .engine import lib_real
    tree = ast.parse(textwrap.dedent(inspect.getsource(lib_real().Lunar.__init__)))
    calls = [s.value.func.attr for s in ast.walk(tree) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
             and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "self"]
    return [n for n in ("_Lunar" + c if c.startswith("__") else c for c in calls) if n in vars(lib.Lunar)]


def idx60(g, z):
    """position in the sexagenary cycle of stem g and branch z (same parity)"""
    return (6 * g - 5 * z) % 60


def begun(u, i, exact):
    """has term i of the year of the instant begun (on the day, or at the instant)?"""
    if not is_sym(u.a[1]):
        # the windows decide most of them
        (o1, m1, d1), (o2, m2, d2) = WINDOW[i]
        if o2 * 12 + m2 < u.a[1]:
            return True
        if o1 * 12 + m1 > u.a[1]:
            return False
    if exact:
        return le(u.T.at(i), tuple(u.a) + tuple(u.t))
    return le(u.T.ymd(i), tuple(u.a))


def year_start(u, exact):
    """has the term year (立春) begun?"""
    return begun(u, LI_CHUN, exact)
