"""Contracts of the basic functions: used as proof units (props/*) and, once proved, as
stubs which stand for the call at the call site (precondition checked, postcondition
assumed)."""
import itertools
from fractions import Fraction
import z3
from .spec import *
from .sym import SymInt, SymBool, SymFloat, SymStr, cur, zint, zbool
from .engine import LoopSpec
from . import sym


# --------------------------------------------------------------------------
# loop invariants over civil dates

def _ints(env):
    return [n for n, v in env.items() if n != "self" and isinstance(v, (int, SymInt)) and not isinstance(v, bool)
            and not n.startswith("dv_r")]


def _triples(env, pref):
    names = _ints(env)
    for t in pref:
        if all(n in names for n in t):
            return [t]
    return list(itertools.permutations(names, len(pref[0])))[:400]


def month_first(y, m):
    """JDN of the first day of a month"""
    return jan1(y) + ite_table(CUM, m - 1) + ite(and_(m > 2, leap(y)), 1, 0) - ite(
        or_(and_(y == 1582, m > 10)), 10, 0)


def _mk(name, *vs):
    return name + "(" + ",".join(vs) + ")"


def cand_ymd(env):
    """candidates for loops that move a (year, month, day) triple month by month"""
    out = []
    trip = _triples(env, [("y", "m", "d")])
    ints = _ints(env)
    for y, m, d in trip:
        if any(not isinstance(env[v], (int, SymInt)) for v in (y, m, d)):
            continue
        c0 = month_first(env[y], env[m]) + env[d]
        out.append((_mk("ordinal", y, m, d), lambda e, y=y, m=m, d=d, c0=c0: month_first(e[y], e[m]) + e[d] == c0))
        out.append((_mk("day>=1", d), lambda e, d=d: e[d] >= 1))
        for n in ints:
            if n in (y, m, d):
                continue
            out.append((_mk("len", n, y, m), lambda e, n=n, y=y, m=m: e[n] == month_len(e[y], e[m])))
            out.append((_mk("upto", d, n, y, m), lambda e, n=n, y=y, m=m, d=d: e[d] + e[n] <= month_len(e[y], e[m])))
            out.append((_mk("ord+", y, m, d, n), lambda e, n=n, y=y, m=m, d=d, c=c0 + env[n]:
                        month_first(e[y], e[m]) + e[d] + e[n] == c))
    for m in sorted({t[1] for t in trip}):
        out.append((_mk("month", m), lambda e, m=m: and_(e[m] >= 1, e[m] <= 12)))
    for v in ints:
        out.append((_mk("const", v), lambda e, v=v, c=env[v]: e[v] == c))
        out.append((_mk("up", v), lambda e, v=v, c=env[v]: e[v] >= c))
        out.append((_mk("down", v), lambda e, v=v, c=env[v]: e[v] <= c))
    return out


def var_ymd(env):
    out = []
    ints = _ints(env)
    for v in ints:
        out.append((v, lambda e, v=v: e[v]))
        out.append(("-" + v, lambda e, v=v: -e[v]))
    for a, b in itertools.combinations(ints, 2):
        out.append(("-(%s+%s)" % (a, b), lambda e, a=a, b=b: -(e[a] + e[b])))
        out.append(("%s+%s" % (a, b), lambda e, a=a, b=b: e[a] + e[b]))
    for a, b in itertools.permutations(ints, 2):
        out.append(("%s-%s" % (a, b), lambda e, a=a, b=b: e[a] - e[b]))
    return out


def cand_years(env):
    """candidates for loops that add up the lengths of years: acc - jan1(i) is constant"""
    out = []
    ints = _ints(env)
    for a, i in itertools.permutations(ints, 2):
        c = env[a] - jan1(env[i])
        out.append((_mk("sum", a, i), lambda e, a=a, i=i, c=c: e[a] - jan1(e[i]) == c))
        c2 = env[a] + jan1(env[i])
        out.append((_mk("sum-", a, i), lambda e, a=a, i=i, c2=c2: e[a] + jan1(e[i]) == c2))
        out.append((_mk("le", a, i), lambda e, a=a, i=i: e[a] <= e[i]))
    for r in [n for n in env if n.startswith("dv_r")]:
        pass
    for v in ints:
        out.append((_mk("const", v), lambda e, v=v, c=env[v]: e[v] == c))
        out.append((_mk("up", v), lambda e, v=v, c=env[v]: e[v] >= c))
    return out


LOOP_YMD = LoopSpec(cand_ymd, var_ymd)
LOOP_YEARS = LoopSpec(cand_years, lambda env: [])


# --------------------------------------------------------------------------
# stubs: the contract stands for the call

def fstub(get, name, pre, val, method=False, label=None, deps=()):
    """callee contract  {pre} result := val(args)"""
    lab = label or name

    def install(V, pat):
        cls = get(V.lib)

        def f(*a, **k):
            if k:
                raise Unsupported("keyword arguments at a call of %s" % lab)
            V.p.check("precondition of %s holds at the call" % lab, pre(*a))
            return val(V, *a)
        pat.set(cls, name, f if method else staticmethod(f))
    install.deps = tuple(d.split("/") for d in deps)
    install.deps = tuple(tuple(d) for d in install.deps)
    return install


_SU = lambda L: L.util.SolarUtil
_SOLAR = lambda L: L.Solar

ST_DAYS_IN_YEAR = fstub(_SU, "getDaysInYear", valid_date, lambda V, y, m, d: doy(y, m, d), label="SolarUtil.getDaysInYear", deps=("c01/day-of-year",))
ST_DAYS_OF_YEAR = fstub(_SU, "getDaysOfYear", lambda y: True, lambda V, y: year_len(y), label="SolarUtil.getDaysOfYear", deps=("c01/month-year-length",))
ST_DAYS_OF_MONTH = fstub(_SU, "getDaysOfMonth", lambda y, m: and_(m >= 1, m <= 12), lambda V, y, m: month_len(y, m),
                         label="SolarUtil.getDaysOfMonth", deps=("c01/month-year-length",))
ST_DAYS_BETWEEN = fstub(_SU, "getDaysBetween", lambda a, b, c, d, e, f: and_(valid_date(a, b, c), valid_date(d, e, f)),
                        lambda V, a, b, c, d, e, f: jdn(d, e, f) - jdn(a, b, c), label="SolarUtil.getDaysBetween", deps=("c01/days-between",))
ST_SUBTRACT = fstub(_SOLAR, "subtract", lambda s, o: and_(valid_date(*ymd(s)), valid_date(*ymd(o))),
                    lambda V, s, o: jdn_of(s) - jdn_of(o), method=True, label="Solar.subtract", deps=("c01/subtract",))
ST_WEEK = fstub(_SOLAR, "getWeek", lambda s: valid_date(*ymd(s)), lambda V, s: (jdn_of(s) + 1) % 7, method=True,
                label="Solar.getWeek", deps=("c03/weekday",))


def _next(V, s, n, *rest):
    if rest and rest[0]:
        raise Unsupported("next over working days")
    p = V.p
    if not is_sym(n) and n == 0:
        return V.lib.Solar.fromYmdHms(*comps(s))
    lo, hi = p.interval(n)
    if lo is not None and hi is not None and -21 <= lo and hi <= 21:
        j = jdn_of(s) + n
        t = [SymInt(p.name_int(v.e, "next")) if is_sym(v) else v for v in shift(*(ymd(s) + (n,)))]
        r = V.lib.Solar.fromYmdHms(*(tuple(t) + comps(s)[3:]))
        r.__dict__["dv_jdn"] = j
        return r
    sy = s.getYear()
    y, m, d = fresh_date(p, "next", None, None)
    if lo is not None and hi is not None:
        p.assume(and_(y >= sy - int(-lo // 350 + 1), y <= sy + int(hi // 350 + 1)))
        a, b = p.interval(sy)
        if a is not None and b is not None:
            p.ranges[y.e.decl().name()] = (a - int(-lo // 350 + 1), b + int(hi // 350 + 1))
    j = jdn_of(s) + n
    p.assume(jdn(y, m, d) == j)
    r = V.lib.Solar.fromYmdHms(y, m, d, *comps(s)[3:])
    r.__dict__["dv_jdn"] = j                   # ghost: its Julian day number
    return r


ST_NEXT = fstub(_SOLAR, "next", lambda s, n, *r: valid_date(*ymd(s)), _next, method=True, label="Solar.next", deps=("c01/next-day", "c01/lemma-shift"))
ST_NEXT_DAY = fstub(_SOLAR, "nextDay", lambda s, n, *r: valid_date(*ymd(s)), _next, method=True, label="Solar.nextDay", deps=("c01/next-day",))


# ---- Julian days (C02): within JD_EPS of the exact value, exact at noon and midnight
JD_EPS = Fraction(1, 10 ** 7)


def _get_jd(V, s):
    sod = sec_of_day(*comps(s)[3:])
    t = jdn_of(s) * 86400 - 43200 + sod
    return SymFloat(zint(t), 86400, JD_EPS, zbool(sod % 43200 == 0), Fraction(2 ** 23))


def _from_jd(V, x):
    x = SymFloat.of(x)
    p = V.p
    d = fresh_date(p, "jd")
    t = tuple(SymInt(p.fresh_int("jd_t", 0, n)) for n in (23, 59, 59))
    e = SymInt(x.k) * 86400 - (jdn(*d) * 86400 - 43200 + sec_of_day(*t)) * x.den
    lim = ((Fraction(1, 2) + x.err * 86400) * x.den).__floor__()
    p.assume(and_(e <= lim, -e <= lim))
    return mk_solar(V, *(d + t))


ST_GET_JD = fstub(lambda L: L.Solar, "getJulianDay", lambda s: and_(valid_date(*ymd(s)), valid_time(*comps(s)[3:])), _get_jd,
                  method=True, label="Solar.getJulianDay", deps=("c02/julian-day-value", "c02/noon-is-whole"))
ST_FROM_JD = fstub(lambda L: L.Solar, "fromJulianDay", lambda x: True, _from_jd, label="Solar.fromJulianDay", deps=("c02/from-any-julian-day",))


# ---- lemma c01/lemma-one-date, used where day numbers are opaque
def ordered(V, a, b):
    """assume, for these two dates, that day numbers order them as their components do"""
    p = V.p
    ja, jb = jdn(*a), jdn(*b)
    p.assume(sym.iff(lex_lt(a, b), ja < jb))
    p.assume(sym.iff(and_(*[x == y for x, y in zip(a, b)]), ja == jb))


def next_ordered(V, s, n):
    """contract of Solar.nextDay; its result is ordered against the dates of V.days"""
    if not is_sym(n) and n == 0:
        r = V.lib.Solar.fromYmdHms(*comps(s))
        r.__dict__["dv_jdn"] = jdn_of(s)
        return r
    p = V.p
    d = fresh_date(p, "next", None, None)
    sy = s.getYear()
    p.assume(and_(d[0] >= sy - 1, d[0] <= sy + 1))
    lo, hi = p.interval(sy)
    if lo is not None:
        p.ranges[d[0].e.decl().name()] = (lo - 1, hi + 1)
    p.assume(jdn(*d) == jdn_of(s) + n)
    for x in V.days:
        ordered(V, d, x)
    r = V.lib.Solar.fromYmdHms(*(d + comps(s)[3:]))
    r.__dict__["dv_jdn"] = jdn(*d)
    return r


def _small(s, n, *r):
    """the year changes by one at most"""
    return and_(valid_date(*ymd(s)), n >= -355, n <= 355)


ST_NEXT_ORDERED = [fstub(_SOLAR, nm, _small, lambda V, s, n, *r: next_ordered(V, s, n), method=True, label="Solar." + nm,
                         deps=("c01/next-day", "c01/lemma-one-date")) for nm in ("next", "nextDay")]
