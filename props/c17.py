"""C17 stepping over working days"""
from dv.engine import Unit, LoopSpec
from dv.spec import *
from dv.contracts import *
from dv import rt, sym
from dv.sym import SymInt, SymBool, is_sym, cur
import z3

W = z3.Function("dv_workdays", z3.IntSort(), z3.IntSort())     # working days up to and including a day
H = z3.Function("dv_holiday", z3.IntSort(), z3.IntSort())      # record of a day: 0 none, 1 work, 2 rest


def kind(j):
    return SymInt(H(zint(j)))


def work(j):
    k = kind(j)
    w = (j + 1) % 7
    return or_(k == 1, and_(k == 0, w != 0, w != 6))


def upto(p, j):
    """number of working days up to day j (from an arbitrary origin): grows by one on each working day"""
    e = SymInt(W(zint(j)))
    p.assume(SymInt(W(zint(j - 1))) == e - ite(work(j), 1, 0))
    return e


def get_holiday(V, pat):
    def f(y, m=0, d=0):
        if not is_sym(m) and m == 0 or not is_sym(d) and d == 0:
            y, m, d = [rt.b_int(rt.getitem(y, slice(*i))) for i in ((0, 4), (5, 7), (8, 10))]
        V.p.check("precondition of HolidayUtil.getHoliday holds at the call", valid_date(y, m, d))
        k = kind(jdn(y, m, d))
        V.p.assume(and_(k >= 0, k <= 2))
        if V.fork(k == 0):
            return None
        return V.lib.Holiday("2000-01-01", "", V.fork(k == 1), "2000-01-01")
    pat.set(V.lib.util.HolidayUtil, "getHoliday", staticmethod(f))
get_holiday.deps = ()


def next_day(V, s, n):
    p = V.p
    y, m, d = fresh_date(p, "next", None, None)
    p.assume(jdn(y, m, d) == jdn_of(s) + n)
    r = V.lib.Solar.fromYmdHms(y, m, d, *comps(s)[3:])
    r.__dict__["dv_jdn"] = jdn(y, m, d)
    return r


ST_NEXT1 = fstub(lambda L: L.Solar, "nextDay", lambda s, n: valid_date(*ymd(s)), next_day, method=True,
                 label="Solar.nextDay", deps=("c01/next-day",))


def solarish(v):
    return type(v).__name__ == "Solar"


def candidates(env):
    out = []
    objs = [k for k, v in env.items() if solarish(v)]
    ints = [k for k, v in env.items() if isinstance(v, (int, SymInt)) and not isinstance(v, bool) and not k.startswith("dv_r")]
    bools = [k for k, v in env.items() if isinstance(v, (bool, SymBool))]
    for s in objs:
        for nm, o in (("W", 0), ("B", -1)):
            def f(e, s=s, o=o):
                return upto(cur(), jdn_of(e[s]) + o)
            c = f(env)
            out.append(("%s(%s) const" % (nm, s), lambda e, f=f, c=c: f(e) == c))
            for r in ints:
                for sg in (1, -1):
                    c2 = c + sg * env[r]
                    out.append(("%s(%s)%+d*%s" % (nm, s, sg, r), lambda e, f=f, r=r, sg=sg, c2=c2: f(e) + sg * e[r] == c2))
                    # relative to the start, where a counter started from nought or n
        for i, part in enumerate(("hour", "minute", "second")):
            out.append(("%s of %s" % (part, s), lambda e, s=s, i=i, c=comps(env[s])[3 + i]: comps(e[s])[3 + i] == c))
        for r in ints:
            out.append(("work(%s) or %s>0" % (s, r), lambda e, s=s, r=r: or_(work(jdn_of(e[s])), e[r] > 0)))
            out.append(("work(%s) or %s<0" % (s, r), lambda e, s=s, r=r: or_(work(jdn_of(e[s])), e[r] < 0)))
            out.append(("work(%s) or %s as at first" % (s, r), lambda e, s=s, r=r, c=env[r]: or_(work(jdn_of(e[s])), e[r] == c)))
        for b in bools:
            out.append(("%s iff work(%s)" % (b, s), lambda e, s=s, b=b: iff(e[b], work(jdn_of(e[s])))))
            out.append(("%s only if work(%s)" % (b, s), lambda e, s=s, b=b: or_(not_(e[b]), work(jdn_of(e[s])))))
    for v in ints:
        out.append(("const " + v, lambda e, v=v, c=env[v]: e[v] == c))
        out.append((v + ">=0", lambda e, v=v: e[v] >= 0))
        out.append((v + "<=0", lambda e, v=v: e[v] <= 0))
        out.append(("up " + v, lambda e, v=v, c=env[v]: e[v] >= c))
        out.append(("down " + v, lambda e, v=v, c=env[v]: e[v] <= c))
    return out


def havoc(p, name, v):
    if not solarish(v):
        raise sym.Unsupported("a loop changes %s" % name)
    d = fresh_date(p, name, None, None)
    t = tuple(SymInt(p.fresh_int("%s_t" % name, 0, n)) for n in (23, 59, 59))
    r = type(v).fromYmdHms(*(d + t))
    r.__dict__["dv_jdn"] = jdn(*d)
    return r


LOOP = LoopSpec(candidates, None, havoc, solarish)


def iff(a, b):
    return or_(and_(a, b), and_(not_(a), not_(b)))


def go(V, lo, hi):
    a = date(V) if V.symbolic or V.int("anywhere", 0, 3) == 0 else tuple(from_jdn(V.int("j", 2452240, 2461000)))
    t = time_(V)
    n = V.int("n", lo, hi) if V.symbolic else V.int("n", max(lo, -40), min(hi, 40))
    s = mk_solar(V, *(a + t))
    r = V.lib.Solar.next(s, n, True)
    j0, j1 = jdn(*a), jdn_of(r)
    V.check("time of day stays", tuple_eq(comps(r)[3:], t))
    V.check("receiver stays", tuple_eq(comps(s), a + t))
    if V.symbolic:
        if lo > 0:
            passed = upto(V.p, j1) - upto(V.p, j0)
        else:
            passed = upto(V.p, j1 - 1) - upto(V.p, j0 - 1)
        V.check("working days passed", passed == n)
        V.check("ends on a working day", work(j1))
        return
    seen, j, step = 0, j0, 1 if n > 0 else -1
    while j != j1 and abs(j - j0) < 500:
        j += step
        seen += is_work(V, j)
    V.check("working days passed", seen == abs(n))
    V.check("ends on a working day", is_work(V, j1))


def u_forward(V):
    """n working days on is the working day with n working days after the start"""
    go(V, 1, 4000000)


def u_back(V):
    """n working days back is the working day with n working days before the start"""
    go(V, -4000000, -1)


def u_none(V):
    """no working days: the same instant; without the wish for working days every day counts"""
    a = date(V)
    t = time_(V)
    s = mk_solar(V, *(a + t))
    V.check("no step", tuple_eq(comps(V.lib.Solar.next(s, 0, True)), a + t))
    n = V.int("n", -4000000, 4000000) if V.symbolic else V.int("n", -400, 400)
    r = V.lib.Solar.next(s, n, False)
    V.check("every day counts", jdn_of(r) == jdn(*a) + n)
    V.check("time of day stays", tuple_eq(comps(r)[3:], t))


def is_work(V, j):
    h = V.lib.util.HolidayUtil.getHoliday(*from_jdn(j))
    return h.isWork() if h is not None else (j + 1) % 7 not in (0, 6)


def tuple_eq(a, b):
    return and_(*[x == y for x, y in zip(a, b)])


KW = dict(stubs=[get_holiday, ST_NEXT1, ST_WEEK], loops=LOOP, opaque=True, samples=2500, exact=False)
UNITS = [
    Unit("forward", u_forward, ["Solar.next"], **KW),
    Unit("back", u_back, ["Solar.next"], **KW),
    Unit("none", u_none, ["Solar.next"], **KW),
]
