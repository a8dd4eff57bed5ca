"""C24 results do not depend on what was computed before, elsewhere or at the same time"""
import random
import sys
import threading
from dv.engine import Unit, reset_ghost
from dv.lunarspec import *
from dv import ref, rt

CLASSES = ("Solar", "Lunar", "LunarYear", "LunarMonth", "LunarTime", "EightChar", "JieQi", "NineStar", "Holiday", "Fu", "ShuJiu", "Foto", "Tao",
           "FotoFestival", "TaoFestival", "SolarWeek", "SolarMonth", "SolarSeason", "SolarHalfYear", "SolarYear")


def held(V):
    """is a lock of LunarYear held (by this thread)"""
    for v in list(vars(V.lib.LunarYear).values()) + list(vars(sys.modules[V.lib.LunarYear.__module__]).values()):
        if isinstance(v, rt.GhostLock):
            if v.held:
                return True
        elif hasattr(v, "locked") and hasattr(v, "acquire") and v.locked():
            return True
    return False


class World:
    """LunarYear without its tables; other threads may ask for years of their own wherever no lock is held"""
    def __init__(self, V, others=(), fail=None):
        self.V, self.others, self.fail, self.inside, self.failed = V, list(others), fail, 0, 0
        self.c = V.lib.LunarYear

    def __enter__(self):
        c, w = self.c, self
        self.keep = (c.compute, c.getYear, rt.GhostLock.acquire, rt.GhostLock.release, rt.GhostLock.__exit__)
        self.locks = {k: v for k, v in vars(c).items() if hasattr(v, "acquire") and hasattr(v, "release") and hasattr(v, "locked")}
        for k in self.locks:
            setattr(c, k, rt.GhostLock())

        def compute(s):
            w.elsewhere()
            if w.fail is not None and w.fail(s):
                w.failed += 1
                raise ValueError("no such year")
            s.dv_complete = True

        def get_year(s):
            y = w.keep[1](s)
            w.elsewhere()
            return y

        def acquire(s, *a, **k):
            w.elsewhere()
            return w.keep[2](s, *a, **k)
        def release(s):
            w.keep[3](s)
            w.elsewhere()

        c.compute, c.getYear = compute, get_year
        rt.GhostLock.acquire = rt.GhostLock.__enter__ = acquire
        rt.GhostLock.release = release
        self.reset()
        return self

    def reset(self):
        reset_ghost(self.V.lib)
        for k, v in list(vars(self.c).items()):
            if isinstance(v, self.c):
                setattr(self.c, k, None)

    def __exit__(self, *a):
        self.c.compute, self.c.getYear, rt.GhostLock.acquire, rt.GhostLock.release, _ = self.keep
        rt.GhostLock.__enter__ = rt.GhostLock.acquire
        for k, v in self.locks.items():
            setattr(self.c, k, v)
        self.reset()

    def elsewhere(self):
        if self.inside or not self.others or held(self.V):
            return
        self.inside = 1
        try:
            z = self.others.pop()
            r = self.c.fromYear(z)
            self.V.check("year asked for elsewhere", self.keep[1](r) == z)
        finally:
            self.inside = 0


def u_cache(V):
    """fromYear gives the year asked for, whatever was asked for before"""
    y = V.int("year", 1, 9999)
    k = V.choice("calls before", [0, 1, 2, 3])
    before = [V.int("before %d" % i, 1, 9999) for i in range(k)]
    with World(V) as w:
        old = [(b, w.c.fromYear(b)) for b in before]
        r = w.c.fromYear(y)
        V.check("the year asked for", w.keep[1](r) == y)
        V.check("complete", r.__dict__.get("dv_complete", False))
        V.check("no lock is kept", not held(V))
        for b, o in old:
            V.check("earlier results stay", w.keep[1](o) == b)
        V.check("asked again", w.keep[1](w.c.fromYear(y)) == y)


def u_threads(V):
    """fromYear gives the year asked for, whatever other threads ask for meanwhile"""
    y = V.int("year", 1, 9999)
    k = V.choice("calls before", [0, 1])
    b = V.int("before", 1, 9999)
    z = [V.int("elsewhere %d" % i, 1, 9999) for i in range(2)]
    with World(V) as w:
        if k:
            w.c.fromYear(b)
        w.others = list(z)
        r = w.c.fromYear(y)
        V.check("the year asked for", w.keep[1](r) == y)
        V.check("complete", r.__dict__.get("dv_complete", False))
        V.check("no lock is kept", not held(V))


def u_failing(V):
    """a year that cannot be computed leaves neither a lock held nor a half-made year behind"""
    y, z, b = V.int("year", 1, 9999), V.int("next", 1, 9999), V.int("before", 1, 9999)
    k = V.choice("calls before", [0, 1])
    with World(V) as w:
        if k:
            V.assume(b != y)
            w.c.fromYear(b)
        w.fail = lambda s: True
        r = V.call(w.c.fromYear, y)
        V.check("the failure is reported", V.raised(r))
        V.check("no lock is kept", not held(V))
        w.fail = None
        r = w.c.fromYear(z)
        V.check("the year asked for next", w.keep[1](r) == z)
        V.check("complete", r.__dict__.get("dv_complete", False))


def getters(o):
    for n in sorted(dir(type(o))):
        if n.startswith("_") or n.startswith("from") or n.startswith("set") or n in ("next", "compute", "now", "today"):
            continue
        yield n


def show(x, depth=0):
    t = type(x).__name__
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(show(e, depth) for e in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (k, show(e, depth)) for k, e in sorted(x.items())) + "}"
    if t in CLASSES:
        if t == "Solar":
            return x.toYmdHms()
        return t + ":" + (x.toFullString() if hasattr(x, "toFullString") else x.toString() if hasattr(x, "toString") else "")
    return repr(x) if isinstance(x, (str, int, float, bool, type(None))) else t


def picture(o, names=None):
    """what every getter of an object says"""
    out = []
    for n in names or getters(o):
        f = getattr(o, n)
        if not callable(f):
            continue
        try:
            out.append(n + "=" + show(f()))
        except TypeError as e:
            if "argument" not in str(e):
                raise
    return out


def shared(lib):
    """the library's public tables: what its modules and classes hold under public names"""
    out = {}
    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] != lib.__name__.split(".")[0]:
            continue
        for k, v in vars(m).items():
            if isinstance(v, (list, dict, tuple, str, int)) and not k.startswith("_"):
                out[n + "." + k] = tables(v)
            elif isinstance(v, type) and v.__module__ == n:
                for a, x in vars(v).items():
                    if isinstance(x, (list, dict, tuple, str, int, float)) and not a.startswith("_"):
                        out[n + "." + k + "." + a] = tables(x)
    return out


def stay(V, before):
    now = shared(V.lib)
    V.check("the library's tables stay", all(now.get(k) == v for k, v in before.items()))


def tables(x):
    if isinstance(x, dict):
        return "{" + ",".join("%r:%s" % (k, tables(v)) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(tables(v) for v in x) + "]"
    return repr(x) if isinstance(x, (str, int, float, bool, type(None))) else show(x)


def some(V, tag, kinds=None):
    """an object of the library"""
    a = date_(V, tag)
    s = mk_solar(V, *(a + (V.int(tag + " hour", 0, 23), V.int(tag + " minute", 0, 59), V.int(tag + " second", 0, 59))))
    return make(V, s, V.choice(tag + " kind", list(KINDS)))


def date_(V, tag):
    j = V.int(tag + " day", 1721424 + 366, 5373484 - 366)
    if V.int(tag + " recent", 0, 1):
        j = 2415021 + j % 73050
    return tuple(from_jdn(j))


KINDS = {
    "Solar": lambda L, s: s,
    "Lunar": lambda L, s: s.getLunar(),
    "EightChar": lambda L, s: s.getLunar().getEightChar(),
    "LunarTime": lambda L, s: s.getLunar().getTime(),
    "LunarYear": lambda L, s: L.LunarYear.fromYear(s.getYear()),
    "LunarMonth": lambda L, s: L.LunarMonth.fromYm(s.getLunar().getYear(), s.getLunar().getMonth()),
    "Foto": lambda L, s: s.getLunar().getFoto(),
    "Tao": lambda L, s: s.getLunar().getTao(),
    "NineStar": lambda L, s: s.getLunar().getDayNineStar(),
    "JieQi": lambda L, s: s.getLunar().getPrevJie(),
    "SolarWeek": lambda L, s: L.SolarWeek.fromYmd(s.getYear(), s.getMonth(), s.getDay(), s.getDay() % 7),
    "SolarMonth": lambda L, s: L.SolarMonth.fromYm(s.getYear(), s.getMonth()),
    "SolarYear": lambda L, s: L.SolarYear.fromYear(s.getYear()),
}


def make(V, s, kind):
    return KINDS[kind](V.lib, s)


def u_pure(V):
    """asking an object changes neither it nor the library's tables: the same questions in another order get the same answers"""
    o = some(V, "object")
    before = shared(V.lib)
    p = picture(o)
    q = picture(o, list(reversed(list(getters(o)))))
    V.check("same answers in another order", p == list(reversed(q)))
    stay(V, before)


def ops(V, tag):
    """something else done with the library"""
    k = V.int(tag + " op", 0, 7)
    o = some(V, tag)
    n = V.int(tag + " n", -400, 400)
    L = V.lib
    try:
        if k == 0:
            picture(o)
        elif k == 1 and hasattr(o, "next") and not isinstance(o, L.LunarYear):
            o.next(n) if not isinstance(o, L.SolarWeek) else o.next(n, n % 2 == 0)
        elif k == 2:
            L.Solar.fromYmdHms(2000 + n, 1 + abs(n) % 15, 1 + abs(n) % 40, 0, 0, abs(n) % 70)
        elif k == 3:
            L.Lunar.fromYmd(2000 + n, n % 27 - 13, 1 + abs(n) % 33)
        elif k == 4:
            L.LunarYear.fromYear("x" if n % 2 else 2000 + n)
        elif k == 5:
            L.util.HolidayUtil.getHolidays(2000 + n % 30)
        elif k == 6:
            y = L.Solar.fromYmd(1950 + abs(n) % 100, 3, 4).getLunar().getEightChar().getYun(n % 2, 1 + n % 2)
            [d.getXiaoYun() for d in y.getDaYun()[:2]]
        else:
            L.Solar.fromBaZi(*str(L.Solar.fromYmd(1950 + abs(n) % 50, 3, 4).getLunar().getEightChar()).split(" "))
    except Exception:
        pass


def u_history(V):
    """what an object says, and what one made anew says, stays the same whatever is done in between, failures included"""
    a = date_(V, "object")
    t = (V.int("hour", 0, 23), V.int("minute", 0, 59), V.int("second", 0, 59))
    kind = V.choice("kind", list(KINDS))
    o = make(V, mk_solar(V, *(a + t)), kind)
    before, p = shared(V.lib), picture(o)
    for i in range(V.int("operations", 1, 5)):
        ops(V, "op %d" % i)
    V.check("the same object says the same", picture(o) == p)
    V.check("the same object made anew says the same", picture(make(V, mk_solar(V, *(a + t)), kind)) == p)
    stay(V, before)


def u_parallel(V):
    """threads that ask for different years each get theirs (bounded: the schedules that occur)"""
    n = V.int("n", 0, 9000)
    bad = []
    L = V.lib
    keep = sys.getswitchinterval()
    want = {y: ref.months(y)[2][3] for y in range(n + 1, n + 9)}

    def run(k):
        r = random.Random(n * 8 + k)
        for _ in range(12):
            y = n + 1 + r.randrange(8)
            try:
                m = L.LunarYear.fromYear(y).getMonths()[2]
                if int(m.getFirstJulianDay()) != want[y]:
                    bad.append((y, m.getFirstJulianDay()))
            except Exception as e:
                bad.append((y, repr(e)))
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(4)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
        V.check("threads end", not any(t.is_alive() for t in ts))
    finally:
        sys.setswitchinterval(keep)
    V.check("each gets its year", not bad)


UNITS = [
    Unit("cache", u_cache, ["LunarYear.fromYear"], exact=False, samples=200),
    Unit("interference", u_threads, ["LunarYear.fromYear"], exact=False, samples=200),
    Unit("failing", u_failing, ["LunarYear.fromYear"], exact=False, samples=200),
    Unit("pure", u_pure, ["every getter"], prove=False, samples=600),
    Unit("history", u_history, ["every getter"], prove=False, samples=600),
    Unit("parallel", u_parallel, ["LunarYear.fromYear"], prove=False, samples=24),
]
