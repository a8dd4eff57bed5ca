"""C16 public holidays: look-ups by day, month, year and festival; corrections"""
LEVEL = "other"
import os
from dv.engine import Unit
from dv.spec import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PINNED = [ln.split() for ln in open(os.path.join(HERE, "data", "holidays.txt"), encoding="utf-8") if ln.strip() and ln[0] != "#"]
PIN = {r[0]: r for r in PINNED}
LAST = PINNED[-1][0]


def key(y, m, d):
    return "%04d-%02d-%02d" % (y, m, d)


def rec(h):
    return (h.getDay(), h.getName(), "work" if h.isWork() else "rest", h.getTarget())


class Clean:
    """leaves the library's table as it was"""

    def __init__(self, V):
        self.H = V.lib.util.HolidayUtil

    def __enter__(self):
        self.saved = {k: v for k, v in vars(self.H).items() if not k.startswith("__") and not callable(getattr(self.H, k))
                      and not isinstance(v, (staticmethod, classmethod))}
        return self.H

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.H, k, v)


def dates(y):
    for m in range(1, 13):
        for d in range(1, 32):
            if valid_date(y, m, d):
                yield y, m, d


def same(V, label, got, want):
    V.check(label, [rec(h) for h in got] == [tuple(r) for r in want])


def u_days(V):
    """of a day: its record, or none; the pinned schedule up to its last day"""
    y = V.int("year", 1, 9999)
    H = V.lib.util.HolidayUtil
    for a in dates(y):
        h = H.getHoliday(*a)
        k = key(*a)
        if k <= LAST or y > int(LAST[:4]) + 3:
            want = PIN.get(k)
            V.check("record of the day", (h is None) == (want is None) and (h is None or rec(h) == tuple(want)))
        elif h is not None:
            V.check("record is of the day asked for", h.getDay() == k)
        if 1990 < y < 2040:
            t = H.getHoliday(k)
            V.check("by text as by numbers", (t is None) == (h is None) and (t is None or rec(t) == rec(h)))


def u_lists(V):
    """the list of a month, a year and a festival: the records of the days, in order, each once"""
    y = V.int("year", 1, 9999)
    H = V.lib.util.HolidayUtil
    near = 1990 < y < 2040
    hs = [h for a in dates(y) for h in [H.getHoliday(*a)] if h is not None] if near else []
    same(V, "list of the year", H.getHolidays(y), [rec(h) for h in hs])
    if near:
        same(V, "list of the year by text", H.getHolidays(str(y)), [rec(h) for h in hs])
    for m in range(1, 13):
        ms = [rec(h) for h in hs if int(h.getDay()[5:7]) == m]
        same(V, "list of the month", H.getHolidays(y, m), ms)
        if near:
            same(V, "list of the month by text", H.getHolidays("%04d-%02d" % (y, m)), ms)


def u_target(V):
    y = V.int("year", 1, 9999)
    H = V.lib.util.HolidayUtil
    hs = [rec(h) for z in (y - 1, y, y + 1) if 1 <= z <= 9999 for h in H.getHolidays(z)]
    for a in dates(y):
        k = key(*a)
        want = [r for r in hs if r[3] == k]
        same(V, "days of a festival", H.getHolidaysByTarget(*a), want)
        if want:
            same(V, "days of a festival by text", H.getHolidaysByTarget(k), want)


def u_form(V):
    """the table: existing days in order, names known, festival near"""
    H = V.lib.util.HolidayUtil
    V.int("x", 0, 0)
    last = ""
    for y in range(1, 10000):
        for h in H.getHolidays(y):
            k, name, w, t = rec(h)
            V.check("days in order", last < k)
            last = k
            a, b = [int(x) for x in k.split("-")], [int(x) for x in t.split("-")]
            V.check("days exist", valid_date(*a) and valid_date(*b))
            V.check("festival near", abs(jdn(*a) - jdn(*b)) < 32)
            V.check("name", name in H.NAMES and isinstance(h.isWork(), bool))


def u_fix(V):
    """a history of corrections against a table kept day by day"""
    n = V.int("calls", 1, 4)
    with Clean(V) as H:
        names = tuple(H.NAMES)
        idx = {nm: i for i, nm in enumerate(names)}
        model = {h.getDay(): rec(h) for y in range(2001, 2030) for h in H.getHolidays(y)}
        touched = set()
        for c in range(n):
            arg = None
            if V.choice("names %d" % c, [0, 0, 0, 1]):
                new = tuple("%s%d" % (x, c) for x in ("元", "春", "清", "劳", "端", "中", "国", "合", "胜", "外", "又"))
                model = {k: (r[0], new[names.index(r[1])], r[2], r[3]) for k, r in model.items()}
                arg, names = list(new) if c % 2 else new, new
            data = ""
            for i in range(V.int("records %d" % c, 0, 4)):
                near = V.choice("near %d %d" % (c, i), [0, 1, 2])
                if near == 0 and model:          # a day of the table
                    ks = sorted(model)
                    k = ks[V.int("k %d %d" % (c, i), 0, 10 ** 6) % len(ks)]
                elif near == 1 and touched:
                    ks = sorted(touched)
                    k = ks[V.int("k %d %d" % (c, i), 0, 10 ** 6) % len(ks)]
                else:
                    k = key(*from_jdn(V.int("j %d %d" % (c, i), 2440000, 2463000)))
                touched.add(k)
                if V.choice("remove %d %d" % (c, i), [0, 0, 1]):
                    data += k.replace("-", "") + "~" + "0" * 9
                    model.pop(k, None)
                    continue
                a = [int(x) for x in k.split("-")]
                t = key(*from_jdn(jdn(*a) + V.int("t %d %d" % (c, i), -9, 9)))
                w = V.int("w %d %d" % (c, i), 0, 1)
                q = V.int("q %d %d" % (c, i), 0, len(names) - 1)
                data += k.replace("-", "") + chr(48 + q) + str(w) + t.replace("-", "")
                model[k] = (k, names[q], "rest" if w else "work", t)
            H.fix(arg, data if data or V.choice("none %d" % c, [0, 1]) == 0 else None)
            for k in touched:
                h = H.getHoliday(k)
                V.check("day after a correction", (h is None) == (k not in model) and (h is None or rec(h) == model[k]))
        want = [model[k] for k in sorted(model)]
        ys = {int(k[:4]) for k in touched} | {2001, 2014, 2025}
        for y in sorted(ys):
            same(V, "list of the year after corrections", H.getHolidays(y), [r for r in want if r[0][:4] == "%04d" % y])
        for k in touched:
            same(V, "list of the month after corrections", H.getHolidays(int(k[:4]), int(k[5:7])), [r for r in want if r[0][:7] == k[:7]])
            for t in {k, model[k][3]} if k in model else {k}:
                same(V, "days of a festival after corrections", H.getHolidaysByTarget(t), [r for r in want if r[3] == t])


def years(tier):
    return [{"year": y} for y in range(1, 10000)]


F = ["HolidayUtil.getHoliday", "HolidayUtil.getHolidays", "HolidayUtil.getHolidaysByTarget"]
UNITS = [
    Unit("form", u_form, F, prove=False, sweep=lambda tier: [{"x": 0}], over="the whole table"),
    Unit("days", u_days, F, prove=False, sweep=years, over="every day of the years 1..9999 (exhaustive)"),
    Unit("lists", u_lists, F, prove=False, sweep=years, over="every month and year of 1..9999 (exhaustive)"),
    Unit("target", u_target, F, prove=False, sweep=years, over="every day of the years 1..9999 (exhaustive)"),
    Unit("fix", u_fix, F + ["HolidayUtil.fix"], prove=False, samples=3000),
]
