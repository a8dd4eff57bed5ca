"""C03 weekdays and weeks"""
from dv.engine import Unit
from dv.spec import *
from dv.contracts import *

SU = lambda V: V.lib.util.SolarUtil
CN = "日一二三四五六"


def wd(y, m, d):
    return (jdn(y, m, d) + 1) % 7


def row(y, m, d, start):
    """which row of the month's calendar (weeks beginning on weekday `start`) holds the date"""
    return (jdn(y, m, d) - jdn(y, m, 1) + (wd(y, m, 1) - start) % 7) // 7 + 1


def rows(y, m, start):
    return row(y, m, last_day(y, m), start)


def u_week(V):
    a = date(V)
    t = time_(V)
    s = mk_solar(V, *(a + t))
    r = s.getWeek()
    V.check("weekday", r == wd(*a))
    V.observe("r", r)


def u_week_names(V):
    w = V.choice("w", list(range(7)))
    j = V.int("k", J_MIN // 7 + 1, J_MAX // 7 - 1)
    a = from_jdn(j * 7 + w - 1) if not V.symbolic else None
    if V.symbolic:
        a = date(V)
        V.assume(jdn(*a) == j * 7 + w - 1)
    s = mk_solar(V, *a)
    V.check("weekday name", s.getWeekInChinese() == CN[w])


def _start(V):
    return V.int("start", 0, 6)


def u_index(V):
    a = date_by_month(V)
    st = _start(V)
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    V.check("row of the month", w.getIndex() == row(*(a + (st,))))


def u_index_year(V):
    a = date_by_month(V)
    st = _start(V)
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    V.check("row of the year", w.getIndexInYear() == (jdn(*a) - jdn(a[0], 1, 1) + (wd(a[0], 1, 1) - st) % 7) // 7 + 1)


def u_rows(V):
    y = V.int("y", YMIN, YMAX)
    m = V.choice("m", list(range(1, 13)))
    st = _start(V)
    V.check("rows of the month", SU(V).getWeeksOfMonth(y, m, st) == rows(y, m, st))


def u_first(V):
    a = date(V, "", 1, 9999)
    st = _start(V)
    V.assume(and_(jdn(*a) > J_MIN + 7, jdn(*a) < J_MAX - 7))
    f = V.lib.SolarWeek.fromYmd(*(a + (st,))).getFirstDay()
    n = jdn_of(f)
    V.check("begins on the start day", (n + 1) % 7 == st)
    V.check("contains the day", and_(n <= jdn(*a), jdn(*a) < n + 7))
    V.check("a date that exists", valid_date(*ymd(f)))


def st_first(V, w):
    p = V.p
    a = (w.getYear(), w.getMonth(), w.getDay())
    k = SymInt(p.fresh_int("back", 0, 6))
    n = jdn(*a)
    p.assume((n - k + 1) % 7 == w.getStart())
    t = [SymInt(p.name_int(v.e, "first")) if is_sym(v) else v for v in shift(*(a + (-k,)))]
    r = V.lib.Solar.fromYmdHms(*(tuple(t) + (0, 0, 0)))
    r.__dict__["dv_jdn"] = n - k
    return r


ST_FIRST = fstub(lambda L: L.SolarWeek, "getFirstDay", lambda w: valid_date(w.getYear(), w.getMonth(), w.getDay()), st_first,
                 method=True, label="SolarWeek.getFirstDay", deps=("c03/first-day",))




def u_days(V):
    a = date(V)
    st = _start(V)
    V.assume(and_(jdn(*a) > J_MIN + 7, jdn(*a) < J_MAX - 7))
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    n = jdn(*a)
    days = w.getDays()
    V.check("seven days", len(days) == 7)
    f = jdn_of(days[0])
    V.check("first", and_((f + 1) % 7 == st, f <= n, n < f + 7))
    for i in range(1, len(days)):
        V.check("consecutive days", jdn_of(days[i]) == f + i)


def u_days_in_month(V):
    """only the days of the week that lie in the month, all of them, in order"""
    a = date(V)
    st = _start(V)
    V.assume(and_(jdn(*a) > J_MIN + 7, jdn(*a) < J_MAX - 7))
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    n = jdn(*a)
    days = w.getDaysInMonth()
    f = n - (n + 1 - st) % 7
    lo = max_(f, jdn(a[0], a[1], 1))
    hi = min_(f + 6, jdn(a[0], a[1], last_day(a[0], a[1])))
    V.check("how many", len(days) == hi - lo + 1)
    for i, d in enumerate(days):
        V.check("which", eq(ymd(d)[:2], a[:2]))
        V.check("in order", jdn_of(d) == lo + i)
    fd = w.getFirstDayInMonth()
    V.check("first day in month", jdn_of(fd) == lo)


def u_next(V):
    a = date(V)
    st = _start(V)
    n = V.int("n", -500, 500)
    j = jdn(*a) + 7 * n
    V.assume(and_(j >= J_MIN, j <= J_MAX))
    w = V.lib.SolarWeek.fromYmd(*(a + (st,))).next(n, False)
    V.check("the same weekday n weeks on", jdn(w.getYear(), w.getMonth(), w.getDay()) == j)
    V.check("same start", w.getStart() == st)


def month_row(w):
    """(month number, row) of a week"""
    y, m, d = w.getYear(), w.getMonth(), w.getDay()
    return y * 12 + m - 1, row(y, m, d, w.getStart())


def u_next_sep(V):
    """month by month: the next row of the month, else the first row of the next month"""
    a = date_by_month(V, "", 1, 9998)
    st = _start(V)
    V.assume(jdn(*a) > J_MIN + 31)
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    r = w.next(1, True)
    M, i = a[0] * 12 + a[1] - 1, row(*(a + (st,)))
    M2, i2 = month_row(r)
    last = rows(a[0], a[1], st)
    V.check("a date that exists", valid_date(r.getYear(), r.getMonth(), r.getDay()))
    V.check("next row", and_(M2 == ite(i < last, M, M + 1), i2 == ite(i < last, i + 1, 1)))


def u_prev_sep(V):
    a = date_by_month(V, "", 1, 9998)
    st = _start(V)
    V.assume(jdn(*a) > J_MIN + 31)
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    r = w.next(-1, True)
    M, i = a[0] * 12 + a[1] - 1, row(*(a + (st,)))
    M2, i2 = month_row(r)
    m1 = (a[1] - 2) % 12 + 1
    y1 = ite(a[1] == 1, a[0] - 1, a[0])
    V.check("a date that exists", valid_date(r.getYear(), r.getMonth(), r.getDay()))
    V.check("previous row", and_(M2 == ite(i > 1, M, M - 1), i2 == ite(i > 1, i - 1, rows(y1, m1, st))))


def u_next_sep_n(V):
    """n steps are n times one step (bounded: |n| <= 12, sampled)"""
    a = date(V, "", 2, 9997)
    st = _start(V)
    n = V.int("n", 2, 12)
    s = V.choice("s", [1, -1])
    w = V.lib.SolarWeek.fromYmd(*(a + (st,)))
    r = w.next(n * s, True)
    q = w
    for _ in range(n):
        q = q.next(s, True)
    V.check("composition", month_row(r) == month_row(q))


def u_weeks(V):
    """the weeks of a month: one per row, in order"""
    y = V.int("y", 1, 9998)
    m = V.choice("m", list(range(1, 13)))
    V.assume(or_(y > 1, m > 1))
    st = _start(V)
    ws = V.lib.SolarMonth.fromYm(y, m).getWeeks(st)
    V.check("one per row", len(ws) == rows(y, m, st))
    for i, w in enumerate(ws):
        if i == 0:
            V.check("row 1", eq((w.getYear(), w.getMonth(), w.getDay()), (y, m, 1)))
        else:
            V.check("in order", jdn(w.getYear(), w.getMonth(), w.getDay()) == jdn(y, m, 1) + 7 * i)


UNITS = [
    Unit("weekday", u_week, ["Solar.getWeek", "Solar.getJulianDay"], stubs=[ST_GET_JD], samples=2000),
    Unit("weekday-names", u_week_names, ["Solar.getWeekInChinese"], stubs=[ST_WEEK], samples=100),
    Unit("index-in-month", u_index, ["SolarWeek.getIndex"], stubs=[ST_WEEK, ST_DAYS_IN_YEAR], samples=1000),
    Unit("index-in-year", u_index_year, ["SolarWeek.getIndexInYear"], stubs=[ST_WEEK, ST_DAYS_IN_YEAR], samples=1000),
    Unit("weeks-of-month", u_rows, ["SolarUtil.getWeeksOfMonth"], stubs=[ST_WEEK, ST_DAYS_OF_MONTH], samples=1000),
    Unit("first-day", u_first, ["SolarWeek.getFirstDay"], stubs=[ST_WEEK, ST_NEXT], samples=1000),
    Unit("days", u_days, ["SolarWeek.getDays"], stubs=[ST_FIRST, ST_NEXT], opaque=True, samples=500),
    Unit("days-in-month", u_days_in_month, ["SolarWeek.getDaysInMonth", "SolarWeek.getFirstDayInMonth"],
         stubs=[ST_FIRST, ST_NEXT], opaque=True, samples=500),
    Unit("next-week", u_next, ["SolarWeek.next"], stubs=[ST_NEXT], samples=500),
    Unit("next-week-by-month", u_next_sep, ["SolarWeek.next"], stubs=[ST_NEXT, ST_WEEK, ST_DAYS_IN_YEAR, ST_DAYS_OF_MONTH, ST_FIRST],
         samples=3000, opaque=True),
    Unit("previous-week-by-month", u_prev_sep, ["SolarWeek.next"],
         stubs=[ST_NEXT, ST_WEEK, ST_DAYS_IN_YEAR, ST_DAYS_OF_MONTH, ST_FIRST], samples=3000, opaque=True),
    Unit("weeks-by-month-composed", u_next_sep_n, ["SolarWeek.next"], samples=1500, prove=False, kind="bounded"),
    Unit("weeks", u_weeks, ["SolarMonth.getWeeks"], stubs=[ST_FIRST, ST_NEXT, ST_WEEK, ST_DAYS_OF_MONTH], opaque=True, samples=500),
]
