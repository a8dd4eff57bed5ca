"""C23 Buddhist and Taoist calendars"""
import json
import os
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars as P
from dv.pillars import JZ
from props.c19 import MANSIONS, BEASTS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "data", "sects.json"), encoding="utf-8") as f:
    T = json.load(f)
NUM = "〇一二三四五六七八九"
LODGES = [x for x in MANSIONS if x != "牛"]
FIRST = "室奎胃毕参鬼张角氐心斗虚"          # lodge of the first day of each month
TERMS = ("", "冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑", "立秋",
         "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪")
AN_WU = "未戌辰寅午子酉申巳亥卯丑"
FOTO = {f[0]: f for v in T["foto"].values() for f in v}
NAMES = {k: {(x if isinstance(x, str) else x[0]) for v in T[k].values() for x in v} for k in ("foto", "foto_other", "tao")}
TAO_NAMES = NAMES["tao"] | set(T["ba_jie"].values()) | set(T["ba_hui"].values()) | {"元始天尊圣诞", "灵宝天尊圣诞"}


def day_of(V):
    """a lunar day: month and day by cases, year arbitrary; the civil year may be the lunar year or a neighbour"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    d = V.choice("day", list(range(1, 31)))
    y = V.int("year", 1, 9999)
    k = V.choice("civil year less lunar year", [-1, 0, 1])
    return y, m, d, y + k


def foto(f):
    return [f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark()]


class Month:
    def __init__(self, n):
        self.n = n

    def getDayCount(self):
        return self.n


def from_ym(V, pat):
    """contract of LunarMonth.fromYm: the month with this number in the table of this year; its length is that of the unit"""
    def f(y, m):
        V.p.check("asks for the month of the day", and_(y == V.ym[0], m == V.ym[1]))
        return Month(V.length)
    pat.set(V.lib.LunarMonth, "fromYm", f)
from_ym.deps = (("c08", "accessors"), ("c08", "tables"))


def u_foto(V):
    """a day of the Buddhist calendar"""
    y, m, d, sy = day_of(V)
    F = V.lib.Foto
    if V.symbolic:
        V.length = V.choice("days of the month", [29, 30]) if abs(d) == 28 else 30
        V.ym = (y, m)
        L = P.make(V, {}, _Lunar__year=y, _Lunar__month=m, _Lunar__day=d, _Lunar__solar=mk_solar(V, sy, 6, 7))
        n = V.length
    else:
        y = 1 + y % 9990
        M = V.lib.LunarMonth.fromYm(y, m)
        V.assume(M is not None and d <= M.getDayCount())
        L = V.lib.Lunar.fromYmd(y, m, d)
        n = M.getDayCount()
    o = F.fromLunar(L)
    V.check("its lunar day", o.getLunar() is L)
    V.check("year", o.getYear() == y + 544)
    V.check("month and day", and_(o.getMonth() == m, o.getDay() == d))
    key, am = "%d-%d" % (abs(m), d), abs(m)
    fs = o.getFestivals()
    V.check("festivals", sorted(foto(f) for f in fs if f.getName() in NAMES["foto"]) == sorted(T["foto"].get(key, [])))
    V.check("festivals each once", len({f.getName() for f in fs}) == len(fs))
    V.check("other festivals", sorted(x for x in o.getOtherFestivals() if x in NAMES["foto_other"]) ==
            sorted(T["foto_other"].get("%d-%d" % (m, d), [])))
    V.check("杨公忌", o.isDayYangGong() == (key in ("1-13", "2-11", "3-9", "4-7", "5-5", "6-3", "7-1", "7-29", "8-27", "9-25", "10-23", "11-21", "12-19")))
    V.check("months of fasting", o.isMonthZhai() == (m in (1, 5, 9)))
    V.check("new and full moon", o.isDayZhaiShuoWang() == (d in (1, 15)))
    V.check("six days of fasting", o.isDayZhaiSix() == (d in (8, 14, 15, 23, 29, 30) or (d == 28 and n == 29)))
    V.check("ten days of fasting", o.isDayZhaiTen() == (d in (1, 8, 14, 15, 18, 23, 24, 28, 29, 30)))
    V.check("fasts of 观音", o.isDayZhaiGuanYin() == ("%d-%d" % (m, d) in T["guanyin"]))
    x = LODGES[(LODGES.index(FIRST[am - 1]) + d - 1) % 27]
    k = MANSIONS.index(x)
    V.check("lodge", o.getXiu() == x)
    V.check("what belongs to the lodge", o.getZheng() == "木金土日月火水"[k % 7] and o.getAnimal() == BEASTS[k] and o.getGong() == "东北西南"[k // 7]
            and o.getShou() == ("青龙", "玄武", "白虎", "朱雀")[k // 7])
    U = V.lib.util.LunarUtil
    V.check("luck and song of the lodge", o.getXiuLuck() == U.XIU_LUCK[x] and o.getXiuSong() == U.XIU_SONG[x])


def u_tao(V):
    """a day of the Taoist calendar: what follows from month and day"""
    y, m, d, sy = day_of(V)
    j = (7 * d + 11 * (m + 12)) % 60
    if V.symbolic:
        L = P.make(V, {("Day", ""): j}, _Lunar__year=y, _Lunar__month=m, _Lunar__day=d, _Lunar__solar=mk_solar(V, sy, 6, 7))
        jq = TERMS[(d + m) % 25]
    else:
        y = 1 + y % 9990
        M = V.lib.LunarMonth.fromYm(y, m)
        V.assume(M is not None and d <= M.getDayCount())
        L = V.lib.Lunar.fromYmd(y, m, d)
        jq, j = L.getJieQi(), JZ.index(L.getDayInGanZhi())
    o = V.lib.Tao.fromLunar(L)
    V.check("its lunar day", o.getLunar() is L)
    V.check("year", o.getYear() == y + 2697)
    V.check("month and day", and_(o.getMonth() == m, o.getDay() == d))
    key, am = "%d-%d" % (m, d), abs(m)
    tao_days(V, L, o, key, jq, j)
    V.check("三会", o.isDaySanHui() == (key in ("1-7", "7-7", "10-15")))
    V.check("三元", o.isDaySanYuan() == (key in ("1-15", "7-15", "10-15")))
    V.check("五腊", o.isDayWuLa() == (key in ("1-1", "5-5", "7-7", "10-1", "12-8")))


def tao_days(V, L, o, key, jq, j, stub=False):
    """festivals of a Taoist day, by its number, its term and its pillar"""
    keep = V.lib.Lunar.getJieQi
    try:
        if V.symbolic or stub:
            V.lib.Lunar.getJieQi = lambda s: jq
        fs = o.getFestivals()
        ba = o.isDayBaJie()
    finally:
        V.lib.Lunar.getJieQi = keep
    want = list(T["tao"].get(key, []))
    want += [[{"冬至": "元始天尊圣诞", "夏至": "灵宝天尊圣诞"}[jq], ""]] if jq in ("冬至", "夏至") else []
    want += [[T["ba_jie"][jq], ""]] if jq in T["ba_jie"] else []
    want += [[T["ba_hui"][JZ[j]], ""]] if JZ[j] in T["ba_hui"] else []
    V.check("festivals", sorted([f.getName(), f.getRemark()] for f in fs if f.getName() in TAO_NAMES) == sorted(want))
    V.check("festivals each once", len({f.getName() for f in fs}) == len(fs))
    V.check("八节", ba == (jq in ("立春", "春分", "立夏", "夏至", "立秋", "秋分", "立冬", "冬至")))
    V.check("八会", o.isDayBaHui() == (JZ[j] in ("丙午", "壬午", "壬子", "庚午", "庚申", "辛酉", "甲辰", "甲戌")))
    bright, dark = j % 10 == 4, "子丑寅卯辰巳午未申酉戌亥"[j % 12] == AN_WU[abs(o.getMonth()) - 1]
    V.check("明戊", o.isDayMingWu() == bright)
    V.check("暗戊", o.isDayAnWu() == dark)
    V.check("戊", o.isDayWu() == (bright or dark))


def u_tao_pillars(V):
    """a day of the Taoist calendar: what follows from term and pillars"""
    j = V.choice("pillar of the day", list(range(60)))
    b = V.choice("branch of the month", list(range(12)))
    m = V.choice("lunar month", list(range(1, 13)))
    L = P.make(V, {("Day", ""): j, ("Month", ""): (None, b)}, _Lunar__month=m, _Lunar__day=4)
    o = V.lib.Tao.fromLunar(L)
    V.check("天赦", o.isDayTianShe() == (JZ[j] == {2: "戊寅", 3: "戊寅", 4: "戊寅", 5: "甲午", 6: "甲午", 7: "甲午", 8: "戊申", 9: "戊申",
                                               10: "戊申", 11: "甲子", 0: "甲子", 1: "甲子"}[b]))
    for jq in TERMS:
        tao_days(V, L, o, "%d-4" % m, jq, j, True)


class Got:
    pass


def u_from(V):
    """the lunar day with this number in the year that the era counts; its time of day"""
    y, m, d = V.int("year", 1, 9000), V.choice("month", [x for x in range(-12, 13) if x]), V.int("day", 1, 30)
    t = (V.int("hour", 0, 23), V.int("minute", 0, 59), V.int("second", 0, 59))
    which = V.choice("calendar", ["Foto", "Tao"])
    F = getattr(V.lib, which)
    era = 544 if which == "Foto" else 2697
    keep = V.lib.Lunar.fromYmdHms
    if V.symbolic:
        seen = []
        try:
            def f(*a):
                seen.append(a)
                return Got()
            V.lib.Lunar.fromYmdHms = staticmethod(f)
            o = F.fromYmdHms(y + era, m, d, *t)
            p = F.fromYmd(y + era, m, d)
        finally:
            V.lib.Lunar.fromYmdHms = keep
        V.check("one lunar day each", len(seen) == 2)
        V.check("lunar day and time", and_(*[a == b for a, b in zip(seen[0], (y, m, d) + t)]))
        V.check("midnight of the lunar day", and_(*[a == b for a, b in zip(seen[1], (y, m, d, 0, 0, 0))]))
        V.check("is made of it", type(o.getLunar()) is Got and type(p.getLunar()) is Got)
        return
    M = V.lib.LunarMonth.fromYm(y, m)
    V.assume(M is not None and d <= M.getDayCount())
    L = F.fromYmdHms(y + era, m, d, *t).getLunar()
    s = L.getSolar()
    V.check("lunar day and time", (L.getYear(), L.getMonth(), L.getDay(), s.getHour(), s.getMinute(), s.getSecond()) == (y, m, d) + t)
    o = F.fromYmd(y + era, m, d)
    V.check("there and back", (o.getYear(), o.getMonth(), o.getDay()) == (y + era, m, d))
    V.check("midnight of the lunar day", o.getLunar().getSolar().toYmdHms() == s.toYmd() + " 00:00:00")


def u_words(V):
    """a year of either calendar in words, digit by digit"""
    y = V.int("year", 1, 9999)
    L = P.make(V, {}, _Lunar__year=y, _Lunar__month=-2, _Lunar__day=21)
    for F, era in ((V.lib.Foto, 544), (V.lib.Tao, 2697)):
        w = "".join(NUM[int(c)] for c in str(y + era))
        o = F.fromLunar(L)
        V.check("year in words", o.getYearInChinese() == w)
        V.check("month and day in words", (o.getMonthInChinese(), o.getDayInChinese()) == ("闰二", "廿一"))
        V.check("text", o.toString() == w + "年闰二月廿一" and str(o) == o.toString())


def u_full(V):
    """Lunar.getFoto, getTao and full texts on lunar days as the library makes them"""
    a, t = instant(V)
    L = mk_solar(V, *(tuple(a) + tuple(t))).getLunar()
    o, p = L.getFoto(), L.getTao()
    V.check("made of the day", o.getLunar() is L and p.getLunar() is L)
    V.check("years", (o.getYear(), p.getYear()) == (L.getYear() + 544, L.getYear() + 2697))
    V.check("festivals are named in the full text", o.toFullString() == o.toString() + "".join(" (%s)" % f.getName() for f in o.getFestivals()))
    V.check("full text", p.toFullString() == "道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。" % (
        p.getYearInChinese(), L.getYearInGanZhi(), L.getMonthInGanZhi(), L.getDayInGanZhi(), L.getMonthInChinese(), L.getDayInChinese(), L.getTimeZhi()))
    for f in o.getFestivals():
        V.check("text of a festival", f.toString() == str(f) == f.getName() and f.toFullString() == " ".join(x for x in (f.getName(), f.getResult(), f.getRemark()) if x))
    for f in p.getFestivals():
        V.check("text of a festival", f.toString() == str(f) == f.getName() and
                f.toFullString() == f.getName() + ("[%s]" % f.getRemark() if f.getRemark() else ""))


UNITS = [
    Unit("foto", u_foto, ["Foto." + x for x in ("getYear", "getMonth", "getDay", "getFestivals", "getOtherFestivals", "isDayYangGong", "isMonthZhai",
         "isDayZhaiShuoWang", "isDayZhaiSix", "isDayZhaiTen", "isDayZhaiGuanYin", "getXiu", "getZheng", "getAnimal", "getGong", "getShou", "getXiuLuck", "getXiuSong")]
         + ["FotoUtil.getXiu"], stubs=[from_ym], samples=3000),
    Unit("tao", u_tao, ["Tao." + x for x in ("getYear", "getMonth", "getDay", "getFestivals", "isDaySanHui", "isDaySanYuan", "isDayWuLa", "isDayBaJie", "isDayBaHui",
         "isDayMingWu", "isDayAnWu", "isDayWu")], samples=3000),
    Unit("tao-pillars", u_tao_pillars, ["Tao.isDayTianShe", "Tao.getFestivals", "Tao.isDayBaHui", "Tao.isDayMingWu", "Tao.isDayAnWu"], samples=500),
    Unit("from-ymd", u_from, ["Foto.fromYmdHms", "Foto.fromYmd", "Tao.fromYmdHms", "Tao.fromYmd"], samples=1500),
    Unit("words", u_words, ["Foto.getYearInChinese", "Tao.getYearInChinese", "Foto.toString", "Tao.toString"], prove=False,
         sweep=lambda tier: [{"year": y} for y in range(1, 10000)], over="every year 1..9999 (exhaustive)"),
    Unit("real-days", u_full, ["Lunar.getFoto", "Lunar.getTao", "Foto.toFullString", "Tao.toFullString", "FotoFestival.toFullString", "TaoFestival.toFullString"],
         prove=False, samples=1500),
]
