"""C20 nine nines, dog days, pentads, six days, phases of the moon, the lunar date in words"""
from dv.engine import Unit
from dv.lunarspec import *
from dv import pillars as P

SKIP = ("__computeYear", "__computeMonth", "__computeDay", "__computeTime", "__computeWeek")
NUM = "〇一二三四五六七八九"
LIU = ("先胜", "友引", "先负", "佛灭", "大安", "赤口")
MOON = ("朔 既朔 蛾眉新 蛾眉新 蛾眉 夕 上弦 上弦 九夜 宵 宵 宵 渐盈凸 小望 望 既望 立待 居待 寝待 更待 渐亏凸 下弦 下弦 有明 有明 "
        "蛾眉残 蛾眉残 残 晓 晦").split()
DAYS = ("初一 初二 初三 初四 初五 初六 初七 初八 初九 初十 十一 十二 十三 十四 十五 十六 十七 十八 十九 二十 廿一 廿二 廿三 廿四 廿五 "
        "廿六 廿七 廿八 廿九 三十").split()
MONTHS = "正二三四五六七八九十冬腊"
SEASONS = [b + a for a in "春夏秋冬" for b in "孟仲季"]
WU_HOU = ("蚯蚓结 麋角解 水泉动 雁北乡 鹊始巢 雉始雊 鸡始乳 征鸟厉疾 水泽腹坚 东风解冻 蛰虫始振 鱼陟负冰 獭祭鱼 候雁北 草木萌动 桃始华 仓庚鸣 鹰化为鸠 "
          "玄鸟至 雷乃发声 始电 桐始华 田鼠化为鴽 虹始见 萍始生 鸣鸠拂奇羽 戴胜降于桑 蝼蝈鸣 蚯蚓出 王瓜生 苦菜秀 靡草死 麦秋至 螳螂生 鵙始鸣 反舌无声 "
          "鹿角解 蜩始鸣 半夏生 温风至 蟋蟀居壁 鹰始挚 腐草为萤 土润溽暑 大雨行时 凉风至 白露降 寒蝉鸣 鹰乃祭鸟 天地始肃 禾乃登 鸿雁来 玄鸟归 群鸟养羞 "
          "雷始收声 蛰虫坯户 水始涸 鸿雁来宾 雀入大水为蛤 菊有黄花 豺乃祭兽 草木黄落 蛰虫咸俯 水始冰 地始冻 雉入大水为蜃 虹藏不见 天气上升地气下降 "
          "闭塞而成冬 鹖鴠不鸣 虎始交 荔挺出").split()
HOU = ("初候", "二候", "三候")
LU = dict(zip(GAN, "寅卯巳午巳午申酉亥子"))


class Day:
    """contract of Solar.getLunar(), as far as the stem of the day (C11)"""
    def __init__(self, j):
        self.j = j

    def getDayGanIndex(self):
        return (self.j + 9) % 10


def get_lunar(V, pat):
    pat.set(V.lib.Solar, "getLunar", lambda s: Day(jdn_of(s)))
get_lunar.deps = (("c11", "day-pillar"),)


def dated(V, a, *terms):
    """day numbers of a date and of terms, with their order"""
    if V.symbolic:
        ds = [tuple(a)] + [ymd(x) for x in terms]
        for i, x in enumerate(ds):
            for y in ds[:i]:
                ordered(V, x, y)
        V.days = ds
    return [jdn(*a)] + [jdn_of(x) for x in terms]


def u_jiu(V):
    """81 days from the day of 冬至 on, in nines"""
    a, t = instant(V)
    u = lunar(V, a, t, SKIP, None)
    j, w0, w1 = dated(V, a, u.T(1), u.T(25))
    r = u.lunar.getShuJiu()
    k = ite(j >= w1, j - w1, j - w0)
    inside = and_(k >= 0, k < 81)
    if r is None:
        V.check("outside the nines", not_(inside))
        return
    V.check("within the nines", inside)
    V.check("day of the nine", r.getIndex() == k % 9 + 1)
    n = [i for i in range(1, 10) if r.getName() == NUM[i] + "九"]
    V.check("which nine", len(n) == 1 and n[0] == k // 9 + 1)


def u_fu(V):
    """the first ten days from the third 庚 day of 夏至 on, the last ten from the first 庚 day of 立秋 on, the middle between"""
    a, t = instant(V)
    u = lunar(V, a, t, SKIP, None)
    j, x, q = dated(V, a, u.T(13), u.T(16))
    if V.symbolic:
        V.assume(and_(q - x >= 42, q - x <= 48))
    r = u.lunar.getFu()
    first = x + (6 - (x + 9) % 10) % 10 + 20
    last = q + (6 - (q + 9) % 10) % 10
    inside = and_(j >= first, j < last + 10)
    if r is None:
        V.check("outside the dog days", not_(inside))
        return
    V.check("within the dog days", inside)
    want = {"初伏": (first, first + 10), "中伏": (first + 10, last), "末伏": (last, last + 10)}
    V.check("a name", r.getName() in want)
    lo, hi = want[r.getName()]
    V.check("which ten", and_(j >= lo, j < hi))
    V.check("day of the ten", r.getIndex() == j - lo + 1)


def u_hou(V):
    """pentads of a term: five days each, the last takes the rest"""
    i = V.choice("term", list(range(24)))
    a, t = date(V), time_(V)
    k = V.int("days", 0, 16)
    lib = V.lib
    if V.symbolic:
        s = mk_solar(V, *(a + t))
        d = fresh_date(V.p, "term", 0, 10000)
        ts = time_(V, "term.")
        V.assume(jdn(*a) - jdn(*d) == k)
        sj = mk_solar(V, *(d + ts))
        L = P.make(V, {}, _Lunar__solar=s)
        old = lib.Lunar.getPrevJieQi

        def prev(self, whole=False):
            if whole is not True:
                raise Unsupported("term before the instant")
            return lib.JieQi(NAMES[(i + 1) % 24], sj)
        lib.Lunar.getPrevJieQi = prev
        try:
            wu, hou = L.getWuHou(), L.getHou()
        finally:
            lib.Lunar.getPrevJieQi = old
    else:
        jd = lib.LunarYear.fromYear(a[0]).getJieQiJulianDays()[(i + 1) % 24]
        sj = lib.Solar.fromJulianDay(jd)
        k = V.int("k", 0, 13)
        V.assume(jdn_of(sj) + k <= J_MAX)
        L = mk_solar(V, *(tuple(from_jdn(jdn_of(sj) + k)) + t)).getLunar()
        wu, hou = L.getWuHou(), L.getHou()
    n = ite(k < 5, 0, ite(k < 10, 1, 2))
    V.check("pentad by name", or_(*[and_(n == x, wu == WU_HOU[3 * i + x]) for x in range(3)]))
    V.check("pentad by number", or_(*[and_(n == x, hou == NAMES[(i + 1) % 24] + " " + HOU[x]) for x in range(3)]))


def u_words(V):
    """what follows from the lunar month and day alone"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    d = V.choice("day", list(range(1, 31)))
    if V.symbolic:
        L = P.make(V, {}, _Lunar__month=m, _Lunar__day=d)
    else:
        y = V.int("year", 1, 9000)
        M = V.lib.LunarMonth.fromYm(y, m)
        V.assume(M is not None and d <= M.getDayCount())
        L = V.lib.Lunar.fromYmd(y, m, d)
    V.check("six days", L.getLiuYao() == LIU[(abs(m) - 1 + d - 1) % 6])
    V.check("phase", L.getYueXiang() == MOON[d - 1])
    V.check("month in words", L.getMonthInChinese() == ("闰" if m < 0 else "") + MONTHS[abs(m) - 1])
    V.check("day in words", L.getDayInChinese() == DAYS[d - 1])
    V.check("season", L.getSeason() == SEASONS[abs(m) - 1])


def u_year_words(V):
    """every year in words, digit by digit; the text of the lunar date"""
    y = V.int("year", 1, 9999)
    if V.symbolic:
        L = P.make(V, {}, _Lunar__year=y, _Lunar__month=-2, _Lunar__day=21)
    else:
        L = P.make(V, {}, _Lunar__year=y, _Lunar__month=-2, _Lunar__day=21)
    w = "".join(NUM[int(c)] for c in str(y))
    V.check("year in words", L.getYearInChinese() == w)
    V.check("text", L.toString() == w + "年闰二月廿一")
    V.check("text by str", str(L) == w + "年闰二月廿一")


def u_lu(V):
    """the day's 禄: the branch of its stem; the stems of its branch"""
    d = V.choice("pillar", list(range(60)))
    L = P.make(V, {("Day", ""): d})
    g, z = GAN[d % 10], ZHI[d % 12]
    w = LU[g] + "命互禄"
    h = [x for x in GAN if LU[x] == z]
    if h:
        w += " " + ",".join(h) + "命进禄"
    V.check("禄", L.getDayLu() == w)


UNITS = [
    Unit("nine-nines", u_jiu, ["Lunar.getShuJiu"], stubs=[ST_SUBTRACT] + ST_NEXT_ORDERED, exact=False, samples=3000, opaque=True),
    Unit("dog-days", u_fu, ["Lunar.getFu"], stubs=[get_lunar, ST_SUBTRACT] + ST_NEXT_ORDERED, exact=False, samples=4000, opaque=True),
    Unit("pentads", u_hou, ["Lunar.getWuHou", "Lunar.getHou"], stubs=[ST_SUBTRACT], exact=False, samples=2500, opaque=True),
    Unit("words", u_words, ["Lunar.getLiuYao", "Lunar.getYueXiang", "Lunar.getMonthInChinese", "Lunar.getDayInChinese", "Lunar.getSeason"],
         samples=1500),
    Unit("year-words", u_year_words, ["Lunar.getYearInChinese", "Lunar.toString"], prove=False,
         sweep=lambda tier: [{"year": y} for y in range(1, 10000)], over="every year 1..9999 (exhaustive)"),
    Unit("lu", u_lu, ["Lunar.getDayLu"], samples=100),
]
