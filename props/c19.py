"""C19 what the almanac says of a pillar: names, clashes, positions, mansions, day officers"""
from dv.engine import Unit
from dv.pillars import *
from dv.lunarspec import instant, mk_solar

NAYIN = ("海中金", "炉中火", "大林木", "路旁土", "剑锋金", "山头火", "涧下水", "城头土", "白蜡金", "杨柳木", "泉中水", "屋上土", "霹雳火",
         "松柏木", "长流水", "沙中金", "山下火", "平地木", "壁上土", "金箔金", "覆灯火", "天河水", "大驿土", "钗钏金", "桑柘木", "大溪水",
         "沙中土", "天上火", "石榴木", "大海水")
DESC = {"坎": "正北", "艮": "东北", "震": "正东", "巽": "东南", "离": "正南", "坤": "西南", "兑": "正西", "乾": "西北", "中": "中宫"}
XI = "艮乾坤离巽" * 2
YANG_GUI = "坤坤兑乾艮坎离艮震巽"
YIN_GUI = "艮坎乾兑坤坤艮离巽震"
FU = {1: "巽巽震震坎离坤坤乾兑", 2: "坎坤乾巽艮" * 2}
CAI = "艮艮坤坤坎坎震震离离"
SUI = "坎艮艮震巽巽离坤坤兑坎坎"          # the year's branch
STEM_PLACE = "震震离离中中兑兑坎坎"
OFFICERS = "建除满平定执破危成收开闭"
SPIRITS = ("青龙", "明堂", "天刑", "朱雀", "金匮", "天德", "白虎", "玉堂", "天牢", "玄武", "司命", "勾陈")
MANSIONS = "角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸"
BEASTS = "蛟龙貉兔狐虎豹獬牛蝠鼠燕猪獝狼狗彘鸡乌猴猿犴羊獐马鹿蛇蚓"
PENG_GAN = ("甲不开仓财物耗散", "乙不栽植千株不长", "丙不修灶必见灾殃", "丁不剃头头必生疮", "戊不受田田主不祥", "己不破券二比并亡",
            "庚不经络织机虚张", "辛不合酱主人不尝", "壬不泱水更难提防", "癸不词讼理弱敌强")
PENG_ZHI = ("子不问卜自惹祸殃", "丑不冠带主不还乡", "寅不祭祀神鬼不尝", "卯不穿井水泉不香", "辰不哭泣必主重丧", "巳不远行财物伏藏",
            "午不苫盖屋主更张", "未不服药毒气入肠", "申不安床鬼祟入房", "酉不会客醉坐颠狂", "戌不吃犬作怪上床", "亥不嫁娶不利新郎")
LU_OF = "寅卯巳午巳午申酉亥子"


def u_names(V):
    kind = V.choice("pillar", list(KINDS))
    suffix = V.choice("which", list(KINDS[kind]))
    i = V.choice("i", list(range(60)))
    L = make(V, {(kind, suffix): i})
    g = lambda n: getattr(L, "get%s%s%s" % (kind, n, suffix))()
    V.check("stem", g("Gan") == GAN[i % 10])
    V.check("branch", g("Zhi") == ZHI[i % 12])
    V.check("pillar", g("InGanZhi") == JZ[i])
    for p, sx, x, n in index_getters():
        if (p, sx) == (kind, suffix):
            V.check("numbers of stem and branch", getattr(L, n)() == i % (10 if x == "Gan" else 12))
    V.check("decade", g("Xun") == JZ[i // 10 * 10])
    V.check("void branches", g("XunKong") == ZHI[(i // 10 * 10 + 10) % 12] + ZHI[(i // 10 * 10 + 11) % 12])
    if not (kind == "Day" and suffix):
        V.check("animal", g("ShengXiao") == ANIMALS[i % 12])
    if not suffix:
        V.check("melodic element", g("NaYin") == NAYIN[i // 2])
    V.check("place in the cycle", V.lib.util.LunarUtil.getJiaZiIndex(JZ[i]) == i)
    V.check("decade of a text", and_(V.lib.util.LunarUtil.getXunIndex(JZ[i]) == i // 10, V.lib.util.LunarUtil.getXun(JZ[i]) == JZ[i // 10 * 10],
                                     V.lib.util.LunarUtil.getXunKong(JZ[i]) == ZHI[(i // 10 * 10 + 10) % 12] + ZHI[(i // 10 * 10 + 11) % 12]))


def lore(V, i, g):
    """what day and hour pillars have in common"""
    s, b = i % 10, i % 12
    V.check("clashing branch: the opposite one", g("Chong") == ZHI[(b + 6) % 12])
    V.check("clashing stem", g("ChongGan") == GAN[(s + 4) % 10])
    V.check("clashing stem of the other polarity", g("ChongGanTie") == GAN[(s + (5 if s % 2 == 0 else 3)) % 10])
    V.check("clashing animal", g("ChongShengXiao") == ANIMALS[(b + 6) % 12])
    V.check("text of the clash", g("ChongDesc") == "(%s%s)%s" % (GAN[(s + 4) % 10], ZHI[(b + 6) % 12], ANIMALS[(b + 6) % 12]))
    V.check("煞", g("Sha") == "南东北西"[b % 4])
    for n, t in (("Xi", XI), ("YangGui", YANG_GUI), ("YinGui", YIN_GUI), ("Cai", CAI)):
        V.check("position of " + n, g("Position" + n) == t[s])
        V.check("its direction " + n, g("Position%sDesc" % n) == DESC[t[s]])
    V.check("position of Fu", and_(g("PositionFu", 1) == FU[1][s], g("PositionFu", 2) == FU[2][s], g("PositionFu") == FU[2][s]))
    V.check("its direction Fu", and_(g("PositionFuDesc", 1) == DESC[FU[1][s]], g("PositionFuDesc", 2) == DESC[FU[2][s]],
                                        g("PositionFuDesc") == DESC[FU[2][s]]))


def named(o, p):
    def g(n, *a):
        return getattr(o, "get" + (p + n))(*a)
    return g


def u_day(V):
    i = V.choice("i", list(range(60)))
    L = make(V, {("Day", ""): i})
    lore(V, i, named(L, "Day"))
    lore(V, i, lambda n, *a: named(L, "")(n, *a) if "Fu" not in n else named(L, "Day")(n, *a))
    V.check("position of Fu, short name", and_(L.getPositionFu() == FU[2][i % 10], L.getPositionFuDesc() == DESC[FU[2][i % 10]]))
    V.check("彭祖百忌", and_(L.getPengZuGan() == PENG_GAN[i % 10], L.getPengZuZhi() == PENG_ZHI[i % 12]))
    b = [GAN[j] for j in range(10) if LU_OF[j] == ZHI[i % 12]]
    V.check("禄", L.getDayLu() == LU_OF[i % 10] + "命互禄" + (" " + ",".join(b) + "命进禄" if b else ""))
    p = L.getDayPositionTai()
    V.check("胎神: by the stem's partners", any(x in p for x in ("门", "碓磨", "厨灶", "仓库", "房床")[i % 5].split()) or i in (29, 59))
    V.check("胎神: by the branch's opposites", i in (6, 36) or ("碓", "厕", "炉", "门", "栖", "床")[i % 6] in p)
    V.check("胎神: where", p.split(" ")[1] == TAI_WHERE[i])


TAI_WHERE = (["外东南"] * 2 + ["外正南"] * 5 + ["外西南"] * 6 + ["外正西"] * 5 + ["外西北"] * 6 + ["外正北"] * 5 + ["房内北"] * 5
             + ["房内中"] * 2 + ["房内南"] * 3 + ["房内西"] + ["房内东"] * 4 + ["房内中"] + ["外东北"] * 6 + ["外正东"] * 5 + ["外东南"] * 4)


def u_hour(V):
    i = V.choice("i", list(range(60)))
    lore(V, i, named(make(V, {("Time", ""): i}), "Time"))
    T = make_time(V, i % 12, i % 10, make(V, {}))
    lore(V, i, named(T, ""))
    V.check("LunarTime: names", and_(T.getGan() == GAN[i % 10], T.getZhi() == ZHI[i % 12], T.getGanZhi() == JZ[i], T.toString() == JZ[i],
                                     T.getShengXiao() == ANIMALS[i % 12], T.getNaYin() == NAYIN[i // 2], T.getXun() == JZ[i // 10 * 10],
                                     T.getXunKong() == ZHI[(i // 10 * 10 + 10) % 12] + ZHI[(i // 10 * 10 + 11) % 12]))


def u_officers(V):
    """建除 and 黄道黑道"""
    m = V.choice("month branch", list(range(12)))
    d = V.choice("day branch", list(range(12)))
    L = make(V, {("Month", ""): (None, m), ("Day", ""): (None, d)})
    V.check("建除: 建 when day and month share the branch, then one by one", L.getZhiXing() == OFFICERS[(d - m) % 12])
    # 青龙 starts at 申 in 子/午 months, then every second branch: 子午申 丑未戌 寅申子 卯酉寅 辰戌辰 巳亥午
    s = SPIRITS[(d - 8 - m % 6 * 2) % 12]
    V.check("the spirit of the day", L.getDayTianShen() == s)
    k = "黄道" if s in ("青龙", "明堂", "金匮", "天德", "玉堂", "司命") else "黑道"
    V.check("its kind", L.getDayTianShenType() == k)
    V.check("its luck", L.getDayTianShenLuck() == ("吉" if k == "黄道" else "凶"))
    L = make(V, {("Day", "Exact"): (None, m), ("Time", ""): (None, d)})
    for o, p in ((L, "Time"), (make_time(V, d, d % 2 if not V.symbolic else Poison("stem"), make(V, {("Day", "Exact"): (None, m)})), "")):
        V.check("the spirit of the hour", and_(named(o, p)("TianShen") == s, named(o, p)("TianShenType") == k,
                                               named(o, p)("TianShenLuck") == ("吉" if k == "黄道" else "凶")))


def u_mansion(V):
    """the 28 mansions follow each other day by day: over the 84 days after which weekday and branch repeat"""
    r = V.choice("r", list(range(84)))
    zhi, week = (r - 11) % 12, (r + 1) % 7
    L = make(V, {("Day", ""): (None, zhi)}, **{week_field(V): week})
    k = (r + 11) % 28
    V.check("mansion", L.getXiu() == MANSIONS[k])
    V.check("its element", L.getZheng() == "木金土日月火水"[k % 7])
    V.check("its animal", L.getAnimal() == BEASTS[k])
    V.check("its palace", L.getGong() == "东北西南"[k // 7])
    V.check("its beast", L.getShou() == ("青龙", "玄武", "白虎", "朱雀")[k // 7])
    V.check("its luck", L.getXiuLuck() == ("吉" if MANSIONS[k] in "角房尾箕斗室壁娄胃毕参井张轸" else "凶"))
    V.check("its song", L.getXiuSong()[0] == MANSIONS[k] and len(L.getXiuSong()) == 64)


def week_field(V):
    L = V.lib.Lunar
    o = V.lib.Solar.fromYmd(2024, 2, 4).getLunar()
    if "_Lunar__weekIndex" in vars(o):
        return "_Lunar__weekIndex"
    return behind(V, "_Lunar__week")


def u_sui(V):
    """太岁"""
    y = V.choice("year branch", list(range(12)))
    sect = V.choice("sect", [1, 2, 3])
    L = make(V, {("Year", {1: "", 2: "ByLiChun", 3: "Exact"}[sect]): (None, y)})
    V.check("of the year", and_(L.getYearPositionTaiSui(sect) == SUI[y], L.getYearPositionTaiSuiDesc(sect) == DESC[SUI[y]]))
    i = V.choice("i", list(range(60)))
    s = "Exact" if sect == 3 else ""
    m = i
    L = make(V, {("Month", s): m})
    want = "艮坤巽"[(0, None, 1, 2)[(m - 2) % 4]] if (m - 2) % 4 != 1 else STEM_PLACE[m % 10]
    V.check("of the month", and_(L.getMonthPositionTaiSui(sect) == want, L.getMonthPositionTaiSuiDesc(sect) == DESC[want]))
    L = make(V, {("Year", {1: "", 2: "ByLiChun", 3: "Exact"}[sect]): (None, y), ("Day", "Exact2" if sect == 2 else ""): i})
    want = "震离中兑坎"[i // 12] if i % 12 < 6 else SUI[y]
    V.check("of the day", and_(L.getDayPositionTaiSui(sect) == want, L.getDayPositionTaiSuiDesc(sect) == DESC[want]))
    if sect == 2:
        V.check("of the day, unless told otherwise", and_(L.getDayPositionTaiSui() == want, L.getDayPositionTaiSuiDesc() == DESC[want]))
        V.check("of the year, unless told otherwise", and_(L.getYearPositionTaiSui() == SUI[y], L.getYearPositionTaiSuiDesc() == DESC[SUI[y]]))
        L = make(V, {("Month", s): m})
        want = "艮坤巽"[(0, None, 1, 2)[(m - 2) % 4]] if (m - 2) % 4 != 1 else STEM_PLACE[m % 10]
        V.check("of the month, unless told otherwise", and_(L.getMonthPositionTaiSui() == want, L.getMonthPositionTaiSuiDesc() == DESC[want]))


TAI_MONTH = ("占房床", "占户窗", "占门堂", "占厨灶", "占房床", "占床仓", "占碓磨", "占厕户", "占门房", "占房床", "占灶炉", "占房床")


def u_womb(V):
    """胎神 of the month: by the lunar month, none in a leap month"""
    m = V.choice("month", [x for x in range(-12, 13) if x])
    if V.symbolic:
        L = make(V, {}, _Lunar__month=m)
    else:
        y = V.int("year", 1, 9000)
        V.assume(V.lib.LunarMonth.fromYm(y, m) is not None)
        L = V.lib.Lunar.fromYmd(y, m, 1 + y % 29)
    V.check("胎神 of the month", L.getMonthPositionTai() == ("" if m < 0 else TAI_MONTH[m - 1]))


def u_indices(V):
    """numbers and names of stems and branches go together, in every variant (real instants)"""
    a, t = instant(V, ymin=100, ymax=9000)
    if V.int("late", 0, 3) == 0:
        t = (23,) + tuple(t[1:])
    L = mk_solar(V, *(tuple(a) + tuple(t))).getLunar()
    for p, s, x, g in index_getters():
        V.check("number and name of %s%s" % (p, x), getattr(L, "get%s%s%s" % (p, x, s))() == (GAN if x == "Gan" else ZHI)[getattr(L, g)()])
        V.check("pillar of its names", getattr(L, "get%sInGanZhi%s" % (p, s))() ==
                getattr(L, "get%sGan%s" % (p, s))() + getattr(L, "get%sZhi%s" % (p, s))())


UNITS = [
    Unit("indices", u_indices, ["Lunar.get%s%sIndex%s" % (p, x, s) for p, s, x, g in index_getters()], prove=False, samples=700),
    Unit("womb-month", u_womb, ["Lunar.getMonthPositionTai"], samples=300),
    Unit("names", u_names, ["Lunar.get%s%s" % (k, n) for k in KINDS for n in ("Gan", "Zhi", "InGanZhi", "Xun", "XunKong", "ShengXiao", "NaYin")]
         + ["Lunar." + g for p, s, x, g in index_getters()] + ["LunarUtil.getJiaZiIndex", "LunarUtil.getXunIndex", "LunarUtil.getXun", "LunarUtil.getXunKong"], samples=1000),
    Unit("day", u_day, ["Lunar.getDay" + n for n in ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "Sha", "PositionXi",
                        "PositionYangGui", "PositionYinGui", "PositionCai", "PositionFu", "PositionTai", "Lu")] + ["Lunar.getPengZuGan",
                        "Lunar.getPengZuZhi"], samples=300),
    Unit("hour", u_hour, ["Lunar.getTime" + n for n in ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "Sha")]
         + ["LunarTime.get" + n for n in ("Chong", "ChongGan", "ChongGanTie", "ChongShengXiao", "ChongDesc", "Sha", "NaYin", "Xun")], samples=300),
    Unit("officers", u_officers, ["Lunar.getZhiXing", "Lunar.getDayTianShen", "Lunar.getTimeTianShen", "LunarTime.getTianShen"], samples=500),
    Unit("mansion", u_mansion, ["Lunar.getXiu", "Lunar.getZheng", "Lunar.getAnimal", "Lunar.getGong", "Lunar.getShou", "Lunar.getXiuLuck",
                                "Lunar.getXiuSong"], samples=300),
    Unit("tai-sui", u_sui, ["Lunar.getYearPositionTaiSui", "Lunar.getMonthPositionTaiSui", "Lunar.__getMonthPositionTaiSui",
                            "Lunar.getDayPositionTaiSui", "Lunar.__getDayPositionTaiSui"], samples=1500),
]
