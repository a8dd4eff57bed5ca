"""C13 what is derived from the eight characters"""
from dv.engine import Unit
from dv.pillars import *

HIDE = ("癸", "己癸辛", "甲丙戊", "乙", "戊乙癸", "丙庚戊", "丁己", "己丁乙", "庚壬戊", "辛", "戊辛丁", "壬甲")
ELEMENT = "木火土金水"
ZHI_ELEMENT = "水土木木土火火土金金土水"
GODS = (("比肩", "劫财"), ("食神", "伤官"), ("偏财", "正财"), ("七杀", "正官"), ("偏印", "正印"))
BIRTH = (11, 6, 2, 9, 2, 9, 5, 0, 8, 3)                # the branch each stem is born in
STAGES = ("长生", "沐浴", "冠带", "临官", "帝旺", "衰", "病", "死", "墓", "绝", "胎", "养")
NAYIN = ("海中金", "炉中火", "大林木", "路旁土", "剑锋金", "山头火", "涧下水", "城头土", "白蜡金", "杨柳木", "泉中水", "屋上土", "霹雳火",
         "松柏木", "长流水", "沙中金", "山下火", "平地木", "壁上土", "金箔金", "覆灯火", "天河水", "大驿土", "钗钏金", "桑柘木", "大溪水",
         "沙中土", "天上火", "石榴木", "大海水")


def god(day, other):
    """十神: by the cycle of the elements and the polarity of the two stems"""
    return GODS[(other // 2 - day // 2) % 5][(day - other) % 2]


def stage(day, zhi):
    """长生十二神: yang stems forwards, yin stems backwards from the branch of birth"""
    return STAGES[((zhi - BIRTH[day]) if day % 2 == 0 else (BIRTH[day] - zhi)) % 12]


def u_relations(V):
    """each pillar against the day's stem"""
    kind = V.choice("pillar", list(KINDS))
    sect = V.choice("sect", [2, 1])
    i = V.choice("i", list(range(60)))
    ds = "Exact2" if sect == 2 else "Exact"
    if kind == "Day":
        P = {("Day", ds): i}
        dg = i % 10
    else:
        dg = V.choice("day stem", list(range(10)))
        P = {("Day", ds): (dg, None), (kind, {"Year": "Exact", "Month": "Exact", "Time": ""}[kind]): i}
    e = V.lib.EightChar(make(V, P))
    e.setSect(sect)
    g = lambda n: getattr(e, "get" + kind + n)()
    V.check("pillar", g("") == JZ[i])
    V.check("stem", g("Gan") == GAN[i % 10])
    V.check("branch", g("Zhi") == ZHI[i % 12])
    V.check("hidden stems", list(g("HideGan")) == list(HIDE[i % 12]))
    V.check("elements", g("WuXing") == ELEMENT[i % 10 // 2] + ZHI_ELEMENT[i % 12])
    V.check("melodic element", g("NaYin") == NAYIN[i // 2])
    V.check("the stem's god", g("ShiShenGan") == ("日主" if kind == "Day" else god(dg, i % 10)))
    V.check("the hidden stems' gods", list(g("ShiShenZhi")) == [god(dg, GAN.index(x)) for x in HIDE[i % 12]])
    V.check("stage of life", g("DiShi") == stage(dg, i % 12))
    V.check("decade", g("Xun") == JZ[i // 10 * 10])
    V.check("void branches", g("XunKong") == ZHI[(i // 10 * 10 + 10) % 12] + ZHI[(i // 10 * 10 + 11) % 12])


def u_conception(V):
    m = V.choice("month", list(range(60)))
    e = V.lib.EightChar(make(V, {("Month", "Exact"): m}))
    x = pillar((m + 1) % 10, (m + 3) % 12)
    V.check("胎元: next stem, third branch after", e.getTaiYuan() == JZ[x])
    V.check("its melodic element", e.getTaiYuanNaYin() == NAYIN[x // 2])
    sect = V.choice("sect", [2, 1])
    e = V.lib.EightChar(make(V, {("Day", "Exact2" if sect == 2 else "Exact"): m}))
    e.setSect(sect)
    x = pillar((m + 5) % 10, (1 - m) % 12)
    V.check("胎息: the partners of stem and branch", e.getTaiXi() == JZ[x])
    V.check("its melodic element ", e.getTaiXiNaYin() == NAYIN[x // 2])


def u_palaces(V):
    yg = V.choice("year stem", list(range(10)))
    k = V.choice("month", list(range(12)))              # 0 = 寅
    z = V.choice("double hour", list(range(12)))
    e = V.lib.EightChar(make(V, {("Year", "Exact"): (yg, None), ("Month", "Exact"): (None, (k + 2) % 12), ("Time", ""): (None, z)}))
    first = yg % 5 * 2 + 2                                # the stem of 寅
    # 命宫: months counted backwards and hours forwards from 子 until 卯
    b = (15 - (k + 1) - ((z - 2) % 12 + 1)) % 12
    x = pillar((first + (b - 2) % 12) % 10, b)
    V.check("命宫", e.getMingGong() == JZ[x])
    V.check("its melodic element", e.getMingGongNaYin() == NAYIN[x // 2])
    # 身宫: both forwards
    b = (k + 1 + z + 2) % 12
    x = pillar((first + (b - 2 if b != 1 else -1) % 12 - (12 if b == 1 else 0)) % 10, b)
    V.check("身宫", e.getShenGong() == JZ[x])
    V.check("its melodic element ", e.getShenGongNaYin() == NAYIN[x // 2])


def u_lists(V):
    """what Lunar lists of the eight characters"""
    P = {("Year", "Exact"): V.choice("year", list(range(0, 60, 7))), ("Month", "Exact"): V.choice("month", list(range(0, 60, 11))),
         ("Day", "Exact2"): V.choice("day", list(range(60))), ("Time", ""): V.choice("time", list(range(0, 60, 13)))}
    L = make(V, P)
    y, m, d, t = P.values()
    four = [y, m, d, t]
    V.check("pillars", list(L.getBaZi()) == [JZ[i] for i in four])
    V.check("elements", list(L.getBaZiWuXing()) == [ELEMENT[i % 10 // 2] + ZHI_ELEMENT[i % 12] for i in four])
    V.check("melodic elements", list(L.getBaZiNaYin()) == [NAYIN[i // 2] for i in four])
    gods = [god(d % 10, i % 10) for i in four]
    gods[2] = "日主"
    V.check("gods of the stems", list(L.getBaZiShiShenGan()) == gods)
    hidden = [[god(d % 10, GAN.index(x)) for x in HIDE[i % 12]] for i in four]
    V.check("gods of the branches", list(L.getBaZiShiShenZhi()) == [h[0] for h in hidden])
    for n, h in zip(("Year", "Month", "Day", "Time"), hidden):
        V.check("gods of one branch", list(getattr(L, "getBaZiShiShen%sZhi" % n)()) == h)
    V.check("text", L.getEightChar().toString() == " ".join(JZ[i] for i in four))


NAMES4 = ("Year", "Month", "Day", "Time")
UNITS = [
    Unit("relations", u_relations, ["EightChar.get%s%s" % (p, n) for p in NAMES4 for n in
                                    ("", "Gan", "Zhi", "HideGan", "WuXing", "NaYin", "ShiShenGan", "ShiShenZhi", "DiShi", "Xun", "XunKong")]
         + ["EightChar.__getDiShi", "EightChar.__getShiShenZhi"], samples=3000),
    Unit("conception", u_conception, ["EightChar.getTaiYuan", "EightChar.getTaiXi"], samples=500),
    Unit("palaces", u_palaces, ["EightChar.getMingGong", "EightChar.getShenGong"], samples=2000),
    Unit("lists", u_lists, ["Lunar.getBaZi", "Lunar.getBaZiWuXing", "Lunar.getBaZiNaYin", "Lunar.getBaZiShiShenGan",
                            "Lunar.getBaZiShiShenZhi"], samples=1000),
]
