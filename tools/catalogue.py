TECH = "deductive contracts on the real code (path-wise obligations, loop invariants, z3/cvc5)"
NOTE = ("Every listed unit's obligations are generated from /repo's current source and discharged for all inputs of the "
        "stated domain; callers use callees' contracts. Trusted: the obligation generator (cross-checked on every run against "
        "CPython), the instrumentation, z3/cvc5. Python integers are mathematical; doubles are modelled with their rounding. ")
PROPERTIES = [
 dict(id="C01", title="Civil day arithmetic across the 1582 calendar switch",
  statement="Year and month lengths, the day of the year, the number of days between two dates and the date n days before or after another one all agree with one continuous count of days, in which 1582-10-15 follows 1582-10-04, years before 1600 divisible by four are leap and later ones follow the Gregorian rule. Moving by n days always yields a date that exists, keeps the time of day and leaves the receiver as it was.",
  quant="every civil date of the years -99..10099 (1..9999 for differences), every whole number of days n in ±4,000,000, every time of day",
  why="The tests try some tens of dates and offsets; the claim is about every date and every offset, and the offsets are reached by loops over months and years whose behaviour at leap years, year ends and October 1582 a sample cannot settle.",
  files=["lunar_python/Solar.py", "lunar_python/util/SolarUtil.py"],
  mech=[("month-by-month carrying loop", "Solar.nextDay"), ("sum of year lengths", "SolarUtil.getDaysBetween"), ("leap rule and the 21-day October", "SolarUtil.isLeapYear, getDaysOfMonth, getDaysInYear")],
  tech=TECH, note=NOTE + "Loop invariants of nextDay and getDaysBetween are inferred (Houdini over a template) and proved."),
 dict(id="C02", title="Julian day numbers convert both ways without drift",
  statement="The Julian day of an instant is its day count plus the elapsed fraction of the day, exact at noon and midnight. Converting any Julian day back gives an existing date and the nearest whole second, carrying into the next minute, hour, day, month or year where needed, so that the round trip of every instant returns that instant.",
  quant="every instant to the second of the years 1..9999; every double Julian day of that range on the grid of its binade (2^-32, 2^-31, 2^-30 day)",
  why="The tests convert a few instants; the carries happen in half a second of each day and the floating-point rounding differs from day to day.",
  files=["lunar_python/Solar.py"],
  mech=[("calendar to Julian day", "Solar.getJulianDay"), ("Julian day to calendar with carries", "Solar.fromJulianDay")],
  tech=TECH, note=NOTE + "Left out: in the half day before Julian days 2^21 and 2^22 the doubles finer than 2^-31 (2^-30) day."),
 dict(id="C03", title="Weekdays and weeks: rows of the month, no day lost or repeated",
  statement="The weekday of every date is the day count modulo seven; a week with any first weekday has seven consecutive days that begin on it and include the day. The index of a week in its month or year, the number of weeks of a month, the list of its weeks and stepping week by week (within months or across them) all describe the same rows of the month's calendar.",
  quant="every date of the years 1..9999, every first weekday 0..6, every number of weeks in ±500; steps separated by month: one step either way for every week (several steps: bounded)",
  why="The tests look at a few months; months have 4 to 6 rows depending on weekday, length and first weekday, and October 1582 has 21 days.",
  files=["lunar_python/Solar.py", "lunar_python/SolarWeek.py", "lunar_python/SolarMonth.py", "lunar_python/util/SolarUtil.py"],
  mech=[("weekday from the Julian day", "Solar.getWeek"), ("row index", "SolarWeek.getIndex, getIndexInYear"), ("stepping", "SolarWeek.next"), ("weeks of a month", "SolarMonth.getWeeks, SolarUtil.getWeeksOfMonth")],
  tech=TECH, note=NOTE + "Stepping several weeks separated by month is a bounded unit."),
 dict(id="C04", title="Months, seasons, half-years, years and hours: stepping is linear",
  statement="Stepping n months, seasons, half-years or years moves the month count by n, 3n, 6n or 12n; a date keeps its day of the month, or takes the month's last day when there is none, and always exists. Stepping n hours moves the instant by exactly n hours. A month, season, half-year and year list exactly their days and months in order, and their texts give the year and their number in it.",
  quant="every year 1..9999 and month, steps in ±100,000 months (seasons, half-years, years), ±50,000,000 hours, every date and time",
  why="The tests step a few times from a few dates; sign handling, carries over year ends, February 29 and October 1582 need every combination.",
  files=["lunar_python/SolarMonth.py", "lunar_python/SolarSeason.py", "lunar_python/SolarHalfYear.py", "lunar_python/SolarYear.py", "lunar_python/Solar.py"],
  mech=[("month carry", "SolarMonth.next"), ("clamping", "Solar.nextMonth, Solar.nextYear"), ("hour carry", "Solar.nextHour"), ("composition", "SolarMonth.getDays, SolarSeason.getMonths, SolarHalfYear.getMonths, SolarYear.getMonths")],
  tech=TECH, note=NOTE),
 dict(id="C05", title="Impossible solar components are rejected, possible ones kept",
  statement="Building a solar date or instant fails exactly when the month is not 1..12, the day not 1..31, the time of day not within 00:00:00..23:59:59, or the day is one of the ten dropped in October 1582; otherwise the object carries exactly the components given. Building units from a date keeps its year, month and day.",
  quant="every combination of integer components, in and out of range",
  why="The tests try a few wrong values; each component has its own limits and an object built from wrong ones corrupts everything computed from it.",
  files=["lunar_python/Solar.py", "lunar_python/util/SolarUtil.py"],
  mech=[("range checks", "Solar.__init__"), ("dropped days", "SolarUtil.getDaysInYear")],
  tech=TECH, note=NOTE),
 dict(id="C06", title="Order, differences and text of instants agree",
  statement="Before and after are strict total orders that agree with the passage of time; the difference of two instants in days and in minutes is that of their positions in time. The text of dates and instants has fixed width, carries every component and sorts as time does.",
  quant="every pair of instants of the years 1..9999",
  why="The tests compare a few pairs; comparisons cascade over six components and the library itself depends on their text order.",
  files=["lunar_python/Solar.py"],
  mech=[("cascaded comparison", "Solar.isBefore, Solar.isAfter"), ("differences", "Solar.subtract, Solar.subtractMinute"), ("text", "Solar.toYmd, Solar.toYmdHms")],
  tech=TECH, note=NOTE),
 dict(id="C07", title="Civil and lunar dates correspond one to one",
  statement="Converting a civil date to a lunar date and back returns the same civil instant; the lunar month and day found are those of the one month of the lunar table that contains the day, and consecutive civil days are consecutive lunar days. Lunar dates that do not exist (no such month, day beyond the month's length) are rejected, and moving a lunar date by n days moves its civil date by n days.",
  quant="every civil instant of the years 1..9999, every lunar year table with consecutive months of 29 or 30 days, every month, every day and n in ±4,000,000",
  why="The tests convert some hundred dates; leap months, years of 12 to 14 months and lunar years that begin before or after the civil year each take different paths.",
  files=["lunar_python/Lunar.py", "lunar_python/LunarYear.py", "lunar_python/LunarMonth.py"],
  mech=[("search of the month that contains a day", "Lunar.fromSolar"), ("day within a month", "Lunar.__init__"), ("stepping", "Lunar.next")],
  tech=TECH, note=NOTE + "LunarYear stands under its contract (a table of consecutive months with 29 or 30 days), which C08 evaluates for every year."),
 dict(id="C08", title="Every lunar year's table of months is well formed",
  statement="The table of each lunar year has consecutive months of 29 or 30 days, starting at the new moons, twelve or thirteen (in a few historical years otherwise) labelled with that year, at most one of them a leap month that repeats the number of the month before it. From the calendar rule in force since 1645 the winter solstice falls in month eleven and a leap month is the first without a mid-term, in a year with thirteen; tables of neighbouring years agree on the months they share.",
  quant="every lunar year 1..9999; the numbering rule for all possible new moons and terms",
  why="The tests look at some tens of years; the table of a year hangs on two series, correction tables and historical exceptions, and a slip in one year shifts every date of that year.",
  files=["lunar_python/LunarYear.py", "lunar_python/LunarMonth.py", "lunar_python/util/ShouXingUtil.py"],
  mech=[("numbering and leap month", "LunarYear.compute"), ("new moons and terms", "ShouXingUtil.calcShuo, calcQi"), ("look-up", "LunarYear.getMonth, getLeapMonth")],
  tech="deductive contracts for the numbering rule; exhaustive evaluation of the finite year range for the astronomical tables", level="other",
  note="Unit leap-rule is proved for every sequence of new moons and terms. The units over years evaluate every year of the finite domain on the untouched code against its contract and against pinned reference data of the 10,001 years (itself compared with Meeus' series and ICU's Chinese calendar)."),
 dict(id="C10", title="Solar terms: the nearest before, after and on a day",
  statement="The table of an instant holds 31 terms in order with their instants. The next (previous) term, or the next (previous) of the kind 节 or 气, is the first strictly after (the last not after) the instant, or the day when asked by whole days, none of that kind lying between; the term of a day is reported exactly on the civil day on which it begins. Names and kinds of terms agree.",
  quant="every instant of the years 1..9998, every placing of the terms within their windows; the windows and instants themselves: every year 1..9999",
  why="The tests sample a few days; the search compares texts of instants of neighbouring years, and only instants near a term or a year end tell a wrong comparison from a right one.",
  files=["lunar_python/Lunar.py", "lunar_python/JieQi.py", "lunar_python/LunarYear.py"],
  mech=[("nearest term", "Lunar.__getNearJieQi"), ("term of the day", "Lunar.getJieQi, getCurrentJieQi"), ("kind", "JieQi.setName")],
  tech=TECH, note=NOTE + "That each term lies in its window is evaluated for every year (exhaustive), not deduced from the series; the instants are compared with pinned reference data for every year."),
 dict(id="C11", title="Day and hour pillars advance without a break",
  statement="The day pillar is the day count in the sexagenary cycle, without a gap in 1582 or at year ends; the variants for the late 子 hour differ from it exactly from 23:00 on. The double hour of a time is the branch of its two-hour span and its stem follows from the stem of the day; the hours of a day list each span once, with the limits of each span.",
  quant="every instant of the years 1..9999, every time of day",
  why="The tests check some tens of pillars; sixty pillars times twelve spans with three conventions for the hour before midnight give cases a sample misses.",
  files=["lunar_python/Lunar.py", "lunar_python/LunarTime.py", "lunar_python/util/LunarUtil.py"],
  mech=[("day pillar", "Lunar.__computeDay"), ("hour pillar", "Lunar.__computeTime, LunarTime"), ("spans", "LunarTime.getMinHm, LunarTime.getMaxHm, LunarUtil.getTimeZhiIndex")],
  tech=TECH, note=NOTE),
 dict(id="C12", title="Year and month pillars change exactly at their terms",
  statement="The year pillar counted from 立春 changes on the day (or at the instant) 立春 begins and at no other time; the month pillar changes at each of the twelve 节 and advances by one each time. The year pillar by lunar year is that of the lunar year. Stem and branch of every pillar belong together.",
  quant="every instant of the years 1..9998, every placing of the terms within their windows, every place of the lunar new year",
  why="The tests check a few days near some terms; an off-by-one at the comparison or at the year's end shows only between 1 January, 立春 and lunar new year.",
  files=["lunar_python/Lunar.py"],
  mech=[("year pillar", "Lunar.__computeYear"), ("month pillar", "Lunar.__computeMonth")],
  tech=TECH, note=NOTE + "LunarYear stands under its contract (windows of the terms), evaluated for every year in C10."),
 dict(id="C13", title="What is derived from the eight characters follows the rules",
  statement="For every pillar of a birth the hidden stems, elements, melodic element, the ten gods of stem and hidden stems relative to the day's stem, the stage of life, the decade and its void branches follow the traditional rules; the pillars of conception, breath, life palace and body palace are derived from month, day, year and hour as the rules say; all take the day pillar of the chosen convention for the late 子 hour.",
  quant="every pillar, every stem of the day, every combination of year stem, month and double hour, both conventions",
  why="The tests check some tens of births; the rules are modular arithmetic over 60 pillars with polarity, where wrap-around and the second convention each touch a few combinations.",
  files=["lunar_python/EightChar.py", "lunar_python/Lunar.py", "lunar_python/util/LunarUtil.py"],
  mech=[("gods and stages", "EightChar.__getShiShenZhi, __getDiShi"), ("palaces", "EightChar.getMingGong, getShenGong"), ("conception", "EightChar.getTaiYuan, getTaiXi")],
  tech=TECH, note=NOTE + "The finite domain of pillars is split case by case, so obligations are discharged by evaluation of the real functions on an object that gives them the pillars and nothing else (anything else read leaves the unit undecided)."),
 dict(id="C19", title="Almanac attributes of pillars follow their traditional rules",
  statement="Names, animals, melodic elements, decades and void branches of every pillar belong to its place in the cycle of sixty. The clash of a day or hour is the opposite branch, positions of the spirits, 太岁 and 胎神 follow the stems and branches (胎神 of the month the lunar month; none in a leap month), the day officers and the spirits of the yellow and black way advance from the month's branch, and the twenty-eight mansions follow one another day by day with weekday and branch.",
  quant="every pillar of year, month, day and hour in each variant; every pair of month and day branch, day and hour branch; all 84 combinations of weekday and branch",
  why="The tests look at a few dates; a wrong entry or a wrong variant of a pillar shows only on the days that use it.",
  files=["lunar_python/Lunar.py", "lunar_python/LunarTime.py", "lunar_python/util/LunarUtil.py"],
  mech=[("names and variants", "Lunar.getYearInGanZhiExact ..."), ("clash, positions", "Lunar.getDayChong, getDayPositionTaiSui"), ("officers, spirits, mansions", "Lunar.getZhiXing, getDayTianShen, getXiu")],
  tech=TECH, note=NOTE + "The finite domain of pillars is split case by case; obligations are discharged by evaluation of the real functions on an object that gives them the pillars and nothing else."),
 dict(id="C14", title="From eight characters back to the instants that have them",
  statement="Searching the instants that have four given pillars, from a base year on, finds one in each double hour that has them and lists them in order, none twice, none before the base year; what is found has exactly these pillars under the chosen convention for the late 子 hour. Pillars that do not belong together give nothing.",
  quant="every four pillars (all pillars of year and day, all stems of month and hour, each branch of month and hour), both conventions, every base year 21..9998, every present year, every placing of the terms; every day and second of the month that has the pillars",
  why="The tests search some tens of births; a 节 that falls within the double hour, the month's first and last day and the late 子 hour are the cases where a search can pass by the one instant.",
  files=["lunar_python/Solar.py"],
  mech=[("search by year, term, day and hour", "Solar.fromBaZi")],
  tech=TECH, note=NOTE + "The loop over the years is cut: its inferred invariant is that the year counted keeps the pillar asked for and goes up by sixty from its first, and the contract of one iteration states which instants it adds (sound: within the month, day and hour of the pillars; complete: one in every double hour that has them and lies in the month and from the base year on; in order). Pillars of an instant (C11, C12), the table of terms (C10) and stepping of days (C01) stand under their contracts; day numbers are abstract. That the table is that of the civil year counted is swept over all years (bounded), and the whole contract is also evaluated on the untouched code."),
 dict(id="C15", title="Start of luck and the decades, years and months counted from it",
  statement="The time until luck starts is that from birth to the next (or, for the other direction, since the previous) 节, three days for a year, by the chosen convention; the direction follows sex and the year stem. The start date is birth plus that time. Decades, years and months of life follow one another without gap or overlap in year, age and pillar.",
  quant="every birth, every distance to the 节 before and after it, both sexes, both conventions, every pillar; every decade and year of the lists",
  why="The tests compute some tens of charts; carries between hours, days, months and years of the start and the partial decade before it depend on the exact distance.",
  files=["lunar_python/eightchar/Yun.py", "lunar_python/eightchar/DaYun.py", "lunar_python/eightchar/LiuNian.py", "lunar_python/eightchar/XiaoYun.py", "lunar_python/eightchar/LiuYue.py"],
  mech=[("start of luck", "Yun.__compute_start"), ("decades", "DaYun.__init__, Yun.getDaYun"), ("years", "DaYun.getLiuNian, getXiaoYun"), ("months", "LiuYue.getGanZhi")],
  tech=TECH, note=NOTE + "The 节 before and after stand under their contract (C10); pillars by cases."),
 dict(id="C16", title="Public holidays: look-ups by day, month, year, festival; corrections",
  statement="A day's record is found exactly when the schedule holds one for this day, whatever the year; the list of a month or year holds the records of its days in order, each once, and the list of a festival holds every day that belongs to it. After corrections (replaced, removed or added days, in any order and number, other names) every look-up answers as a table kept day by day would. The schedule of 2001-12-29..2025-10-11 is the published one.",
  quant="every day, month and year of 1..9999 (exhaustive); histories of corrections (bounded: random histories)",
  why="The tests look at some tens of days and one correction; the records are found by searching packed text for digits, where a match that is not a record, an order of days or a gap in a festival hides records.",
  files=["lunar_python/util/HolidayUtil.py", "lunar_python/Holiday.py"],
  mech=[("search in packed records", "HolidayUtil.__findForward, __findBackward"), ("corrections", "HolidayUtil.fix")],
  tech="contracts of the look-ups evaluated on the untouched code: exhaustively over the finite domain of dates, bounded over histories of corrections", level="other",
  note="Exhaustive over days, months and years with the shipped schedule; bounded (random histories of up to 4 corrections of up to 4 records) for HolidayUtil.fix. Not proved deductively: the state is a text of 14,778 characters searched by str.find. The schedule is compared with a pinned copy; days after it are only checked for form.",
  over=["inputs", "histories"]),
 dict(id="C17", title="Stepping over working days",
  statement="The day n working days after (before) a day is the working day with exactly n working days after (before) the start up to and including it; a day is a working day when its holiday record says so, or, without record, from Monday to Friday. The time of day is kept and the receiver is left as it was. Zero steps give the same instant.",
  quant="every date of the years 1..9999, every n in ±4,000,000, every assignment of holiday records to days",
  why="The tests step over one or two holidays; the count must come out for every run of holidays, make-up days and weekends, on either side.",
  files=["lunar_python/Solar.py"],
  mech=[("stepping", "Solar.next"), ("records", "HolidayUtil.getHoliday")],
  tech=TECH, note=NOTE + "The loop's invariant (working days passed plus steps left is constant) is inferred over a template and proved for an arbitrary schedule. Partial correctness: that working days never run out is assumed; days stay within the years -99..10099."),
 dict(id="C18", title="Festivals fall on their days",
  statement="Civil festivals are reported exactly on their month and day, or on the n-th or last weekday of their month; lunar festivals exactly on their lunar month and day and not in a leap month; 除夕 on the last day of a year that ends with month twelve; 寒食 the day before 清明; 春社 and 秋社 on the fifth 戊 day from 立春 and 立秋 on. The sign of the zodiac is the one whose span contains the day.",
  quant="every civil day of the years 1..9999; every lunar month and day; every placing of the terms within their windows",
  why="The tests check some tens of days; a festival shows once a year and depends on the weekday of the first, the length of the last month or a term that moves.",
  files=["lunar_python/Solar.py", "lunar_python/Lunar.py", "lunar_python/util/SolarUtil.py", "lunar_python/util/LunarUtil.py"],
  mech=[("fixed and weekday festivals", "Solar.getFestivals"), ("除夕 and fixed lunar festivals", "Lunar.getFestivals"), ("寒食, 春社, 秋社", "Lunar.getOtherFestivals"), ("sign", "Solar.getXingZuo")],
  tech=TECH, note=NOTE + "The lists of fixed festivals are compared with a pinned copy: a name it knows may be reported on its days only; further names are let pass."),
 dict(id="C20", title="Nine nines, dog days, pentads, six days, moon phases, dates in words",
  statement="The nine nines are the 81 days from the day of 冬至 on, at both ends of the civil year; the dog days begin with the third 庚 day of 夏至 on, the last ten with the first 庚 day of 立秋 on, the middle ten or twenty lie between, and no other day belongs to them. The pentads of a term have five days, the last the rest. The six days, the phase of the moon, season and the lunar date in words follow from lunar month and day, the year in words from its digits.",
  quant="every civil day of the years 1..9998 and every placing of the terms within their windows (夏至 to 立秋 42..48 days); every lunar month and day; every year 1..9999",
  why="The tests look at a few days of some years; whether the middle has ten or twenty days, which of two solstices counts, and the last day of each run turn on a day.",
  files=["lunar_python/Lunar.py", "lunar_python/util/LunarUtil.py", "lunar_python/ShuJiu.py", "lunar_python/Fu.py"],
  mech=[("nine nines", "Lunar.getShuJiu"), ("dog days", "Lunar.getFu"), ("pentads", "Lunar.getWuHou, getHou"), ("words", "Lunar.getYearInChinese, getMonthInChinese, getDayInChinese")],
  tech=TECH, note=NOTE + "Day arithmetic stands under its contract (C01), the stem of a day under C11, the term before under C10; distances of terms are evaluated for every year in C10. The year in words is evaluated for every year (exhaustive)."),
 dict(id="C21", title="Nine stars of years, months, days and hours",
  statement="The star of the year goes back by one each year (七赤 in 1984), by the chosen start of the year; that of the month goes back by one each month from the star that 寅 has in the kind of year. The stars of days ascend from the 甲子 day next to 冬至 on and descend from that next to 夏至 on, without a break within a run; those of hours start from the kind of day and ascend or descend with the solstices. Attributes of each star belong together.",
  quant="every year 1..9999, every pillar of year and month, every civil day of 1..9998 and every placing of the solstices within their windows, every hour",
  why="The tests look at a few years and days; the turning points move by up to thirty days, a run may have 180 or 240 days, and the new year falls within a run.",
  files=["lunar_python/Lunar.py", "lunar_python/LunarTime.py", "lunar_python/LunarYear.py", "lunar_python/LunarMonth.py", "lunar_python/NineStar.py"],
  mech=[("star of the year", "Lunar.getYearNineStar, LunarYear.getNineStar"), ("star of the month", "Lunar.getMonthNineStar, LunarMonth.getNineStar"), ("runs of days", "Lunar.getDayNineStar"), ("star of the hour", "Lunar.getTimeNineStar, LunarTime.getNineStar")],
  tech=TECH, note=NOTE + "Day arithmetic and day pillars stand under their contracts (C01, C11); distances between solstices (168..192 days) follow from the distances of terms evaluated for every year in C10."),
 dict(id="C22", title="What to do and what to avoid, good and evil spirits of days and hours",
  statement="For every pillar of the month and of the day, for every pillar of the day and of the hour, and for every lunar month with every pillar of the day, the lists of what is suited, what is to be avoided, the good and the evil spirits are those of the published tables, without loss, repetition or mixing of neighbouring records; where there is none the list is 无. Each view of a day or hour (by the plain or the exact pillar) takes its own pillars.",
  quant="all pairs of 60 x 60 pillars for days and hours, all 24 x 60 months and days",
  why="The tests look at a dozen days; the tables are packed texts in which records are found by searching for digits, where one wrong character shifts or hides records.",
  files=["lunar_python/util/LunarUtil.py", "lunar_python/Lunar.py", "lunar_python/LunarTime.py"],
  mech=[("packed tables", "LunarUtil.getDayYi, getDayJi, getTimeYi, getTimeJi, getDayJiShen, getDayXiongSha"), ("which pillars are looked up", "Lunar.getDayYi, getTimeYi, LunarTime.getYi")],
  tech=TECH, note=NOTE + "The domain is finite: every pair is an evaluation obligation. The reference tables are pinned copies of the published ones."),
 dict(id="C23", title="Buddhist and Taoist calendars",
  statement="The Buddhist year is the lunar year plus 544, the Taoist the lunar year plus 2697, with the lunar month and day; a date made from such a year is the lunar day with that number. Fasts (months 1, 5, 9; six days, the 28th in short months; ten days; 观音), 杨公忌, the 27 lodges, 三会, 三元, 五腊, 八节, 八会, 戊 days and 天赦 fall on their days by lunar date, term or pillar, and on no others; festivals are those of the tables, each once.",
  quant="every lunar month and day with every lunar year 1..9999 whatever the civil year; every term, every pillar of the day and branch of the month",
  why="The tests look at some twenty days; leap months, short months and the year around new year matter, and each day of the 360 has its own entry.",
  files=["lunar_python/Foto.py", "lunar_python/Tao.py", "lunar_python/util/FotoUtil.py", "lunar_python/util/TaoUtil.py", "lunar_python/FotoFestival.py", "lunar_python/TaoFestival.py"],
  mech=[("Buddhist calendar", "Foto"), ("Taoist calendar", "Tao"), ("27 lodges", "FotoUtil.getXiu")],
  tech=TECH, note=NOTE + "The length of the month stands under LunarMonth.fromYm's contract (C08), the term under C10, pillars under C11 and C12. Years in words are evaluated for every year (exhaustive). Festival tables are compared with a pinned copy: names it knows fall on their days only."),
 dict(id="C09", title="Lunar years and months as units: stepping, pillars, directions, omens",
  statement="The lunar month n months from another is the one with exactly n months between, leap months counted, and is the same month, with the same place, pillar and length, as the one got from its own year; years likewise. Months of a year are numbered from one on without a break and their pillars follow from the stem of the year and that place; directions follow from stem or branch; the omens of a year name the day of its first month that first has the branch or stem.",
  quant="every lunar year 1..9999, every place of a month, every n in ±200,000 and every sequence of common and leap years; every pillar of year, month and first day",
  why="The tests step a few months within some years; leap months, reform years and the shared months of neighbouring tables decide which month comes out.",
  files=["lunar_python/LunarMonth.py", "lunar_python/LunarYear.py"],
  mech=[("stepping", "LunarMonth.next, LunarYear.next"), ("pillar of a month", "LunarMonth.getGanIndex"), ("omens", "LunarYear.__getZaoByGan, __getZaoByZhi")],
  tech=TECH, note=NOTE + "The list of a year's months stands under its contract (C08: 11 to 13 months, in order, with distinct numbers); the loops' invariants and variants are inferred over a template and proved. Places of months in real years are evaluated exhaustively (thorough: all years)."),
 dict(id="C24", title="Results depend on inputs only: cache, threads, failures, order",
  statement="A lunar year asked for is complete and the one asked for, whatever was asked for before, fails or is asked for by other threads meanwhile; no failure leaves a lock held or a half-made year behind. Asking an object changes neither it nor the library's tables, and an object says the same before and after anything else is done with the library, as does one made anew.",
  quant="every year and every earlier year of the one-slot cache; interference of up to two calls of other threads at every point where no lock is held; bounded: random objects and histories of up to 5 operations",
  why="The tests run one call after another in one thread; a stale or half-filled cache, a lock kept after a failure or a table changed through a result only shows in certain histories or schedules.",
  files=["lunar_python/LunarYear.py", "lunar_python/LunarMonth.py", "lunar_python/Lunar.py", "lunar_python/EightChar.py", "lunar_python/util/LunarUtil.py"],
  mech=[("cached year and lock", "LunarYear.fromYear"), ("getters", "all public getters")],
  tech=TECH, note=NOTE + "Proved for LunarYear.fromYear with its tables left out (C08), threads modelled as arbitrary calls at lock operations, constructor and getYear; purity of getters and independence of history are bounded (random). Callers that modify lists the library returns are left out.",
  over=["inputs", "histories", "schedules"]),
 dict(id="C25", title="Instants of terms and new moons are the astronomical ones",
  statement="The instants given for the 24 solar terms are those at which the sun's apparent longitude reaches a multiple of 15 degrees, to within a minute in the years around the present, and months begin on the days of the true new moons.",
  quant="every term and new moon of the years around the present",
  why="The tests compare some tens of published instants; a coefficient of the series or of the clock correction that is off shifts instants by seconds to minutes, which shows only near midnight.",
  files=["lunar_python/util/ShouXingUtil.py"],
  mech=[("series", "ShouXingUtil.eLon, mLon, qiAccurate2, calcQi, calcShuo")],
  na="The true positions of sun and moon have no contract over the code: no deductive verifier here has ephemerides, and a specification by the code's own series would prove nothing. What can be evaluated stands in as bounded parts of C08 and C10 (every new moon 1700..2400 and every term against Meeus' independent series; every year's tables against a pinned reference)."),
]
