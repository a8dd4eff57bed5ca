From 6323a763f427a716e85f7c00b5c398d5ce2fdb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 01/18] fix: reject day numbers above 31 in Solar (the check
 compared the month)

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index d3be6b0..ede06c1 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -19,7 +19,7 @@ class Solar:
                 raise Exception("wrong solar year %d month %d day %d" % (year, month, day))
         if month < 1 or month > 12:
             raise Exception("wrong month %d" % month)
-        if day < 1 or month > 31:
+        if day < 1 or day > 31:
             raise Exception("wrong day %d" % day)
         if hour < 0 or hour > 23:
             raise Exception("wrong hour %d" % hour)
-- 
2.43.0


From c722b86393c217ba6469132588643bf59ef4177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 02/18] fix: carry into the next month when Solar.fromJulianDay
 rounds up to 24:00

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index ede06c1..974378f 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -75,7 +75,7 @@ class Solar:
             hour += 1
         if hour > 23:
             hour -= 24
-            day += 1
+            return Solar(year, month, day, hour, minute, second).next(1)
         return Solar(year, month, day, hour, minute, second)
 
     @staticmethod
-- 
2.43.0


From d8fa3993a7d28d1a625bd161ab2d1b735c892c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 03/18] fix: count the weeks of a month that starts before the
 chosen first weekday

---
 lunar_python/util/SolarUtil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/util/SolarUtil.py b/lunar_python/util/SolarUtil.py
index 5d608b6..161cf94 100644
--- a/lunar_python/util/SolarUtil.py
+++ b/lunar_python/util/SolarUtil.py
@@ -252,7 +252,10 @@ class SolarUtil:
         :return: 天数
         """
         from .. import Solar
-        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + Solar.fromYmd(year, month, 1).getWeek() - start) * 1.0 / len(SolarUtil.WEEK)))
+        offset = Solar.fromYmd(year, month, 1).getWeek() - start
+        if offset < 0:
+            offset += 7
+        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + offset) * 1.0 / len(SolarUtil.WEEK)))
 
     @staticmethod
     def getDaysBetween(ay: int, am: int, ad: int, by: int, bm: int, bd: int):
-- 
2.43.0


From 6b0497840dadca31fe2a79d1130e5ac1e1466206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 04/18] fix: week index in October 1582 counts the days that
 exist

---
 lunar_python/SolarWeek.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 7f24a18..551785e 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -60,7 +60,8 @@ class SolarWeek:
         offset = Solar.fromYmd(self.__year, self.__month, 1).getWeek() - self.__start
         if offset < 0:
             offset += 7
-        return int(ceil((self.__day + offset) * 1.0 / 7))
+        day = SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) - SolarUtil.getDaysInYear(self.__year, self.__month, 1) + 1
+        return int(ceil((day + offset) * 1.0 / 7))
 
     def getIndexInYear(self):
         """
-- 
2.43.0


From 321495f62ed1332c4c0460535c576c2f3d65fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 05/18] fix: stepping back a week into October 1582 starts from
 its last day

---
 lunar_python/SolarWeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 551785e..984cc2e 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -153,7 +153,7 @@ class SolarWeek:
                             week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                             week_month = week.getMonth()
                         else:
-                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()))
+                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), 1).next(SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()) - 1)
                             week = SolarWeek.fromYmd(solar.getYear(), solar.getMonth(), solar.getDay(), self.__start)
                     month = week_month
                 n -= 1 if plus else -1
-- 
2.43.0


From f4b2a1ef946fc6ceec18f6cbc8b97862c7e5d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:08 +0000
Subject: [PATCH 06/18] fix: year pillars of days whose lunar year starts
 before the solar year

---
 lunar_python/Lunar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 7ad6a7d..fb207cf 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -99,6 +99,12 @@ class Lunar:
             if solar_ymd_hms >= li_chun_ymd_hms:
                 g_exact += 1
                 z_exact += 1
+        else:
+            # 阴历年份大于阳历年份代表正月初一在阳历年底，还没到立春
+            g -= 1
+            z -= 1
+            g_exact -= 1
+            z_exact -= 1
 
         self.__yearGanIndex = year_gan_index
         self.__yearZhiIndex = year_zhi_index
-- 
2.43.0


From b4fce36118cbce913de934a942c0e46e82387a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:56 +0000
Subject: [PATCH 07/18] fix: JieQi.setName clears the kind of the previous name

---
 lunar_python/JieQi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lunar_python/JieQi.py b/lunar_python/JieQi.py
index 24250e2..bba5082 100644
--- a/lunar_python/JieQi.py
+++ b/lunar_python/JieQi.py
@@ -27,6 +27,8 @@ class JieQi:
         """
         from . import Lunar
         self.__name = name
+        self.__jie = False
+        self.__qi = False
         for i in range(0, len(Lunar.JIE_QI)):
             if name == Lunar.JIE_QI[i]:
                 if i % 2 == 0:
-- 
2.43.0


From 2c2d40684b7e6ab64c0a11a55910683a6ad657fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:53 +0000
Subject: [PATCH 08/18] =?UTF-8?q?fix:=20position=20of=20=E5=A4=AA=E5=B2=81?=
 =?UTF-8?q?=20on=20the=20days=20=E5=B7=B1=E5=B7=B3,=20=E5=B7=B1=E5=8D=AF?=
 =?UTF-8?q?=20and=20=E5=B7=B1=E4=B8=91?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lunar_python/Lunar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index fb207cf..73825bd 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -456,11 +456,11 @@ class Lunar:
         return LunarUtil.POSITION_DESC[self.getMonthPositionTaiSui(sect)]
 
     def __getDayPositionTaiSui(self, day_in_gan_zhi, year_zhi_index):
-        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,已巳":
+        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,己巳":
             p = "震"
-        elif day_in_gan_zhi in "丙子,丁丑,戊寅,已卯,庚辰,辛巳":
+        elif day_in_gan_zhi in "丙子,丁丑,戊寅,己卯,庚辰,辛巳":
             p = "离"
-        elif day_in_gan_zhi in "戊子,已丑,庚寅,辛卯,壬辰,癸巳":
+        elif day_in_gan_zhi in "戊子,己丑,庚寅,辛卯,壬辰,癸巳":
             p = "中"
         elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":
             p = "兑"
-- 
2.43.0


From 145069e16712515949206d1b682426d7bccb3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 09/18] fix: LunarTime.getNineStar compared instants with text

---
 lunar_python/LunarTime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lunar_python/LunarTime.py b/lunar_python/LunarTime.py
index 98716ac..8b462b1 100644
--- a/lunar_python/LunarTime.py
+++ b/lunar_python/LunarTime.py
@@ -112,7 +112,9 @@ class LunarTime:
         solar_ymd = self.__lunar.getSolar().toYmd()
         jie_qi = self.__lunar.getJieQiTable()
         asc = False
-        if jie_qi["冬至"] <= solar_ymd < jie_qi["夏至"]:
+        if jie_qi["冬至"].toYmd() <= solar_ymd < jie_qi["夏至"].toYmd():
+            asc = True
+        elif solar_ymd >= jie_qi["DONG_ZHI"].toYmd():
             asc = True
         start = 7 if asc else 3
         day_zhi = self.__lunar.getDayZhi()
-- 
2.43.0


From 73be5b351fa9a33d6d0a922cde2024d4e761ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:23 +0000
Subject: [PATCH 10/18] fix: LunarYear.fromYear kept its lock when the year
 could not be computed

---
 lunar_python/LunarYear.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a4f7bf2..27feb0a 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -41,13 +41,12 @@ class LunarYear:
 
     @staticmethod
     def fromYear(lunar_year):
-        LunarYear.__lock.acquire()
-        if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
-            y = LunarYear(lunar_year)
-            LunarYear.__CACHE_YEAR = y
-        else:
-            y = LunarYear.__CACHE_YEAR
-        LunarYear.__lock.release()
+        with LunarYear.__lock:
+            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
+                y = LunarYear(lunar_year)
+                LunarYear.__CACHE_YEAR = y
+            else:
+                y = LunarYear.__CACHE_YEAR
         return y
 
     def compute(self):
-- 
2.43.0


From 0c6eb1394674b058ba881b35754700c8bbc60f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 11/18] fix: Solar.fromBaZi missed the hours before a term that
 falls into the first half of a double hour

---
 lunar_python/Solar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 974378f..8ebcf51 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -136,12 +136,21 @@ class Solar:
                             # 如果正好是节令当天，且小时和节令的小时数相等的极端情况，把分钟和秒钟带上
                             mi = solar_time.getMinute()
                             s = solar_time.getSecond()
+                        candidates = [Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)]
+                        # 节令在时辰的前一小时，节令之前的时刻属于上个月，取时辰的起点
+                        if 0 == hour:
+                            if 1 == sect:
+                                prev = solar_time.next(-1)
+                                candidates.append(Solar.fromYmdHms(prev.getYear(), prev.getMonth(), prev.getDay(), 23, 0, 0))
+                        elif 23 != hour:
+                            candidates.append(Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour - 1, 0, 0))
                         # 验证一下
-                        solar = Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)
-                        lunar = solar.getLunar()
-                        dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                        if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
-                            solar_list.append(solar)
+                        for solar in candidates:
+                            lunar = solar.getLunar()
+                            dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
+                            if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                                solar_list.append(solar)
+                                break
             y += 60
         return solar_list
 
-- 
2.43.0


From 88391043086cd79e9a3d1f85cace0cd4520e19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 12/18] fix: HolidayUtil.getHolidaysByTarget lists every day of
 the festival, also when a day of another one lies between

---
 lunar_python/util/HolidayUtil.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index f7043b5..899aad6 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -88,13 +88,10 @@ class HolidayUtil:
         s = HolidayUtil.__findBackward(key)
         if s is None:
             return arr
-        size = len(s)
-        key_size = len(key)
-
-        while size - key_size == s.rfind(key):
-            arr.append(HolidayUtil.__buildHolidayBackward(s))
-            s = s[0:size - HolidayUtil.__SIZE:]
-            size = len(s)
+        while len(s) >= HolidayUtil.__SIZE:
+            if s.endswith(key):
+                arr.append(HolidayUtil.__buildHolidayBackward(s))
+            s = s[0:len(s) - HolidayUtil.__SIZE]
         arr.reverse()
         return arr
 
-- 
2.43.0


From b529a7a12157476fb823c6e788e106127f3c36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 13/18] fix: HolidayUtil look-ups of years before 1000 found
 days of another year (key without leading zeros)

---
 lunar_python/util/HolidayUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 899aad6..b358fa5 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -97,7 +97,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -106,7 +106,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidays(year, month=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -115,7 +115,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidaysByTarget(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysBackward(y.replace("-", ""))
         else:
-- 
2.43.0


From 76d3eeb2b23150de1e5d964e5a3b551a73117578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 14/18] fix: HolidayUtil.fix keeps the records in order of day,
 so that added days are found in their month, year and festival

---
 lunar_python/util/HolidayUtil.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index b358fa5..a9906dd 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -153,24 +153,15 @@ class HolidayUtil:
             HolidayUtil.__NAMES_IN_USE = names
         if data is None:
             return
-        append = ""
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
             day = segment[:8]
-            remove = HolidayUtil.__TAG_REMOVE == segment[8:9]
-            holiday = HolidayUtil.getHoliday(day)
-            if holiday is None:
-                if not remove:
-                    append += segment
-            else:
-                name_index = -1
-                for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
-                    if HolidayUtil.__NAMES_IN_USE[i] == holiday.getName():
-                        name_index = i
-                        break
-                if name_index > -1:
-                    old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
-                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+            in_use = HolidayUtil.__DATA_IN_USE
+            records = [in_use[i:i + HolidayUtil.__SIZE] for i in range(0, len(in_use), HolidayUtil.__SIZE)]
+            records = [record for record in records if not record.startswith(day)]
+            if HolidayUtil.__TAG_REMOVE != segment[8:9]:
+                records.append(segment)
+                # 按日期排序，保证同年同月的数据连续
+                records.sort()
+            HolidayUtil.__DATA_IN_USE = "".join(records)
             data = data[HolidayUtil.__SIZE:]
-        if len(append) > 0:
-            HolidayUtil.__DATA_IN_USE += append
-- 
2.43.0


From 219fefbdd87d1a2b447e598908f20b8a417b3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 15/18] fix: the nine star of days in January follows the run
 that began in the summer before, also when it is 240 days long

---
 lunar_python/Lunar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 73825bd..2b1ad38 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -893,7 +893,12 @@ class Lunar:
         elif solar_ymd >= solar_shun_bai_ymd2:
             offset = self.__solar.subtract(solar_shun_bai2) % 9
         elif solar_ymd < solar_shun_bai_ymd:
-            offset = (8 + solar_shun_bai.subtract(self.__solar)) % 9
+            # 接上一年夏至附近的甲子日逆行
+            from . import LunarYear
+            xia_zhi = Solar.fromJulianDay(LunarYear.fromYear(dong_zhi.getYear()).getJieQiJulianDays()[Lunar.JIE_QI_IN_USE.index("夏至")])
+            xia_zhi_index = LunarUtil.getJiaZiIndex(xia_zhi.getLunar().getDayInGanZhi())
+            solar_ni_zi = xia_zhi.next((60 if xia_zhi_index > 29 else 0) - xia_zhi_index)
+            offset = 8 - (self.__solar.subtract(solar_ni_zi) % 9)
         return NineStar.fromIndex(offset)
 
     def getTimeNineStar(self):
-- 
2.43.0


From fda3c5abaf852a20f671ddd5e0c661b5764bebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 16/18] fix: Foto.getYear in lunar years that begin in the
 civil year before

---
 lunar_python/Foto.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/Foto.py b/lunar_python/Foto.py
index aa31ede..2e62564 100644
--- a/lunar_python/Foto.py
+++ b/lunar_python/Foto.py
@@ -29,11 +29,7 @@ class Foto:
         return self.__lunar
 
     def getYear(self):
-        sy = self.__lunar.getSolar().getYear()
-        y = sy - Foto.DEAD_YEAR
-        if sy == self.__lunar.getYear():
-            y += 1
-        return y
+        return self.__lunar.getYear() - Foto.DEAD_YEAR + 1
 
     def getMonth(self):
         return self.__lunar.getMonth()
-- 
2.43.0


From c0f05cc73eec1063089064b3123cdf7267dfe4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:47 +0000
Subject: [PATCH 17/18] fix: LunarMonth.next gives the month as listed in its
 own year

---
 lunar_python/LunarMonth.py | 65 ++++++++++----------------------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/lunar_python/LunarMonth.py b/lunar_python/LunarMonth.py
index 3cf414f..2a96cfc 100644
--- a/lunar_python/LunarMonth.py
+++ b/lunar_python/LunarMonth.py
@@ -122,52 +122,19 @@ class LunarMonth:
         :param n: 月数
         :return: 阴历月
         """
-        if 0 == n:
-            return LunarMonth.fromYm(self.__year, self.__month)
-        elif n > 0:
-            rest = n
-            ny = self.__year
-            iy = ny
-            im = self.__month
-            index = 0
-            months = LunarYear.fromYear(ny).getMonths()
-            while True:
-                size = len(months)
-                for i in range(0, size):
-                    m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
-                        index = i
-                        break
-                more = size - index - 1
-                if rest < more:
-                    break
-                rest -= more
-                last_month = months[size - 1]
-                iy = last_month.getYear()
-                im = last_month.getMonth()
-                ny += 1
-                months = LunarYear.fromYear(ny).getMonths()
-            return months[index + rest]
-        else:
-            rest = -n
-            ny = self.__year
-            iy = ny
-            im = self.__month
-            index = 0
-            months = LunarYear.fromYear(ny).getMonths()
-            while True:
-                size = len(months)
-                for i in range(0, size):
-                    m = months[i]
-                    if m.getYear() == iy and m.getMonth() == im:
-                        index = i
-                        break
-                if rest <= index:
-                    break
-                rest -= index
-                first_month = months[0]
-                iy = first_month.getYear()
-                im = first_month.getMonth()
-                ny -= 1
-                months = LunarYear.fromYear(ny).getMonths()
-            return months[index - rest]
+        ny = self.__year
+        months = LunarYear.fromYear(ny).getMonthsInYear()
+        index = n
+        for i in range(0, len(months)):
+            if months[i].getMonth() == self.__month:
+                index += i
+                break
+        while index >= len(months):
+            index -= len(months)
+            ny += 1
+            months = LunarYear.fromYear(ny).getMonthsInYear()
+        while index < 0:
+            ny -= 1
+            months = LunarYear.fromYear(ny).getMonthsInYear()
+            index += len(months)
+        return months[index]
-- 
2.43.0


From fed2408103ef74c167f77f262012fc58e0d550b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:36 +0000
Subject: [PATCH 18/18] fix: Solar.fromBaZi missed the days of January of the
 base year whose month began in December

---
 lunar_python/Solar.py | 59 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 8ebcf51..44839e6 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -121,36 +121,35 @@ class Solar:
                 jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
-                if solar_time.getYear() >= base_year:
-                    # 日干支和节令干支的偏移值
-                    d = LunarUtil.getJiaZiIndex(day_gan_zhi) - LunarUtil.getJiaZiIndex(solar_time.getLunar().getDayInGanZhiExact2())
-                    if d < 0:
-                        d += 60
-                    if d > 0:
-                        # 从节令推移天数
-                        solar_time = solar_time.next(d)
-                    for hour in hours:
-                        mi = 0
-                        s = 0
-                        if d == 0 and hour == solar_time.getHour():
-                            # 如果正好是节令当天，且小时和节令的小时数相等的极端情况，把分钟和秒钟带上
-                            mi = solar_time.getMinute()
-                            s = solar_time.getSecond()
-                        candidates = [Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)]
-                        # 节令在时辰的前一小时，节令之前的时刻属于上个月，取时辰的起点
-                        if 0 == hour:
-                            if 1 == sect:
-                                prev = solar_time.next(-1)
-                                candidates.append(Solar.fromYmdHms(prev.getYear(), prev.getMonth(), prev.getDay(), 23, 0, 0))
-                        elif 23 != hour:
-                            candidates.append(Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour - 1, 0, 0))
-                        # 验证一下
-                        for solar in candidates:
-                            lunar = solar.getLunar()
-                            dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                            if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
-                                solar_list.append(solar)
-                                break
+                # 日干支和节令干支的偏移值
+                d = LunarUtil.getJiaZiIndex(day_gan_zhi) - LunarUtil.getJiaZiIndex(solar_time.getLunar().getDayInGanZhiExact2())
+                if d < 0:
+                    d += 60
+                if d > 0:
+                    # 从节令推移天数
+                    solar_time = solar_time.next(d)
+                for hour in hours:
+                    mi = 0
+                    s = 0
+                    if d == 0 and hour == solar_time.getHour():
+                        # 如果正好是节令当天，且小时和节令的小时数相等的极端情况，把分钟和秒钟带上
+                        mi = solar_time.getMinute()
+                        s = solar_time.getSecond()
+                    candidates = [Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)]
+                    # 节令在时辰的前一小时，节令之前的时刻属于上个月，取时辰的起点
+                    if 0 == hour:
+                        if 1 == sect:
+                            prev = solar_time.next(-1)
+                            candidates.append(Solar.fromYmdHms(prev.getYear(), prev.getMonth(), prev.getDay(), 23, 0, 0))
+                    elif 23 != hour:
+                        candidates.append(Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour - 1, 0, 0))
+                    # 验证一下
+                    for solar in candidates:
+                        lunar = solar.getLunar()
+                        dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
+                        if solar.getYear() >= base_year and lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                            solar_list.append(solar)
+                            break
             y += 60
         return solar_list
 
-- 
2.43.0

