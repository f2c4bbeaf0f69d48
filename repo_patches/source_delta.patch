From f1f25b8f8ede9234d12f1805fe9402ce0f7bb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 01/27] fix: iterate group lists without a shared cursor

---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From d62467e8a7fdcf9f6190c1accbdd46d533170457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 02/27] fix: compare the cloud cover by value when checking
 CAVOK

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From 867240c2a27b2e6edd410cadc2d85352344b5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 03/27] fix: do not fail computing the ceiling of layers
 without height

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..6ffd6ce 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -204,6 +204,6 @@ class CloudList(GroupList[Cloud]):
         for group in self._list:
             _oktas: str = group.oktas
             _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            if _oktas in ["5-7", "8"] and _height is not None and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From aa87f62b990e52a50f68c73991fc842f42efb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 04/27] fix: report VFR when the visibility is over all
 thresholds

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..121ed96 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From f1ca0394e2d499df5194f3517b7844f032d86bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 05/27] fix: remove debug print when parsing trend periods

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From da9eaaaa4a3a34d66876fdc3154d6a3f237637e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 06/27] fix: do not parse empty groups as weather

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
-- 
2.43.0


From 76616ee3cf7b79aca1c981a64c5db73aca10d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 07/27] fix: scale pressures in inches of mercury without units

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From 2c3ca539bd1ee60992bda89802b75afe9af20e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 08/27] fix: decode the 0VC spelling of overcast

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 6ffd6ce..dec2698 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,7 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            cover: str = match.group("cover").replace("0", "O")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 9e8d2dbb7530855023603f0ba0b42bd9b41356fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 09/27] fix: resolve valid periods starting or ending more than
 one day ahead

---
 aeromet_py/reports/models/taf/valid.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..c724b11 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -46,15 +46,13 @@ class Valid(Group):
 
             _from: datetime
             _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until = _from
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From b28042fdec5f63a84cb98415fdc93f1f13031105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 10/27] fix: resolve TAF temperatures expected more than one
 day ahead

---
 aeromet_py/reports/models/taf/temperature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..9531e11 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,9 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
-- 
2.43.0


From 2dbdfb40dbb9449a7c0c511302d1accbe92579bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 11/27] fix: accept the hour 24 in the time of the report

---
 aeromet_py/reports/models/base/time.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..4dab55f 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,6 +1,6 @@
 import re
 
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Dict, Optional
 
 from .group import Group
@@ -43,6 +43,11 @@ class Time(Group):
             if minute is None:
                 minute = "00"
 
+            # 24 hours is the midnight at the end of the day
+            midnight: bool = hour == "24"
+            if midnight:
+                hour = "00"
+
             generated_date: str = "{}{:02d}{}{}{}".format(
                 year,
                 month,
@@ -52,6 +57,9 @@ class Time(Group):
             )
             self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
 
+            if midnight:
+                self._time = self._time + timedelta(days=1)
+
     @classmethod
     def from_metar(
         cls,
-- 
2.43.0


From 329e13b2620a9ee0aea098f3632f38b08399cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 12/27] fix: resolve trend times out of the two hours of the
 forecast

---
 .../reports/models/metar/trend_indicator.py   | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..a95de79 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -33,9 +33,6 @@ class MetarTrendIndicator(ChangeIndicator):
         """Helper to add periods of time to the change indicator."""
         self._code += f" {match.string}"
 
-        # The middle time between self._init_period and self._end_period
-        middle_time: datetime = self._init_period.time + timedelta(hours=1)
-
         prefix: str = match.group("prefix")
         hour: str = match.group("hour")
         minute: str = match.group("min")
@@ -43,17 +40,15 @@ class MetarTrendIndicator(ChangeIndicator):
         hour_as_int: int = int(hour)
         min_as_int: int = int(minute)
 
-        _time: datetime
-        minutes: int
-        if hour_as_int == self._init_period.hour:
-            minutes = min_as_int - self._init_period.minute
-            _time = self._init_period.time + timedelta(minutes=minutes)
-        elif hour_as_int == middle_time.hour:
-            minutes = min_as_int - middle_time.minute
-            _time = middle_time + timedelta(minutes=minutes)
-        else:
-            minutes = min_as_int - self._end_period.minute
-            _time = self._end_period.time + timedelta(minutes=minutes)
+        # The first time at that hour since the hour of self._init_period
+        hours: int = hour_as_int - self._init_period.hour
+        if hours < 0:
+            hours += 24
+
+        minutes: int = min_as_int - self._init_period.minute
+        _time: datetime = self._init_period.time + timedelta(
+            hours=hours, minutes=minutes
+        )
 
         if prefix == "FM":
             self._from = Time(code=match.string, time=_time)
-- 
2.43.0


From 0bed9daca508e2354a35e8323cba2dafbff72123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 13/27] fix: use the given year and month in TAF without time
 group

---
 aeromet_py/reports/taf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..236f164 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -56,6 +56,8 @@ class Taf(
 
         self._handle_sections()
 
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From fced81de42dfae39ea00563e860a7d71a072115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 14/27] fix: do not fail on changes with an unknown change
 indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py |  3 ++-
 aeromet_py/reports/models/taf/change_forecast.py   | 10 +++++-----
 aeromet_py/reports/models/taf/change_indicator.py  |  3 +++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index a95de79..ebcac18 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,8 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is not None:
+            self._code += f" {match.string}"
 
         prefix: str = match.group("prefix")
         hour: str = match.group("hour")
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..2d29a13 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,20 +79,20 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..b922e4d 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,6 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
+        if self._code is None:
+            return
+
         if self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
-- 
2.43.0


From cdb92d1f6b375d3013cc67f087d7a1c68a06a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 15/27] fix: match whole groups in change indicators and TAF
 groups

---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/taf_regexp.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..8a84b4b 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f3b6611 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,26 +21,26 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 1128dbb51328e47897e1f26d9fae1c1ab12b0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 16/27] fix: do not fail on zero denominators and fractions of
 kilometers

---
 aeromet_py/reports/models/metar/visibility.py | 12 +++++++++---
 aeromet_py/utils/metar_regexp.py              |  2 +-
 aeromet_py/utils/parser.py                    |  2 +-
 aeromet_py/utils/taf_regexp.py                |  2 +-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..634374a 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -139,8 +139,8 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    _in_meters = self._sum(_integer, _fraction) * 1000
+                    self._visibility = Distance("{}".format(_in_meters))
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -166,6 +166,12 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             integer (str | None): the integer value of visibility in METAR if provided.
             fraction (str | None): the fraction value of the visibility in METAR if provided.
         """
+        _vis: float = self._sum(integer, fraction)
+
+        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+
+    def _sum(self, integer: Optional[str], fraction: Optional[str]) -> float:
+        """Helper to sum the integer and the fraction of the visibility."""
         _fraction: float
         if fraction:
             _items = fraction.split("/")
@@ -179,7 +185,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
-        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+        return _vis
 
     @property
     def cavok(self) -> bool:
diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 8a84b4b..9d9ce85 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..f84d42a 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,7 +14,7 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/[1-9]SM)\s?"
 
     for _ in range(3):
         match = re.search(regex, report)
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f3b6611..e842aae 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^((?P<vis>\d{4})"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
-- 
2.43.0


From 04a32e3d826eb96594928d808683c422c1badf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 17/27] fix: do not fail on visibilities with an invalid
 cardinal direction

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 9d9ce85..d2acde5 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e842aae..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 281dd26166fab7084f6868a6319d027456811946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 18/27] fix: keep the text of reports containing a vertical bar

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From 7946433a24e18bff239d0f125b2be6b0a1cb548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 19/27] fix: keep all the remark sections of the METAR

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..703b3fd 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -278,11 +278,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From 54e53d030cb2bdee4111ad5b131161502f0266f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 20/27] fix: do not split amended TAF of stations starting with
 FM

---
 aeromet_py/reports/taf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 236f164..f846058 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -197,10 +197,11 @@ class Taf(
     def _handle_sections(self) -> None:
         keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
+        # The station is not a change indicator although it starts with FM
+        header: str = re.match(r"(TAF )?((COR|AMD) )?", sanitized_code).group()
+        sanitized_code = header.replace(" ", "_") + sanitized_code[len(header) :]
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
+        sections[0] = header + sections[0][len(header) :]
 
         self._body = sections[0]
         if len(sections) > 1:
-- 
2.43.0


From 3bc7e6a40e8ba32a68de414dfaed4e92740283da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 21/27] fix: show the values equal to zero in the readable text

---
 aeromet_py/reports/models/base/cloud.py         | 6 +++---
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 6 +++---
 aeromet_py/reports/models/metar/runway_range.py | 2 +-
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 2 +-
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index dec2698..fb09920 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,14 +119,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
@@ -136,7 +136,7 @@ class Cloud(Group):
             return self._cover
 
         if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
+            if self._height.value is not None:
                 return self._cover + f" at {self.height_in_feet} feet"
             return self._cover
 
diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..9bb1590 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,7 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        direction = f"({self._direction})" if self._direction.value is not None else direction
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..04363bd 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,7 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            f" varying to {self.high_range}" if self._high_range.value is not None else "",
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..e520575 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None and self._dewpoint.value is not None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..476771c 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,7 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = " gust of " + str(self._gust) if self._gust.value is not None else ""
 
         return super().__str__() + gust
 
-- 
2.43.0


From c007f9653494b76468a26c720aac682cba402173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 22/27] fix: join only whole groups written in two or three
 words

---
 aeromet_py/utils/parser.py | 38 ++++++++------------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index f84d42a..be98752 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,17 +14,9 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/[1-9]SM)\s?"
+    regex = r"(?<=\s)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
 
-    for _ in range(3):
-        match = re.search(regex, report)
-
-        try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
-        except AttributeError:
-            break
-
-    return report
+    return re.sub(regex, r"\g<int>_\g<frac>", report)
 
 
 def sanitize_windshear(report: str) -> str:
@@ -37,16 +29,11 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"WS\sALL\sRWY", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"WS\sR(WY)?(?P<name>\d{2}[CLR]?)"
-    pattern = re.compile(fmt)
-    for _ in range(3):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(fmt, "WS_R{}".format(match.group("name")), report, count=1)
+    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
 
-    return report
+    return re.sub(fmt, r"WS_R\g<name>", report)
 
 
 def sanitize_change_indicator(report: str) -> str:
@@ -59,15 +46,6 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
-    pattern = re.compile(fmt)
-    for _ in range(5):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
-
-    return report
+    fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO(?!\S)"
+
+    return re.sub(fmt, r"PROB\g<percent>_TEMPO", report)
-- 
2.43.0


From 5b1fabba7ecb550d64a4489940fe29536d8d6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 23/27] fix: keep the text of windshear groups written with RWY

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/parser.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index d2acde5..d3165a1 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -74,7 +74,7 @@ class MetarRegExp:
         r"(?P<other>PO|SQ|FC|SS|DS)?$"
     )
 
-    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(?P<name>\d{2}[RCL]?))$"
+    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(WY)?(?P<name>\d{2}[RCL]?))$"
 
     SEA_STATE = (
         r"^W(?P<sign>M)?"
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index be98752..324dd67 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -31,9 +31,9 @@ def sanitize_windshear(report: str) -> str:
     """
     report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
+    fmt = r"(?<!\S)WS\s(?P<name>R(WY)?\d{2}[CLR]?)(?!\S)"
 
-    return re.sub(fmt, r"WS_R\g<name>", report)
+    return re.sub(fmt, r"WS_\g<name>", report)
 
 
 def sanitize_change_indicator(report: str) -> str:
-- 
2.43.0


From 1673ec8ddef2c281a9b230f594c26b52bb5058ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 24/27] fix: show the unparsed groups as they are in the report

---
 aeromet_py/reports/models/base/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..e86c867 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -49,4 +49,5 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
                 unparsed_groups.remove(group)
                 break
 
-    return unparsed_groups
+    # The groups joined to be parsed are shown as in the report
+    return [group.replace("_", " ") for group in unparsed_groups]
-- 
2.43.0


From 2861675192b54b5a1d541cb96fbf9ae8c6ce6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 25/27] fix: default valid period of TAF begins after its issue
 time

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index f846058..6c2cf49 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -96,6 +96,9 @@ class Taf(
     def _handle_time(self, match: re.Match) -> None:
         self._time = Time.from_metar(match, self._year, self._month)
 
+        # The default valid period begins after the issue time
+        self._valid = Valid.from_taf(None, self._time.time)
+
         self._concatenate_string(self._time)
 
     def _handle_missing(self, match: re.Match) -> None:
-- 
2.43.0


From ff221be1d1398872f75d84624379526f7f2035a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:51 +0000
Subject: [PATCH 26/27] fix: adding to a full list of TAF changes leaves the
 periods of the listed changes alone

---
 aeromet_py/reports/models/taf/change_forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 2d29a13..d9741c6 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -78,7 +78,7 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
 
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
-        if len(self._list) > 0:
+        if 0 < len(self._list) < self._max_items:
             new_code: str = new_change.change_indicator.code or ""
             if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
-- 
2.43.0


From 6cda4cf337f5a3210ff36470fa427bee1857bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:33 +0000
Subject: [PATCH 27/27] fix: show the body of a TAF as it is in the report

---
 aeromet_py/reports/taf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 6c2cf49..7417a2e 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -206,7 +206,7 @@ class Taf(
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
         sections[0] = header + sections[0][len(header) :]
 
-        self._body = sections[0]
+        self._body = re.sub(r"(PROB[34]0)_TEMPO", r"\1 TEMPO", sections[0])
         if len(sections) > 1:
             self._changes_codes = [section for section in sections[1:]]
 
-- 
2.43.0

