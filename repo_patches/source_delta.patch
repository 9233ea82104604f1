From a6dcc389628fba649ee62d3f31400450ad0d6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 01/32] fix: give every loop over a group list its own iterator

A GroupList was its own iterator and kept one shared cursor, so a loop that was
abandoned, nested or run by another thread made later reads (for example
should_be_cavok) skip or lose groups.
---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From 8e864108c76cdeca636305ba7181e6358dbf34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 02/32] fix: decoding a METAR trend period no longer prints to
 standard output

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From edb8fafdbae61349eb9a534c3e7ac2143e69a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 03/32] fix: an interrupt during number conversion reaches the
 caller unchanged

The finally clauses used a variable that is unset when anything but a
ValueError is raised, so a KeyboardInterrupt or MemoryError was replaced by an
UnboundLocalError.
---
 aeromet_py/reports/models/base/distance.py    | 4 ++--
 aeromet_py/reports/models/base/pressure.py    | 4 ++--
 aeromet_py/reports/models/base/temperature.py | 4 ++--
 aeromet_py/reports/models/base/wind.py        | 8 ++++----
 aeromet_py/reports/models/metar/sea_state.py  | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..c765efa 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -18,8 +18,8 @@ class Distance(Numeric):
             _distance = float(code)
         except ValueError:
             _distance = None
-        finally:
-            super().__init__(_distance)
+
+        super().__init__(_distance)
 
     def __str__(self) -> str:
         if self._value:
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..f1bb276 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -15,8 +15,8 @@ class Pressure(Numeric):
             _pressure = float(code)
         except ValueError:
             _pressure = None
-        finally:
-            super().__init__(_pressure)
+
+        super().__init__(_pressure)
 
     def __str__(self) -> str:
         if self._value:
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..a24c4fb 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -22,8 +22,8 @@ class Temperature(Numeric):
             _temperature = float(code) / 10
         except ValueError:
             _temperature = None
-        finally:
-            super().__init__(_temperature)
+
+        super().__init__(_temperature)
 
     def __str__(self) -> str:
         if self._value:
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..a47c273 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -49,8 +49,8 @@ class Direction(Numeric):
             if code == "VRB":
                 self._variable = True
             _direction = None
-        finally:
-            super().__init__(_direction)
+
+        super().__init__(_direction)
 
     def __str__(self) -> str:
         if self._variable:
@@ -148,8 +148,8 @@ class Speed(Numeric):
             _speed = float(code)
         except ValueError:
             _speed = None
-        finally:
-            super().__init__(_speed)
+
+        super().__init__(_speed)
 
     def __str__(self) -> str:
         if self._value:
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..fed3823 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -51,8 +51,8 @@ class MetarSeaState(Group):
                 _height_as_float = int(_height) / 10
             except (ValueError, TypeError):
                 _height_as_float = None
-            finally:
-                self._height = Distance(f"{_height_as_float}")
+
+            self._height = Distance(f"{_height_as_float}")
 
     def __str__(self) -> str:
         if (
-- 
2.43.0


From 25bc16d1a480d638920eb99345b3c9cf3f45793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 04/32] fix: str() of a TAF change no longer rewrites the
 object's text buffer

Two threads asking for the text at the same time could get it empty or doubled.
---
 aeromet_py/reports/models/taf/change_forecast.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..4692623 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -30,10 +30,7 @@ class ChangeForecasted(Forecast):
         self._parse()
 
     def __str__(self) -> str:
-        self._string = ""
-        self._concatenate_string(self._change_indicator)
-
-        return self._string
+        return f"{self._change_indicator}\n"
 
     def _handle_change_indicator(self, match: re.Match) -> None:
         self._change_indicator = TafChangeIndicator(match, self._valid)
-- 
2.43.0


From 7256b305c145e2e575a631dc786fb5c1a8a76f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 05/32] fix: white space never turns into a group of its own

A blank before '=' or a trailing '1 1/2SM' produced an empty group, decoded as
a weather group without code or reported as unparsed. A lone carriage return
glued two groups together, and a mixed visibility was split out of a longer,
unreadable group.
---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 aeromet_py/reports/models/base/report.py   | 3 +--
 aeromet_py/utils/parser.py                 | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..c99514b 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -19,8 +19,7 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
         code = code.strip()
         self._truncate = truncate
 
-        self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
+        self._raw_code: str = " ".join(code.replace("=", "").split())
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..ebdb802 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,13 +14,13 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)(?=\s|$)"
 
     for _ in range(3):
         match = re.search(regex, report)
 
         try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
+            report = re.sub(regex, " {}_{}".format(*match.groups()), report, count=1)
         except AttributeError:
             break
 
-- 
2.43.0


From d4940e8ebb79d374ccabb64acab39c9b93591833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 06/32] fix: anchor the patterns of TAF visibility, temperature
 and change indicators

The alternatives of these patterns were anchored at one end only, so garbled
groups such as 2506/26X6 or TX12/2515ZZ were decoded as data instead of being
reported as unparsed.
---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/taf_regexp.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..8a84b4b 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f3b6611 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,26 +21,26 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 18c2022fc21e814ad8d4e6372b93f4421f90af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 07/32] fix: a change period with an unreadable indicator no
 longer fails

TAF changes such as 'FM2X1000 ...' or 'PROB20 2507/2509 ...' and METAR trends
without a readable indicator raised AttributeError or TypeError.
---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 aeromet_py/reports/models/metar/weather_trend.py   | 5 ++++-
 aeromet_py/reports/models/taf/change_forecast.py   | 7 +++----
 aeromet_py/reports/models/taf/change_indicator.py  | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..3200adf 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,7 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        self._code = f"{self._code or ''} {match.string}".strip()
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 7263f42..ac45247 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -95,7 +95,10 @@ class ChangePeriod(Forecast):
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
 
-        self._string = self._string.replace(old_change_indicator, new_change_indicator)
+        if old_change_indicator:
+            self._string = self._string.replace(
+                old_change_indicator, new_change_indicator
+            )
 
     def _parse(self) -> None:
         handlers: List[GroupHandler] = [
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 4692623..21861d5 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -81,15 +81,14 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..dcaa0fd 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,7 +44,7 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
-        if self._code.startswith("FM"):
+        if self._code is None or self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
             self._translation = f"{self._translation} {self._valid}"
-- 
2.43.0


From 721154c0556778ab3a036af282df052e7bcbb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 08/32] fix: a report time that doesn't exist no longer makes
 decoding fail

A late report for a day the clock's month doesn't have is dated to the previous
month. A time group for a day that the given month doesn't have, or with hour
24, is reported as unparsed.
---
 aeromet_py/reports/models/base/__init__.py |  9 ++++++--
 aeromet_py/reports/models/base/time.py     | 26 +++++++++++++++-------
 aeromet_py/utils/metar_regexp.py           |  2 +-
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..4227b3e 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -44,9 +44,14 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
             counter += 1
 
             if match:
+                try:
+                    group_handler.handler(match)
+                except ParserError:
+                    # The group looks right but there is no such date.
+                    continue
+
                 index += counter
-                group_handler.handler(match)
-                unparsed_groups.remove(group)
+                unparsed_groups.pop()
                 break
 
     return unparsed_groups
diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..aa35fc6 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,8 +1,10 @@
 import re
 
+from calendar import monthrange
 from datetime import datetime
 from typing import Dict, Optional
 
+from .errors import ParserError
 from .group import Group
 
 
@@ -34,6 +36,11 @@ class Time(Group):
             if month is None:
                 month = today.month
 
+                if day is not None and int(day) > monthrange(year, month)[1]:
+                    # The report comes from the previous month, which has 31 days
+                    # or, being February's, is January.
+                    month -= 1
+
             if day is None:
                 day = "01"
 
@@ -67,14 +74,17 @@ class Time(Group):
             hour = match.group("hour")
             code = match.string
 
-            return cls(
-                code=code,
-                minute=minute,
-                hour=hour,
-                day=day,
-                month=month,
-                year=year,
-            )
+            try:
+                return cls(
+                    code=code,
+                    minute=minute,
+                    hour=hour,
+                    day=day,
+                    month=month,
+                    year=year,
+                )
+            except ValueError as error:
+                raise ParserError(f"there is no date for {code}: {error}") from error
 
     def __str__(self) -> str:
         return str(self._time)
diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 8a84b4b..3fcff66 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -6,7 +6,7 @@ class MetarRegExp:
 
     TIME = (
         r"^(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-4])"
+        r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<min>[0-5]\d)Z$"
     )
 
-- 
2.43.0


From b630e4be55379c6e0206ea0b92445d085552e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/32] fix: groups and changes beyond the supported number are
 reported as unparsed

A third maximum or minimum temperature, a third METAR trend and a ninth TAF
change raised RangeError out of the constructor.
---
 aeromet_py/reports/metar.py                | 9 +++++++--
 aeromet_py/reports/models/base/__init__.py | 5 +++--
 aeromet_py/reports/taf.py                  | 9 +++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..64d6d7a 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -9,6 +9,7 @@ from .models import (
     GroupList,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -183,9 +184,13 @@ class Metar(
 
     def _handle_weather_trend(self, code: str) -> None:
         wt: ChangePeriod = ChangePeriod(code, self._time.time)
-        self._weather_trends.add(wt)
 
-        self._concatenate_string(wt)
+        try:
+            self._weather_trends.add(wt)
+        except RangeError:
+            self._unparsed_groups += wt.code.split()
+        else:
+            self._concatenate_string(wt)
 
     @property
     def weather_trends(self) -> MetarWeatherTrends:
diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 4227b3e..56605ea 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -46,8 +46,9 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
             if match:
                 try:
                     group_handler.handler(match)
-                except ParserError:
-                    # The group looks right but there is no such date.
+                except (ParserError, RangeError):
+                    # The group looks right but there is no such date or there
+                    # is no room for it.
                     continue
 
                 index += counter
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..78b4a49 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -14,6 +14,7 @@ from .models import (
     GroupHandler,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -138,9 +139,13 @@ class Taf(
 
     def _handle_change_forecasted(self, code: str) -> None:
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
-        self._changes_forecasted.add(cf)
 
-        self._concatenate_string(cf)
+        try:
+            self._changes_forecasted.add(cf)
+        except RangeError:
+            self._unparsed_groups += cf.code.split()
+        else:
+            self._concatenate_string(cf)
 
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
-- 
2.43.0


From 87d7c3dfeefe3a4a71643e66bedef0a514c2f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 10/32] fix: keep every PROB TEMPO of a TAF together

From the sixth on they were decoded as two separate changes.
---
 aeromet_py/utils/parser.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index ebdb802..3df683e 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -61,13 +61,4 @@ def sanitize_change_indicator(report: str) -> str:
     """
     fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
     pattern = re.compile(fmt)
-    for _ in range(5):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
-
-    return report
+    return pattern.sub(r"PROB\g<percent>_TEMPO", report)
-- 
2.43.0


From 37fe41fea98f388c31012dd04ff1d3f57a7ef21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 11/32] fix: odd visibility fractions no longer make decoding
 fail

1/2KM raised TypeError and 1/0SM ZeroDivisionError.
---
 aeromet_py/reports/models/metar/visibility.py | 12 +++++++++---
 aeromet_py/utils/metar_regexp.py              |  2 +-
 aeromet_py/utils/taf_regexp.py                |  2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..86e2fa9 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -139,8 +139,8 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    _in_meters = self._add_fraction(_integer, _fraction) * 1000
+                    self._visibility = Distance("{}".format(_in_meters))
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -166,6 +166,12 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             integer (str | None): the integer value of visibility in METAR if provided.
             fraction (str | None): the fraction value of the visibility in METAR if provided.
         """
+        _vis: float = self._add_fraction(integer, fraction)
+
+        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+
+    def _add_fraction(self, integer: Optional[str], fraction: Optional[str]) -> float:
+        """Helper to add up the integer and the fraction of a visibility."""
         _fraction: float
         if fraction:
             _items = fraction.split("/")
@@ -179,7 +185,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
-        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+        return _vis
 
     @property
     def cavok(self) -> bool:
diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 3fcff66..1f39c65 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f3b6611..e842aae 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^((?P<vis>\d{4})"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
-- 
2.43.0


From 6c472017867b65c4ba5ce6461ee2405aa7f8f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 12/32] fix: a broken or overcast layer without height no
 longer makes ceiling fail

clouds.ceiling and should_be_cavok() raised TypeError for groups such as BKN///.
---
 aeromet_py/reports/models/base/cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..a3f6369 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -203,7 +203,7 @@ class CloudList(GroupList[Cloud]):
         there is ceiling; there isn't otherwise."""
         for group in self._list:
             _oktas: str = group.oktas
-            _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            _height: Optional[float] = group.height_in_feet
+            if _height is not None and _oktas in ["5-7", "8"] and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From 59c93289ca2086f85daf1459a85b295829040e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 13/32] fix: TAF validity and temperature times land on the
 stated days

Days were resolved to the day of issue or the next one only, so a validity that
ends two dates after issue, a temperature reached then, or the validity of an
amendment that began the day before was placed on the wrong day.
---
 aeromet_py/reports/models/base/__init__.py   |  2 +-
 aeromet_py/reports/models/base/time.py       | 21 +++++++++++++++++++-
 aeromet_py/reports/models/taf/temperature.py | 10 +++-------
 aeromet_py/reports/models/taf/valid.py       | 15 +++-----------
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 56605ea..d39acd5 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -15,7 +15,7 @@ from .report import Report
 from .station import Station
 from .string_attribute import HasConcatenateStringProntocol, StringAttributeMixin
 from .temperature import Temperature
-from .time import Time, TimeMixin
+from .time import Time, TimeMixin, closest_day
 from .type import ReportType
 from .wind import Direction, Speed, Wind
 
diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index aa35fc6..70ac218 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,13 +1,32 @@
 import re
 
 from calendar import monthrange
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Dict, Optional
 
 from .errors import ParserError
 from .group import Group
 
 
+def closest_day(time: datetime, day: int) -> datetime:
+    """Move `time` to the closest date with the given day of the month.
+
+    Args:
+        time (datetime): the reference time.
+        day (int): the day of the month, as found in the groups of the reports.
+
+    Returns:
+        datetime: the reference time moved to the closest date.
+    """
+    distance = 0
+    while True:
+        for days in (distance, -distance):
+            moved: datetime = time + timedelta(days=days)
+            if moved.day == day:
+                return moved
+        distance += 1
+
+
 class Time(Group):
     """Basic structure for time code groups in reports from land stations."""
 
diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..5decd79 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -1,9 +1,9 @@
 import re
 
-from datetime import datetime, timedelta
+from datetime import datetime
 from typing import Any, Dict, Optional
 
-from ..base import Group, GroupList, Temperature, Time
+from ..base import Group, GroupList, Temperature, Time, closest_day
 
 
 class TafTemperature(Temperature, Group):
@@ -32,11 +32,7 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
-                time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=closest_day(time, _day))
 
     def __str__(self) -> str:
         if self._value is None:
diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..df55006 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -5,7 +5,7 @@ from typing import Any, Dict, Optional
 
 from typing_extensions import Protocol
 
-from ..base import Group, HasConcatenateStringProntocol, Time
+from ..base import Group, HasConcatenateStringProntocol, Time, closest_day
 
 
 class Valid(Group):
@@ -44,17 +44,8 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = closest_day(time, _fmday)
+            _until: datetime = closest_day(_from, _tlday)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From e8117e6cca64d3e711883bf962fb7b3bf986221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 14/32] fix: a TAF without time group keeps the given year and
 month

Its time and default validity were taken from the machine's clock even with an
explicit year and month.
---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 78b4a49..9a25e8e 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -57,6 +57,9 @@ class Taf(
 
         self._handle_sections()
 
+        # Initialize the time, the valid period depends on it
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From 79055928f0a6bdd7e301b3c74a81ad94bcfb788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/32] fix: a '|' in the text no longer splits sections or
 loses groups

The sections were marked with '|' before splitting, so one received in the text
was taken for a section border and what followed was lost or misplaced.
---
 aeromet_py/utils/split.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..a9a4db9 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -1,6 +1,6 @@
 import re
 
-from typing import List
+from typing import List, Tuple
 
 
 def _add_space_left(word: str) -> str:
@@ -35,6 +35,7 @@ def split_sentence(
     Returns:
         List[str, str]: the list of sentence splitted from the original.
     """
+    cuts: List[Tuple[int, int]] = []
     for kw in keywords:
         if space == "left":
             kw = _add_space_left(kw)
@@ -45,11 +46,17 @@ def split_sentence(
         else:
             pass
 
-        pattern = re.compile(kw)
-        sentence = re.sub(
-            pattern,
-            "|" + kw.lstrip(),
-            sentence,
-            count=count,
-        )
-    return sentence.split("|")
+        skip: int = len(kw) - len(kw.lstrip())
+        for i, match in enumerate(re.finditer(kw, sentence), start=1):
+            cuts.append((match.start(), match.start() + skip))
+            if i == count:
+                break
+
+    parts: List[str] = []
+    start: int = 0
+    for end, next_start in sorted(cuts):
+        parts.append(sentence[start:end])
+        start = next_start
+    parts.append(sentence[start:])
+
+    return parts
-- 
2.43.0


From 86c62f838fced97396ce67c6483739e2191776ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 16/32] fix: amended TAFs of stations whose code begins with FM
 are decoded

'TAF AMD FMEE ...' was cut at the station as if a from-change began there.
---
 aeromet_py/reports/taf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 9a25e8e..bc34917 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -201,7 +201,7 @@ class Taf(
             )
 
     def _handle_sections(self) -> None:
-        keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
+        keywords: List[str] = [r"FM(?=\d)", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
         if sanitized_code.startswith("TAF"):
             sanitized_code = sanitized_code.replace("TAF ", "TAF_")
-- 
2.43.0


From 5e564479266268203322981c36f754a49109169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 17/32] fix: hour 24 in a METAR trend of a 23xx report is the
 coming midnight

TL2400 was placed one hour late because hour 24 never equalled the hour 0 of
the middle of the trend period.
---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index 3200adf..9648f5d 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -40,7 +40,7 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From 2ecc18eb74c0539598c69b4caed485de65f6d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 18/32] fix: no remark is lost when a report has several remark
 sections

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 64d6d7a..2616330 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -283,11 +283,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From fb68d6d3a77371619e5711cccd60f8cca1290b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 19/32] fix: a repeated METAR trend indicator opens a trend of
 its own

From the third TEMPO or BECMG on, the groups were decoded as part of the
preceding trend.
---
 aeromet_py/reports/metar.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 2616330..b072975 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -249,7 +249,6 @@ class Metar(
             self.trend,
             ["TEMPO", "BECMG"],
             space="both",
-            count=1,
         )
 
         for trend in _trends:
-- 
2.43.0


From 811799e64e1b561492c651b33a2add38a626e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 20/32] fix: visibility groups with an impossible direction no
 longer raise ValueError

3000EW and the like match no cardinal direction and are reported as unparsed.
---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1f39c65..e60be20 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e842aae..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 87330324e4bc4f89e331dfff5f85c716095d7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 21/32] fix: the period group of a FROM change is kept when its
 end is reset

---
 aeromet_py/reports/models/taf/change_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index dcaa0fd..41ac338 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -61,7 +61,7 @@ class TafChangeIndicator(ChangeIndicator):
         """
         until = Time(time=until.time - timedelta(hours=1))
         if self._code.startswith("FM"):
-            self._valid = Valid(None, self._valid.period_from, until)
+            self._valid = Valid(self._valid.code, self._valid.period_from, until)
             self._translation = f"{self._valid}"
 
     @property
-- 
2.43.0


From 35cc3633af7ba23e500bcfe60fabd73d519ab04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 22/32] fix: a pressure in inches without its letter is read in
 hundredths

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From 04f8049f14cba00d50a5cc599818c18f7360bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 23/32] fix: a trend period outside the two hours after the
 report keeps its hour

---
 .../reports/models/metar/trend_indicator.py   | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index 9648f5d..8552cd6 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -33,9 +33,6 @@ class MetarTrendIndicator(ChangeIndicator):
         """Helper to add periods of time to the change indicator."""
         self._code = f"{self._code or ''} {match.string}".strip()
 
-        # The middle time between self._init_period and self._end_period
-        middle_time: datetime = self._init_period.time + timedelta(hours=1)
-
         prefix: str = match.group("prefix")
         hour: str = match.group("hour")
         minute: str = match.group("min")
@@ -43,17 +40,11 @@ class MetarTrendIndicator(ChangeIndicator):
         hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
-        _time: datetime
-        minutes: int
-        if hour_as_int == self._init_period.hour:
-            minutes = min_as_int - self._init_period.minute
-            _time = self._init_period.time + timedelta(minutes=minutes)
-        elif hour_as_int == middle_time.hour:
-            minutes = min_as_int - middle_time.minute
-            _time = middle_time + timedelta(minutes=minutes)
-        else:
-            minutes = min_as_int - self._end_period.minute
-            _time = self._end_period.time + timedelta(minutes=minutes)
+        # The first time the clock shows that hour from the report on
+        _time: datetime = self._init_period.time + timedelta(
+            hours=(hour_as_int - self._init_period.hour) % 24,
+            minutes=min_as_int - self._init_period.minute,
+        )
 
         if prefix == "FM":
             self._from = Time(code=match.string, time=_time)
-- 
2.43.0


From f455c3302d252e72ae9b218655b38cb66c910c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 24/32] fix: keep no match object in the runway state, so that
 every report can be pickled

---
 aeromet_py/reports/models/metar/runway_state.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/metar/runway_state.py b/aeromet_py/reports/models/metar/runway_state.py
index be9eefe..3ab95b2 100755
--- a/aeromet_py/reports/models/metar/runway_state.py
+++ b/aeromet_py/reports/models/metar/runway_state.py
@@ -71,7 +71,7 @@ class MetarRunwayState(Group):
     def __init__(self, match: Optional[re.Match]) -> None:
         self._snoclo: bool = False
         self._clrd: bool = False
-        self._match = match
+        self._groups = None if match is None else match.groupdict()
 
         if match is None:
             super().__init__(None)
@@ -126,8 +126,8 @@ class MetarRunwayState(Group):
 
     def _deposits_to_str(self) -> str:
         """Helper to convert deposits to string."""
-        deposit = self._match.group("deposit")
-        depth = self._match.group("depth")
+        deposit = self._groups["deposit"]
+        depth = self._groups["depth"]
 
         if deposit == "/":
             if depth == "99" or depth == "//":
@@ -155,7 +155,7 @@ class MetarRunwayState(Group):
 
     def _surface_friction_to_str(self) -> str:
         """Helper to convert the surface friction to string."""
-        friction = self._match.group("fric")
+        friction = self._groups["fric"]
 
         if friction is not None:
             try:
@@ -171,7 +171,7 @@ class MetarRunwayState(Group):
             return ""
 
     def __str__(self) -> str:
-        if self._match is None:
+        if self._groups is None:
             return ""
 
         if self.snoclo:
-- 
2.43.0


From f6052be9d4b8acba6ffb776c2307428428de606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 25/32] fix: the text of a TAF states the final end of its FM
 periods

---
 aeromet_py/reports/taf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index bc34917..d82023b 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -147,8 +147,6 @@ class Taf(
             self._changes_forecasted.add(cf)
         except RangeError:
             self._unparsed_groups += cf.code.split()
-        else:
-            self._concatenate_string(cf)
 
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
@@ -191,6 +189,8 @@ class Taf(
 
         for cp in self._changes_forecasted:
             self._unparsed_groups += cp.unparsed_groups
+            # Only now are the ends of all the FM periods known
+            self._concatenate_string(cp)
 
         if self.unparsed_groups and self._truncate:
             raise ParserError(
-- 
2.43.0


From 161598a44714e7e2edcf743825fc7c5114a595ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:58 +0000
Subject: [PATCH 26/32] fix: hand out copies of the lists of a report, so that
 a caller may modify them

---
 aeromet_py/reports/models/base/group.py          | 2 +-
 aeromet_py/reports/models/base/report.py         | 4 ++--
 aeromet_py/reports/models/metar/weather_trend.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index b60504a..61a5de3 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -89,7 +89,7 @@ class GroupList(Generic[G]):
     @property
     def items(self) -> List[G]:
         """Returns the groups found in report as a List[G]."""
-        return self._list
+        return list(self._list)
 
     def as_dict(self) -> Dict[str, Any]:
         """Returns the items data as a dictionary like `Dict[str, Any]`."""
diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index c99514b..c4a1bf3 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -76,12 +76,12 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
     @property
     def unparsed_groups(self) -> List[str]:
         """Get the unparsed groups of the report."""
-        return self._unparsed_groups
+        return list(self._unparsed_groups)
 
     @property
     def sections(self) -> List[str]:
         """Get the report separated in its sections as a list of strings."""
-        return self._sections
+        return list(self._sections)
 
     @abstractmethod
     def as_dict(self) -> Dict[str, Any]:
diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index ac45247..551d9da 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -52,7 +52,7 @@ class Forecast(
     @property
     def unparsed_groups(self) -> List[str]:
         """Get the unparsed groups of the change period."""
-        return self._unparsed_groups
+        return list(self._unparsed_groups)
 
     def as_dict(self) -> Dict[str, Any]:
         d: Dict[str, Any] = {
-- 
2.43.0


From 7f187cee4ef65b00b5f8436a5293bce6cecc4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:39 +0000
Subject: [PATCH 27/32] fix: text forms do not take a value of zero for a
 missing one

---
 aeromet_py/reports/models/base/cloud.py         | 6 +++---
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 7 ++++---
 aeromet_py/reports/models/metar/runway_range.py | 6 +++++-
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 aeromet_py/reports/models/metar/visibility.py   | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 4 +++-
 10 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index a3f6369..c170937 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,14 +119,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
@@ -136,7 +136,7 @@ class Cloud(Group):
             return self._cover
 
         if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
+            if self._height.value is not None:
                 return self._cover + f" at {self.height_in_feet} feet"
             return self._cover
 
diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index c765efa..ff8f3c2 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
         super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index f1bb276..3aad470 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
         super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index a24c4fb..cc4e1cf 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
         super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index a47c273..a0c778c 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
         super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,8 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        if self._direction.value is not None:
+            direction = f"({direction})"
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..b5cf445 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -97,10 +97,14 @@ class MetarRunwayRange(Group):
         if self._low_range.value is None:
             return ""
 
+        high_range: str = ""
+        if self._high_range.value is not None:
+            high_range = f" varying to {self.high_range}"
+
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            high_range,
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index fed3823..fb02679 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..1a69ab2 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index 86e2fa9..087d9ed 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -62,7 +62,7 @@ class VisibilityWithDirection(Visibility):
 
         direction: str = (
             f" to {self._direction.cardinal} ({self._direction})"
-            if self._direction.value
+            if self._direction.value is not None
             else ""
         )
 
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..e966a99 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,9 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = ""
+        if self._gust.value is not None:
+            gust = f" gust of {self._gust}"
 
         return super().__str__() + gust
 
-- 
2.43.0


From f79699474f4e740da6d64ec254be4f37dfcff670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 28/32] fix: the text of a cloud layer keeps the cloud type
 when the height is unknown

---
 aeromet_py/reports/models/base/cloud.py | 27 +++++++------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index c170937..f92b69b 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,30 +119,17 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value is not None:
-            return "{} at {:.1f} feet of {}".format(
-                self._cover,
-                self.height_in_feet,
-                self._type,
-            )
+        s: str = f"{self._cover}"
 
         if self._height.value is not None:
-            return "{} at {:.1f} feet".format(
-                self._cover,
-                self.height_in_feet,
-            )
+            s += f" at {self.height_in_feet:.1f} feet"
+        elif self._cover not in [SKY_COVER[item] for item in ["NSC", "///", "VV"]]:
+            s += " at undefined height"
 
-        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
+        if self._type:
+            s += f" of {self._type}"
 
-        if self._cover == SKY_COVER["VV"]:
-            if self._height.value is not None:
-                return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
-
-        return "{} at undefined height".format(
-            self._cover,
-        )
+        return s
 
     @property
     def cover(self) -> Optional[str]:
-- 
2.43.0


From de6d77e72784408f2fc1458c7d1c682987df4ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 29/32] fix: read the UTC clock without the deprecated utcnow,
 which fails where warnings are errors

---
 aeromet_py/reports/models/base/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 70ac218..9c88172 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,7 +1,7 @@
 import re
 
 from calendar import monthrange
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 from typing import Dict, Optional
 
 from .errors import ParserError
@@ -47,7 +47,7 @@ class Time(Group):
         if time:
             self._time = time
         else:
-            today: datetime = datetime.utcnow()
+            today: datetime = datetime.now(timezone.utc).replace(tzinfo=None)
 
             if year is None:
                 year = today.year
-- 
2.43.0


From 8036c511bd6c9698bb60eaa076a6714433fbe805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 30/32] fix: compare the cloud cover by value, an identity test
 fails always and under warnings as errors

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From dac0efbe98ce2c2ce71de3ad6f14a0f3c2596539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:02 +0000
Subject: [PATCH 31/32] fix: the flight rules follow the lowest ceiling, also
 behind a layer without height or out of order

---
 aeromet_py/reports/models/base/flight_rules.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..b84a0a5 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -42,11 +42,11 @@ class FlightRulesMixin:
         """Get the flight rules of the report or forecast."""
         prevailing: float = self.prevailing_visibility.in_meters
         ceiling: float = None
-        if len(self.clouds) > 0:
-            for cloud in self.clouds.items:
-                if cloud.cover in ["broken", "overcast", "indefinite ceiling"]:
-                    ceiling = cloud.height_in_meters
-                    break
+        for cloud in self.clouds.items:
+            if cloud.cover in ["broken", "overcast", "indefinite ceiling"]:
+                height: float = cloud.height_in_meters
+                if height is not None and (ceiling is None or height < ceiling):
+                    ceiling = height
 
         if prevailing is None and ceiling is None:
             return None
-- 
2.43.0


From 66952e96d9cbd0a5a880515d2a19aedf169c8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:02 +0000
Subject: [PATCH 32/32] fix: a visibility of 20 km or more, like 15SM, is VFR
 and not without flight rules

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index b84a0a5..05aa0a3 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0

