From bf7d3a99d8fd66140e396bfb506e910bbf8d39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:57 +0000
Subject: [PATCH 1/9] fix: read the minute-to-session cache once per lookup

minute_to_session_label compared the cached minute and then read the cached
session in a second access. A second thread could replace the cached pair in
between, so the first thread got the session of the wrong minute.
---
 trading_calendars/trading_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 40242a7..030b2df 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -972,8 +972,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             dt = dt.value
 
         if direction == "next":
-            if self._minute_to_session_label_cache[0] == dt:
-                return self._minute_to_session_label_cache[1]
+            # Read the pair once: another thread may replace it at any time.
+            cached_dt, cached_session = self._minute_to_session_label_cache
+            if cached_dt == dt:
+                return cached_session
 
         idx = searchsorted(self.market_closes_nanos, dt)
         current_or_next_session = self.schedule.index[idx]
-- 
2.43.0


From 75a8eaa5de650859422131820268c6dc7b243171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:15 +0000
Subject: [PATCH 2/9] fix: check a calendar alias for cycles before changing
 the registry

A forced alias registration removed the previous registration first and, when
the alias turned out to be cyclic, only backed out the alias itself. The
previous registration was lost. A cyclic alias was also visible to other
callers until it was backed out.
---
 trading_calendars/calendar_utils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 79988e1..92cfae0 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -309,22 +309,26 @@ class TradingCalendarDispatcher(object):
             If False, name collisions will raise an exception.
             Default is False.
         """
+        if not force and self.has_calendar(alias):
+            raise CalendarNameCollision(calendar_name=alias)
+
+        # Ensure that the new alias doesn't create a cycle before changing
+        # anything, so that a refused alias leaves the registry as it was.
+        seen = [alias]
+        name = real_name
+        while name != alias and name in self._aliases:
+            seen.append(name)
+            name = self._aliases[name]
+        if name == alias:
+            raise CyclicCalendarAlias(
+                cycle=" -> ".join(repr(k) for k in seen + [alias])
+            )
+
         if force:
             self.deregister_calendar(alias)
 
-        if self.has_calendar(alias):
-            raise CalendarNameCollision(calendar_name=alias)
-
         self._aliases[alias] = real_name
 
-        # Ensure that the new alias doesn't create a cycle, and back it out if
-        # we did.
-        try:
-            self.resolve_alias(alias)
-        except CyclicCalendarAlias:
-            del self._aliases[alias]
-            raise
-
     def resolve_alias(self, name):
         """
         Resolve a calendar alias for retrieval.
-- 
2.43.0


From 7315d06b135c318fe5c529ed454c98b5f07a55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:47 +0000
Subject: [PATCH 3/9] fix: make the calendar registry safe for concurrent
 callers

Two threads asking for the same calendar could each construct and keep their
own instance. A construction in progress could put a calendar back after its
name had been replaced, removed or cleared. A forced registration made the
name disappear for a moment.

Table operations now hold a lock. Calendars are still constructed outside the
lock, and the result is stored only if the name still stands for the same
factory and nobody else stored one first.
---
 trading_calendars/calendar_utils.py | 72 +++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 92cfae0..ab973ab 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -1,4 +1,6 @@
+import functools
 import itertools
+import threading
 
 from .always_open import AlwaysOpenCalendar
 from .errors import (
@@ -146,6 +148,23 @@ _default_calendar_aliases = {
 default_calendar_names = sorted(_default_calendar_factories.keys())
 
 
+# Guards the tables of all dispatchers. Held only for short table operations,
+# never while constructing a calendar.
+_tables_lock = threading.RLock()
+
+
+def _synchronized(method):
+    """
+    Run a dispatcher method while holding the lock on the tables.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with _tables_lock:
+            return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 class TradingCalendarDispatcher(object):
     """
     A class for dispatching and caching trading calendars.
@@ -181,24 +200,34 @@ class TradingCalendarDispatcher(object):
         calendar : calendars.TradingCalendar
             The desired calendar.
         """
-        canonical_name = self.resolve_alias(name)
-
-        try:
-            return self._calendars[canonical_name]
-        except KeyError:
-            # We haven't loaded this calendar yet, so make a new one.
-            pass
-
-        try:
-            factory = self._calendar_factories[canonical_name]
-        except KeyError:
-            # We don't have a factory registered for this name.  Barf.
-            raise InvalidCalendarName(calendar_name=name)
-
-        # Cache the calendar for future use.
-        calendar = self._calendars[canonical_name] = factory()
-        return calendar
-
+        while True:
+            with _tables_lock:
+                canonical_name = self.resolve_alias(name)
+
+                try:
+                    return self._calendars[canonical_name]
+                except KeyError:
+                    # We haven't loaded this calendar yet, so make a new one.
+                    pass
+
+                try:
+                    factory = self._calendar_factories[canonical_name]
+                except KeyError:
+                    # We don't have a factory registered for this name.  Barf.
+                    raise InvalidCalendarName(calendar_name=name)
+
+            calendar = factory()
+
+            with _tables_lock:
+                # Cache the calendar for future use, unless another caller was
+                # faster. Start over if the name has been registered anew.
+                if (
+                    self.resolve_alias(name) == canonical_name
+                    and self._calendar_factories.get(canonical_name) is factory
+                ):
+                    return self._calendars.setdefault(canonical_name, calendar)
+
+    @_synchronized
     def get_calendar_names(self):
         """
         Returns all the calendars we know about or know how to make
@@ -218,6 +247,7 @@ class TradingCalendarDispatcher(object):
             )
         )
 
+    @_synchronized
     def has_calendar(self, name):
         """
         Do we have (or have the ability to make) a calendar with ``name``?
@@ -228,6 +258,7 @@ class TradingCalendarDispatcher(object):
             or name in self._aliases
         )
 
+    @_synchronized
     def register_calendar(self, name, calendar, force=False):
         """
         Registers a calendar for retrieval by the get_calendar method.
@@ -256,6 +287,7 @@ class TradingCalendarDispatcher(object):
 
         self._calendars[name] = calendar
 
+    @_synchronized
     def register_calendar_type(self, name, calendar_type, force=False):
         """
         Registers a calendar by type.
@@ -287,6 +319,7 @@ class TradingCalendarDispatcher(object):
 
         self._calendar_factories[name] = calendar_type
 
+    @_synchronized
     def register_calendar_alias(self, alias, real_name, force=False):
         """
         Register an alias for a calendar.
@@ -329,6 +362,7 @@ class TradingCalendarDispatcher(object):
 
         self._aliases[alias] = real_name
 
+    @_synchronized
     def resolve_alias(self, name):
         """
         Resolve a calendar alias for retrieval.
@@ -359,6 +393,7 @@ class TradingCalendarDispatcher(object):
 
         return name
 
+    @_synchronized
     def deregister_calendar(self, name):
         """
         If a calendar is registered with the given name, it is de-registered.
@@ -372,6 +407,7 @@ class TradingCalendarDispatcher(object):
         self._calendar_factories.pop(name, None)
         self._aliases.pop(name, None)
 
+    @_synchronized
     def clear_calendars(self):
         """
         Deregisters all current registered calendars
-- 
2.43.0


From 3fee411ebb59775cba501f42ea917e1b0055c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:18 +0000
Subject: [PATCH 4/9] fix: do not build a calendar without its holidays when
 listing them fails

Listing the regular holidays was left to CustomBusinessDay, which ignores an
AttributeError raised on the way and goes on with no regular holidays at all.
An error raised inside a vectorised holiday rule is turned into such an
AttributeError by the index mapping in pandas. A time-out raised by a signal
handler could therefore leave the caller with a calendar that is open on every
regular holiday. The holidays are now listed before the offset is made.
---
 trading_calendars/trading_calendar.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 030b2df..b838ad0 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -202,9 +202,16 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
     @lazyval
     def day(self):
+        holidays = self.adhoc_holidays
+        calendar = self.regular_holidays
+        if isinstance(calendar, AbstractHolidayCalendar):
+            # CustomBusinessDay goes on without the calendar's holidays if
+            # listing them raises an AttributeError, so list them here.
+            holidays = list(holidays) + calendar.holidays().tolist()
+            calendar = None
         return CustomBusinessDay(
-            holidays=self.adhoc_holidays,
-            calendar=self.regular_holidays,
+            holidays=holidays,
+            calendar=calendar,
             weekmask=self.weekmask,
         )
 
-- 
2.43.0


From b19548dfc54efb2487885c85d4831bb5c5617306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:23 +0000
Subject: [PATCH 5/9] fix: keep concurrent constructions from mixing up the
 warning filters

Constructing a calendar changes the warning filters of the process and puts
them back. Two constructions at the same time could put them back in the wrong
order, which left every warning of the process ignored from then on. The parts
that change the filters now take turns.
---
 trading_calendars/trading_calendar.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index b838ad0..c02632a 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 from abc import ABCMeta, abstractproperty
 from collections import OrderedDict
+import threading
 import warnings
 
 from pandas.tseries.holiday import AbstractHolidayCalendar
@@ -51,6 +52,10 @@ MONDAY, TUESDAY, WEDNESDAY, THURSDAY, FRIDAY, SATURDAY, SUNDAY = range(7)
 WEEKDAYS = (MONDAY, TUESDAY, WEDNESDAY, THURSDAY, FRIDAY)
 WEEKENDS = (SATURDAY, SUNDAY)
 
+# The warning filters are shared by all threads. Here, and in pandas while it
+# lists holidays, they are changed and put back, which must not overlap.
+_warnings_lock = threading.RLock()
+
 
 def selection(arr, start, end):
     predicates = []
@@ -104,7 +109,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         # fires a warning. The calling code in pandas tries to suppress the
         # warning, but does so incorrectly, causing it to bubble out here.
         # Actually catch and suppress the warning here:
-        with warnings.catch_warnings():
+        with _warnings_lock, warnings.catch_warnings():
             warnings.simplefilter('ignore')
             _all_days = date_range(start, end, freq=self.day, tz=UTC)
 
@@ -135,8 +140,9 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
         # `Series`s mapping sessions with nonstandard opens/closes to
         # the open/close time.
-        _special_opens = self._calculate_special_opens(start, end)
-        _special_closes = self._calculate_special_closes(start, end)
+        with _warnings_lock:
+            _special_opens = self._calculate_special_opens(start, end)
+            _special_closes = self._calculate_special_closes(start, end)
 
         # Overwrite the special opens and closes on top of the standard ones.
         _overwrite_special_dates(_all_days, self._opens, _special_opens)
-- 
2.43.0


From 78fe93810627b432e931c69fefa7f7b0438b5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:57 +0000
Subject: [PATCH 6/9] fix: let the Istanbul and Kuala Lumpur calendars be built
 past 2028

Early closes on the eve of a lunar holiday collide with another holiday on
2029-04-23 in Istanbul and on 2029-02-13, 2031-01-23 and 2049-02-01 in Kuala
Lumpur. A calendar whose range contained such a day could not be built, so
with the default range the exchange would have become unusable one year
before. These days are listed as collisions now.
---
 trading_calendars/exchange_calendar_xist.py | 2 ++
 trading_calendars/exchange_calendar_xkls.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xist.py b/trading_calendars/exchange_calendar_xist.py
index d8ae1f5..210e53e 100644
--- a/trading_calendars/exchange_calendar_xist.py
+++ b/trading_calendars/exchange_calendar_xist.py
@@ -195,6 +195,8 @@ class XISTExchangeCalendar(TradingCalendar):
             pd.Timestamp('1994-05-19'),
             # Day before Eid al Fitr observed as holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # National Sovereignty and Children's Day on April 23
+            pd.Timestamp('2029-04-23'),
         ]
 
         early_close_days = EidAlFitrHalfDay + EidAlAdhaHalfDay
diff --git a/trading_calendars/exchange_calendar_xkls.py b/trading_calendars/exchange_calendar_xkls.py
index 1f3c36f..b0f2665 100644
--- a/trading_calendars/exchange_calendar_xkls.py
+++ b/trading_calendars/exchange_calendar_xkls.py
@@ -134,6 +134,11 @@ class XKLSExchangeCalendar(TradingCalendar):
             pd.Timestamp('2004-01-21'),
             # Eid al-Fitr Eve was a holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # Eid al-Fitr Eve on Chinese New Year
+            pd.Timestamp('2029-02-13'),
+            pd.Timestamp('2031-01-23'),
+            # Chinese New Year's Eve on Federal Territory Day
+            pd.Timestamp('2049-02-01'),
         ]
 
         early_close_days = list(set(early_close_days) - set(collisions))
-- 
2.43.0


From 08668d840f38dce6430dff4372f97c8f19cc128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:36 +0000
Subject: [PATCH 7/9] fix: import the package when git fails half-way

The version is computed on import by asking git several questions. Undecodable
output, or a failure of one of the later questions, raised an error out of the
import of the whole package. Such answers now mean that the version is unknown,
as a failure of the first question always did.
---
 trading_calendars/_version.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/trading_calendars/_version.py b/trading_calendars/_version.py
index 06b786e..c68e597 100644
--- a/trading_calendars/_version.py
+++ b/trading_calendars/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -295,11 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From c7f38da409cc47bd832584277fd20ed073abbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:07 +0000
Subject: [PATCH 8/9] fix: render the year that was asked for in tcal

The days of a month were looked up from the text 'year-month'. A year below
100 was read as a year of this or the last century, and the title then
disagreed with the days shown below it.
---
 trading_calendars/tcal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading_calendars/tcal.py b/trading_calendars/tcal.py
index effbf6b..08b6868 100644
--- a/trading_calendars/tcal.py
+++ b/trading_calendars/tcal.py
@@ -36,11 +36,11 @@ def _render_month(calendar, year, month, print_year):
 
         out = io.StringIO()
 
-    start = '{year}-{month}'.format(year=year, month=month)
+    start = pd.Timestamp(year, month, 1)
     if month == 12:
-        end = '{year}-{month}'.format(year=year + 1, month=1)
+        end = pd.Timestamp(year + 1, 1, 1)
     else:
-        end = '{year}-{month}'.format(year=year, month=month + 1)
+        end = pd.Timestamp(year, month + 1, 1)
 
     days = pd.date_range(start, end, closed='left')
 
-- 
2.43.0


From 1cd72a7563b652d5fa6c5cb4236a0acac58d601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:02 +0000
Subject: [PATCH 9/9] fix: renew the module locks in forked children

A thread that holds the lock on the calendar tables or on the warning
filters during a fork does not exist in the child, so the lock would
never be released there and the child would hang.
---
 trading_calendars/calendar_utils.py   | 11 +++++++++++
 trading_calendars/trading_calendar.py | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index ab973ab..df01897 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -1,5 +1,6 @@
 import functools
 import itertools
+import os
 import threading
 
 from .always_open import AlwaysOpenCalendar
@@ -153,6 +154,16 @@ default_calendar_names = sorted(_default_calendar_factories.keys())
 _tables_lock = threading.RLock()
 
 
+def _renew_tables_lock():
+    global _tables_lock
+    _tables_lock = threading.RLock()
+
+
+# A thread that holds the lock during a fork does not exist in the child.
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renew_tables_lock)
+
+
 def _synchronized(method):
     """
     Run a dispatcher method while holding the lock on the tables.
diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index c02632a..4bbe210 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 from abc import ABCMeta, abstractproperty
 from collections import OrderedDict
+import os
 import threading
 import warnings
 
@@ -57,6 +58,16 @@ WEEKENDS = (SATURDAY, SUNDAY)
 _warnings_lock = threading.RLock()
 
 
+def _renew_warnings_lock():
+    global _warnings_lock
+    _warnings_lock = threading.RLock()
+
+
+# A thread that holds the lock during a fork does not exist in the child.
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renew_warnings_lock)
+
+
 def selection(arr, start, end):
     predicates = []
     if start is not None:
-- 
2.43.0

