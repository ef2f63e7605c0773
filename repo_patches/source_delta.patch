From 80a52145cec88d25cc575a94939f23fe2675540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 01/35] fix: exact_eq() of zoned datetimes takes the timezone
 id into account

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..be65672 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2988,11 +2988,13 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self, "tz", None),
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other, "tz", None),
         )
 
     def difference(
-- 
2.43.0


From bce9bac9b7b469aaded9e752894d1b75d1e0caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 02/35] fix: check the UTC range of fixed-offset datetimes in
 all operations

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index be65672..199311e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3991,7 +3991,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4157,7 +4157,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5610,7 +5612,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From 79e393e8d87bdeefcc93b174b3d4c03b2fea2796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 03/35] fix: zoned datetimes keep the UTC offset, if possible,
 when a shift or replacement lands in a gap

---
 pysrc/whenever/_pywhenever.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 199311e..179a5ef 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5876,16 +5876,17 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
+    # The offset that matters is the one after shifting skipped times,
+    # which is what the UTC roundtrip ensures.
+    for fold in (dt.fold, not dt.fold):
+        resolved = (
+            dt.replace(fold=fold).astimezone(_UTC).astimezone(dt.tzinfo)
+        )
+        if resolved.utcoffset() == prev_offset:
+            return resolved
 
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # No offset match. Setting fold=0 adopts the 'compatible' strategy
+    return dt.replace(fold=0).astimezone(_UTC).astimezone(dt.tzinfo)
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From ec2e8a3c5959d569a4d3385e7a722a58d65c05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 04/35] fix: refuse mixed signs when adding or subtracting date
 and time durations

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 179a5ef..4e7e228 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1994,19 +1994,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2310,19 +2304,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2354,16 +2347,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From 60ccd079a08bf5d2a617a26c3b8ef1968e8221ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 05/35] fix: exact seconds in
 DateTimeDelta.in_months_days_secs_nanos() for large durations

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 4e7e228..98b668d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2210,8 +2210,10 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        total_ns = self._time_part._total_ns
+        whole_seconds, subsec_nanos = divmod(abs(total_ns), 1_000_000_000)
+        if total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 54116428ba34827baf10d159e99f441e68bd3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 06/35] fix: rounding to an odd number of nanoseconds picks the
 nearest multiple

---
 pysrc/whenever/_pywhenever.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 98b668d..b4cd6a7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,7 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1130,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1553,7 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1561,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From 27deec3b1bbd75e9f0ed9271eaef5d087fec0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 07/35] fix: rounding to days late on a short day doesn't skip
 a day

---
 pysrc/whenever/_pywhenever.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index b4cd6a7..ae3b107 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1118,7 +1118,10 @@ class Time(_ImmutableBase):
     ) -> tuple[Time, int]:  # the time, and whether the result is "next day"
 
         quotient, remainder_ns = divmod(
-            self._to_ns_since_midnight(), increment_ns
+            # On days shorter than 24 hours, the clock time may exceed
+            # the day length. It's still before the next day.
+            min(self._to_ns_since_midnight(), day_in_ns - 1),
+            increment_ns,
         )
 
         if mode == "half_even":  # check the default mode first
-- 
2.43.0


From 4c51075ab9d436dfc66400c75dc57e367939b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 08/35] fix: rounding a zoned datetime to a skipped time
 doesn't move it back

---
 pysrc/whenever/_pywhenever.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ae3b107..1d419ab 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4741,13 +4741,17 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_ambiguity_using_prev_offset(
-                rounded_local._py_dt.replace(tzinfo=self._py_dt.tzinfo),
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
-        )
+        zone: ZoneInfo = self._py_dt.tzinfo  # type: ignore[assignment]
+        rounded = rounded_local._py_dt.replace(tzinfo=zone)
+        resolved = _resolve_ambiguity(rounded, zone, "later")
+        # Skipped times don't keep the offset: it'd shift them back,
+        # possibly to before the original time.
+        if (
+            resolved != rounded
+            or resolved.utcoffset() != self._py_dt.utcoffset()
+        ):
+            resolved = _resolve_ambiguity(rounded, zone, "compatible")
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     def __repr__(self) -> str:
         return f"ZonedDateTime({str(self).replace('T', ' ', 1)})"
@@ -5221,13 +5225,16 @@ class SystemDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_system_ambiguity_using_prev_offset(
-                rounded_local._py_dt,
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
-        )
+        rounded = rounded_local._py_dt
+        resolved = _resolve_system_ambiguity(rounded, "later")
+        # Skipped times don't keep the offset: it'd shift them back,
+        # possibly to before the original time.
+        if (
+            resolved.replace(tzinfo=None) != rounded
+            or resolved.utcoffset() != self._py_dt.utcoffset()
+        ):
+            resolved = _resolve_system_ambiguity(rounded, "compatible")
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     # a custom pickle implementation with a smaller payload
     def __reduce__(self) -> tuple[object, ...]:
-- 
2.43.0


From f3f4f2d4dcfdfca8dce9d485b54725cf650ac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 09/35] fix: Date.parse_common_iso() only accepts YYYY-MM-DD,
 raises ValueError on short strings

---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1d419ab..60e977f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,8 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        if not _match_date(s):
+            # prevent isoformat from parsing other ISO formats
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -5997,6 +5997,7 @@ _match_next_timedelta_component = re.compile(
 _match_next_datedelta_component = re.compile(
     r"^(\d{1,8})([YMWD])", re.ASCII
 ).match
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
-- 
2.43.0


From 9404d91569dee45e90ecb7e36515a3efdddd4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 10/35] fix: parsing durations keeps every nanosecond

---
 pysrc/whenever/_pywhenever.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 60e977f..69154ed 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1784,12 +1784,17 @@ def _unpkl_tdelta(data: bytes) -> TimeDelta:
     return TimeDelta(seconds=s, nanoseconds=ns)
 
 
+def _parse_seconds_to_nanos(s: str) -> int:
+    whole, _, fraction = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     if (match := _match_next_timedelta_component(s)) is None:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds_to_nanos(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2296,7 +2301,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds_to_nanos(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 41db61ea9ff7bb169d76f92c9a3a5551e6b969f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 11/35] fix: DateTimeDelta.parse_common_iso() rejects seconds
 without digits

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 69154ed..85b5d26 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5990,7 +5990,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From cdfbb804c7876e11dc833c5f05ddadb8a321fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 12/35] fix: parsing or unpickling a skipped zoned datetime
 raises InvalidOffset

---
 pysrc/whenever/_pywhenever.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 85b5d26..763021d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6090,6 +6090,9 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
+    # A skipped local time doesn't exist, so no offset is valid for it
+    if dt.astimezone(_UTC).astimezone(dt.tzinfo) != dt:
+        raise InvalidOffset()
     return dt
 
 
-- 
2.43.0


From c840b3d5f84094d36bb8720986883b3bcdb1fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 13/35] fix: parsing a zoned datetime with a timezone directory
 as ID raises ZoneInfoNotFoundError

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 763021d..2d210ec 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -62,7 +62,7 @@ from typing import (
     no_type_check,
     overload,
 )
-from zoneinfo import ZoneInfo
+from zoneinfo import ZoneInfo, ZoneInfoNotFoundError
 
 __all__ = [
     # Date and time
@@ -4364,7 +4364,13 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             naive_dt = _fromisoformat(s[:19])
         except ValueError:
             raise ValueError(f"Invalid format: {s!r}")
-        dt = _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12])))
+        try:
+            zone = ZoneInfo(match[12])
+        except OSError:  # e.g. a directory of the timezone database
+            raise ZoneInfoNotFoundError(
+                f"No time zone found with key {match[12]}"
+            )
+        dt = _check_utc_bounds(naive_dt.replace(tzinfo=zone))
         return cls._from_py_unchecked(
             _adjust_fold_to_offset(dt, offset), nanos
         )
-- 
2.43.0


From 594db974081f197ef1770dafbb85062c68826509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 14/35] fix: exact_eq() of repeated times doesn't depend on
 ZoneInfo object identity

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2d210ec..d265757 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2986,13 +2986,15 @@ class _KnowsInstant(_BasicConversions):
         if type(self) is not type(other):
             raise TypeError("Cannot compare different types")
         return (
-            self._py_dt,  # type: ignore[attr-defined]
+            # Without tzinfo: the standard library never considers repeated times
+            # equal if their tzinfo isn't the same object.
+            self._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
             getattr(self, "tz", None),
         ) == (
-            other._py_dt,  # type: ignore[attr-defined]
+            other._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
-- 
2.43.0


From 643fad253af1cba667e13ef69c3eeed4b2500f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 15/35] fix: OffsetDateTime.strptime() rejects sub-second
 offsets

---
 pysrc/whenever/_pywhenever.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d265757..f3960d9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3948,10 +3948,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
-        return cls._from_py_unchecked(
-            _check_utc_bounds(parsed.replace(microsecond=0)),
-            parsed.microsecond * 1_000,
-        )
+        return cls.from_py_datetime(parsed)
 
     def format_rfc2822(self) -> str:
         """Format as an RFC 2822 string.
-- 
2.43.0


From 5004a350c7c446b1e40ac6d507494f1e986a6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 16/35] fix: Time.from_py_time() rejects aware subclass
 instances

---
 pysrc/whenever/_pywhenever.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f3960d9..ffeafa7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -996,14 +996,13 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
-        if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
-        elif isinstance(t, _time):
+        if not isinstance(t, _time):
+            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
+        elif t.tzinfo is not None:
+            raise ValueError("Time must be naive")
+        elif type(t) is not _time:
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-        else:
-            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
             t.replace(microsecond=0), t.microsecond * 1_000
         )
-- 
2.43.0


From 15852357da8ac37fa168a2663b830d4008b44756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 17/35] fix: from_timestamp() of a tiny negative float doesn't
 give a nanosecond out of range

---
 pysrc/whenever/_pywhenever.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ffeafa7..7e1f09a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3261,9 +3261,9 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC), nanos
         )
 
     @classmethod
@@ -3763,10 +3763,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            _fromtimestamp(secs, _load_offset(offset)), nanos
         )
 
     @classmethod
@@ -4379,9 +4378,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), nanos
         )
 
     @classmethod
@@ -4890,9 +4889,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), nanos
         )
 
     @classmethod
@@ -5957,6 +5956,13 @@ def _resolve_system_ambiguity_using_prev_offset(
     return dt.astimezone(_UTC).astimezone()
 
 
+def _split_timestamp(i: float, /) -> tuple[float, int]:
+    secs, fract = divmod(i, 1)
+    nanos = int(fract * 1_000_000_000)
+    # The fraction of a tiny negative float is rounded to 1.0
+    return (secs, nanos) if nanos < 1_000_000_000 else (secs + 1, 0)
+
+
 def _load_offset(offset: int | TimeDelta, /) -> _timezone:
     if isinstance(offset, int):
         return _timezone(_timedelta(hours=offset))
-- 
2.43.0


From 5fc34f6fb2c2979e34fa89fb199ac01a51362c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 18/35] fix: far out of range timestamps raise ValueError
 instead of OSError

---
 pysrc/whenever/_pywhenever.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7e1f09a..854253d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -45,6 +45,7 @@ from datetime import (
     time as _time,
     timedelta as _timedelta,
     timezone as _timezone,
+    tzinfo as _tzinfo,
 )
 from email.utils import format_datetime, parsedate_to_datetime
 from math import fmod
@@ -5979,7 +5980,6 @@ def _load_offset(offset: int | TimeDelta, /) -> _timezone:
 # Helpers that pre-compute/lookup as much as possible
 _no_tzinfo_fold_or_ms = {"tzinfo", "fold", "microsecond"}.isdisjoint
 _fromisoformat = _datetime.fromisoformat
-_fromtimestamp = _datetime.fromtimestamp
 _DT_RE_GROUPED = r"(\d{4})-([0-2]\d)-([0-3]\d)T([0-2]\d):([0-5]\d):([0-5]\d)(?:\.(\d{1,9}))?"
 _OFFSET_DATETIME_RE = (
     _DT_RE_GROUPED + r"(?:([+-])([0-2]\d):([0-5]\d)(?::([0-5]\d))?|Z)"
@@ -6017,6 +6017,13 @@ _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
 
+def _fromtimestamp(secs: float, tz: _tzinfo) -> _datetime:
+    try:
+        return _datetime.fromtimestamp(secs, tz)
+    except OSError:  # the platform may not support it at all
+        raise ValueError("timestamp out of range")
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From 07b14b465987f5e6d78cdeb1cc6667af3eb7a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 19/35] fix: comparing times with < takes nanoseconds into
 account

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 854253d..52a32d2 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1176,7 +1176,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 5b222096bb7506066d59f74cb2e3af47280d99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 20/35] fix: LocalDateTime() rejects nanoseconds out of range

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 52a32d2..bdb6a77 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5301,6 +5301,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 44dc5c744dcd2d41fd693060bdf40ef679f0c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 21/35] fix: attributes can't be added to LocalDateTime values

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index bdb6a77..2b367d4 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5289,6 +5289,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0


From 717d8b1a497c7d215309a130241d8b5960e62c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 22/35] fix: shifting a ticking time patch many times doesn't
 exhaust the stack

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2b367d4..e2ba2c6 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6248,8 +6248,10 @@ def _patch_time_keep_ticking(inst: Instant) -> None:
     global _time_patch
     global time_ns
 
-    _patched_at = time_ns()
-    _time_ns = time_ns
+    # Always tick along with the real clock, also when already patched
+    from time import time_ns as _time_ns
+
+    _patched_at = _time_ns()
 
     def time_ns() -> int:
         return inst.timestamp_nanos() + _time_ns() - _patched_at
-- 
2.43.0


From 2adddaaea8e0ba91ebda9e52990e70391333c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 23/35] fix: a ticking time patch at an OffsetDateTime can be
 shifted

---
 pysrc/whenever/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..190d887 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,12 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
+            elapsed = Instant.now() - self._pin
+            if isinstance(self._pin, OffsetDateTime):
+                now = self._pin.add(elapsed, ignore_dst=True)
+            else:
+                now = self._pin + elapsed
+            self._pin = new = now.add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From 72565edf0dca377d95130340e2b2623d0b102928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 24/35] fix: Instant.parse_rfc2822 takes only a zone of -0000
 as UTC, not these characters in a comment or after another zone

---
 pysrc/whenever/_pywhenever.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index e2ba2c6..5b2b1e0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3394,7 +3394,8 @@ class Instant(_KnowsInstant):
         # Nested ifs to keep happy path fast
         if parsed.tzinfo is not _UTC:
             if parsed.tzinfo is None:
-                if "-0000" not in s:
+                # only a zone of -0000 counts, not these characters elsewhere
+                if _parse_rfc2822(s.replace("-0000", "+0000")).tzinfo is None:
                     raise ValueError(
                         "Could not parse RFC 2822 string as UTC; missing "
                         f"offset/zone: {s!r}"
-- 
2.43.0


From d7ffb171c523a11a353302fe957390fce83f5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 25/35] fix: multiplying a DateTimeDelta by an operand of
 another type is left to that operand

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5b2b1e0..c928a30 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2426,6 +2426,8 @@ class DateTimeDelta(_ImmutableBase):
         >>> d * 2
         DateTimeDelta(P2W22DT8H)
         """
+        if not isinstance(other, int):
+            return NotImplemented
         # OPTIMIZE: use unchecked constructor
         return self._from_parts(
             self._date_part * other, self._time_part * other
-- 
2.43.0


From e69f0c3f49014dce89737e7416b9969d20d6e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 26/35] fix: fractional nanoseconds of a TimeDelta are refused
 by a TypeError, also with assertions disabled

---
 pysrc/whenever/_pywhenever.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c928a30..065b452 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1290,7 +1290,8 @@ class TimeDelta(_ImmutableBase):
         microseconds: float = 0,
         nanoseconds: int = 0,
     ) -> None:
-        assert type(nanoseconds) is int  # catch this common mistake
+        if type(nanoseconds) is not int:  # catch this common mistake
+            raise TypeError("nanoseconds must be an int")
         ns = self._total_ns = (
             # Cast individual components to int to avoid floating point errors
             int(hours * 3_600_000_000_000)
-- 
2.43.0


From 01e5246dd49a0cb89219a32b5953c4b1a5071e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 27/35] fix: a rounding increment given as a whole float
 doesn't make the result a float

---
 pysrc/whenever/_pywhenever.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 065b452..d0198cd 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1221,6 +1221,7 @@ _NS_PER_UNIT = {
 def increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:
     if increment < 1 or increment > 1_000 or increment != int(increment):
         raise ValueError("Invalid increment")
+    increment = int(increment)
     if unit == "day":
         if increment == 1:
             return 86_400_000_000_000
-- 
2.43.0


From c54833a0d888bdbf9dabb4682018e23912326489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 28/35] fix: calendar units that aren't whole are refused, not
 stored or truncated

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d0198cd..55125c5 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -49,6 +49,7 @@ from datetime import (
 )
 from email.utils import format_datetime, parsedate_to_datetime
 from math import fmod
+from operator import index
 from struct import pack, unpack
 from time import time_ns
 from typing import (
@@ -381,7 +382,7 @@ class Date(_ImmutableBase):
     def _shift_kwargs(self, sign, years=0, months=0, weeks=0, days=0) -> Date:
         return Date._from_py_unchecked(
             self._add_months(sign * (years * 12 + months))._py_date
-            + _timedelta(weeks * 7 + days) * sign
+            + _timedelta(index(weeks * 7 + days)) * sign
         )
 
     def days_until(self, other: Date, /) -> int:
@@ -427,7 +428,7 @@ class Date(_ImmutableBase):
         )
 
     def _add_days(self, days: int) -> Date:
-        return Date._from_py_unchecked(self._py_date + _timedelta(days))
+        return Date._from_py_unchecked(self._py_date + _timedelta(index(days)))
 
     def __add__(self, p: DateDelta) -> Date:
         """Add a delta to a date.
@@ -1830,6 +1831,7 @@ class DateDelta(_ImmutableBase):
             or abs(self._days) > _MAX_DELTA_DAYS
         ):
             raise ValueError("Date delta months out of range")
+        self._months, self._days = index(months), index(days)
 
     ZERO: ClassVar[DateDelta]
     """A delta of zero"""
-- 
2.43.0


From fc33c658e6b8acc9022cb7b48f180f864d06c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 29/35] fix: constructors refuse a fractional nanosecond

---
 pysrc/whenever/_pywhenever.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 55125c5..271d233 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -947,7 +947,7 @@ class Time(_ImmutableBase):
         self._py_time = _time(hour, minute, second)
         if nanosecond < 0 or nanosecond >= 1_000_000_000:
             raise ValueError("Nanosecond out of range")
-        self._nanos = nanosecond
+        self._nanos = index(nanosecond)
 
     @property
     def hour(self) -> int:
@@ -3247,7 +3247,7 @@ class Instant(_KnowsInstant):
             raise ValueError(f"nanosecond out of range: {nanosecond}")
         return cls._from_py_unchecked(
             _datetime(year, month, day, hour, minute, second, 0, _UTC),
-            nanosecond,
+            index(nanosecond),
         )
 
     MIN: ClassVar[Instant]
@@ -3679,7 +3679,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         )
         if nanosecond < 0 or nanosecond >= 1_000_000_000:
             raise ValueError(f"nanosecond out of range: {nanosecond}")
-        self._nanos = nanosecond
+        self._nanos = index(nanosecond)
 
     @classmethod
     def now(
@@ -4296,7 +4296,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         )
         if nanosecond < 0 or nanosecond >= 1_000_000_000:
             raise ValueError(f"nanosecond out of range: {nanosecond}")
-        self._nanos = nanosecond
+        self._nanos = index(nanosecond)
 
     @classmethod
     def now(cls, tz: str, /) -> ZonedDateTime:
@@ -4858,7 +4858,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         )
         if nanosecond < 0 or nanosecond >= 1_000_000_000:
             raise ValueError("nanosecond out of range")
-        self._nanos = nanosecond
+        self._nanos = index(nanosecond)
 
     @classmethod
     def now(cls) -> SystemDateTime:
@@ -5312,7 +5312,7 @@ class LocalDateTime(_KnowsLocal):
         self._py_dt = _datetime(year, month, day, hour, minute, second)
         if nanosecond < 0 or nanosecond >= 1_000_000_000:
             raise ValueError(f"nanosecond out of range: {nanosecond}")
-        self._nanos = nanosecond
+        self._nanos = index(nanosecond)
 
     def format_common_iso(self) -> str:
         """Convert to the popular ISO format ``YYYY-MM-DDTHH:MM:SS``
-- 
2.43.0


From 133c0e929f6fffb13eaeb684b5d984f9a8a7eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 30/35] fix: RFC 2822 texts with numbers beyond machine size
 are refused by a ValueError

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 271d233..cbb7b18 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6083,13 +6083,19 @@ if sys.version_info < (3, 11):  # pragma: no cover
     def _parse_rfc2822(s: str) -> _datetime:
         try:
             return parsedate_to_datetime(s)
-        except TypeError:
+        except (TypeError, OverflowError):
             if isinstance(s, str):
                 raise ValueError(f"Invalid RFC2822 string: {s!r}")
             raise
 
 else:
-    _parse_rfc2822 = parsedate_to_datetime
+
+    def _parse_rfc2822(s: str) -> _datetime:
+        try:
+            return parsedate_to_datetime(s)
+        except OverflowError:
+            raise ValueError(f"Invalid RFC2822 string: {s!r}")
+
 
 Instant.MIN = Instant._from_py_unchecked(
     _datetime.min.replace(tzinfo=_UTC),
-- 
2.43.0


From e4f206d14fcb8da1cc6ffd42628c41758c5bc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:05 +0000
Subject: [PATCH 31/35] fix: ZonedDateTime.replace(tz=...) compares zones by
 name

A value made from a ZoneInfo object that isn't the cached one (ZoneInfo.no_cache,
or ZoneInfo.clear_cache called since) lost its offset in a repeated hour
although its tz remained the same.
---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index cbb7b18..80a34b7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4504,8 +4504,8 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         except KeyError:
             pass
         else:
-            kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
+            kwargs["tzinfo"] = ZoneInfo(tz)
+            if tz != self.tz:
                 disambiguate = disambiguate or "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
-- 
2.43.0


From a05fea2f3d189cb988a5a1e2f81ecfc1aaa63e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 32/35] fix: multiplying a TimeDelta and a DateTimeDelta raises
 TypeError, not RecursionError

Their __rmul__ methods called on each other without end.
---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 80a34b7..7f15fa2 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1667,7 +1667,7 @@ class TimeDelta(_ImmutableBase):
         return TimeDelta(nanoseconds=int(self._total_ns * other))
 
     def __rmul__(self, other: float) -> TimeDelta:
-        return self * other
+        return self.__mul__(other)
 
     def __neg__(self) -> TimeDelta:
         """Negate the value
@@ -2438,7 +2438,7 @@ class DateTimeDelta(_ImmutableBase):
         )
 
     def __rmul__(self, other: int) -> DateTimeDelta:
-        return self * other
+        return self.__mul__(other)
 
     def __neg__(self) -> DateTimeDelta:
         """Negate the delta
-- 
2.43.0


From 8799e53e7cd4be5ae0d16fd1a1b460d9d38226f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 33/35] fix: TimeDelta refuses strings and other sequences as
 units

TimeDelta(hours="5") repeated the string 3600000000000 times (and ran
out of memory), and microseconds="0" was accepted.
---
 pysrc/whenever/_pywhenever.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7f15fa2..7931cb9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1295,12 +1295,14 @@ class TimeDelta(_ImmutableBase):
         if type(nanoseconds) is not int:  # catch this common mistake
             raise TypeError("nanoseconds must be an int")
         ns = self._total_ns = (
-            # Cast individual components to int to avoid floating point errors
-            int(hours * 3_600_000_000_000)
-            + int(minutes * 60_000_000_000)
-            + int(seconds * 1_000_000_000)
-            + int(milliseconds * 1_000_000)
-            + int(microseconds * 1_000)
+            # Cast individual components to int to avoid floating point errors.
+            # The unary plus refuses strings and other sequences, which could
+            # be multiplied as well.
+            int(+hours * 3_600_000_000_000)
+            + int(+minutes * 60_000_000_000)
+            + int(+seconds * 1_000_000_000)
+            + int(+milliseconds * 1_000_000)
+            + int(+microseconds * 1_000)
             + nanoseconds
         )
         if abs(ns) > _MAX_DELTA_NANOS:
-- 
2.43.0


From 22c646a4d802cd66a933cd5a7906d90b1ccadaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:33 +0000
Subject: [PATCH 34/35] fix: ZonedDateTime.from_py_datetime() refuses a
 ZoneInfo without a key

---
 pysrc/whenever/_pywhenever.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7931cb9..c43edca 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4437,6 +4437,11 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 "Can only create ZonedDateTime from tzinfo=ZoneInfo (exactly), "
                 f"got datetime with tzinfo={d.tzinfo!r}"
             )
+        if d.tzinfo.key is None:
+            raise ValueError(
+                "Can only create ZonedDateTime from a ZoneInfo with a key, "
+                f"got datetime with tzinfo={d.tzinfo!r}"
+            )
 
         # This ensures skipped times are disambiguated according to the fold.
         d = d.astimezone(_UTC).astimezone(d.tzinfo)
-- 
2.43.0


From caf465acbdd522f7f99d3885dd19e41ec12576c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:46 +0000
Subject: [PATCH 35/35] fix: ZonedDateTime.tz is plain text when the timezone
 was named by a str subclass (e.g. an enum)

---
 pysrc/whenever/_pywhenever.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c43edca..396da3d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4329,7 +4329,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             py_isofmt[:19]  # without the offset
             + bool(self._nanos) * f".{self._nanos:09d}".rstrip("0")
             + py_isofmt[19:]
-            + f"[{self._py_dt.tzinfo.key}]"  # type: ignore[union-attr]
+            + f"[{self.tz}]"
         )
 
     @classmethod
@@ -4529,7 +4529,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
     @property
     def tz(self) -> str:
         """The timezone ID"""
-        return self._py_dt.tzinfo.key  # type: ignore[union-attr,no-any-return]
+        # The key may be of a subclass (e.g. an enum) with another text form:
+        # zoneinfo caches timezones by the key they were first requested with
+        return str.__str__(self._py_dt.tzinfo.key)  # type: ignore[union-attr]
 
     def __hash__(self) -> int:
         return hash((self._py_dt.astimezone(_UTC), self._nanos))
@@ -4790,7 +4792,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                     self._nanos,
                     int(self._py_dt.utcoffset().total_seconds()),  # type: ignore[union-attr]
                 ),
-                self._py_dt.tzinfo.key,  # type: ignore[union-attr]
+                self.tz,
             ),
         )
 
-- 
2.43.0

