"""Planted bugs (see plant.py). Each is written from a property's text and the code alone."""
H = "from whenever import *\nfrom whenever import patch_current_time\n"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


S("c02-offset-minutes", "C02",
  [("                _timezone(self._py_dt.utcoffset())  # type: ignore[arg-type]",
    "                _timezone(_timedelta(minutes=self._py_dt.utcoffset() // _timedelta(minutes=1)))  # type: ignore[operator]")],
  "a zone whose offset has seconds (local mean time)",
  "conversion to a fixed offset without argument shows a different clock and offset",
  """z = ZonedDateTime(1900, 5, 1, 12, tz="Europe/Amsterdam")
o = z.to_fixed_offset()
assert o == z and o.offset == z.offset and o.local() == z.local(), o
""")
S("c02-to-tz-same-offset", "C02",
  [("            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos",
    "            (\n                self._py_dt.replace(tzinfo=zone)\n                if self._py_dt.replace(tzinfo=(zone := ZoneInfo(tz))).utcoffset()\n                == self._py_dt.utcoffset()\n                else self._py_dt.astimezone(zone)\n            ),\n            self._nanos,")],
  "a conversion between zones with the same offset, with a value whose local time is skipped in the target (or kept fold)",
  "converting doesn't show the local time prescribed by the target zone",
  """o = OffsetDateTime(2023, 3, 26, 2, 30, offset=1)
z = o.to_tz("Europe/Amsterdam")
assert z == o and z.hour == 3, z
""")
S("c03-dateline-gap", "C03",
  [("    if dt_utc.astimezone(zone) != dt:\n", "    if dt_utc.astimezone(zone).time() != dt.time():\n")],
  "a zone that skipped a whole day (crossing the date line)",
  "a local time in a skipped day is accepted as if it existed: 'raise' doesn't raise",
  """try:
    z = ZonedDateTime(2011, 12, 30, 12, tz="Pacific/Apia", disambiguate="raise")
except SkippedTime:
    pass
else:
    raise SystemExit(f"not refused: {z}")
""")
S("c03-repeated-negative", "C03",
  [("    elif disambiguate == \"raise\" and dt_utc != dt:\n", "    elif (\n        disambiguate == \"raise\"\n        and dt.replace(fold=1).dst() != dt.dst()\n    ):\n")],
  "a time repeated because the zone's standard offset changed, not its DST",
  "a repeated time isn't refused with disambiguate='raise'",
  """try:
    z = ZonedDateTime(2014, 10, 26, 1, 30, tz="Europe/Moscow", disambiguate="raise")
except RepeatedTime:
    pass
else:
    raise SystemExit(f"not refused: {z}")
""")
S("c04-mixed-delta-order", "C04",
  [("            return (\n                self.replace_date(self.date() + delta._date_part)\n                + delta._time_part\n            )\n        return NotImplemented\n\n    @overload\n    def __sub__(self, other: _KnowsInstant) -> TimeDelta: ...\n\n    @overload\n    def __sub__(self, other: TimeDelta) -> ZonedDateTime: ...",
    "            shifted = self + delta._time_part\n            return shifted.replace_date(shifted.date() + delta._date_part)\n        return NotImplemented\n\n    @overload\n    def __sub__(self, other: _KnowsInstant) -> TimeDelta: ...\n\n    @overload\n    def __sub__(self, other: TimeDelta) -> ZonedDateTime: ...")],
  "the + operator with a date-time delta whose parts cross a DST transition or month end",
  "exact units are added before calendar units; operator and method disagree",
  """z = ZonedDateTime(2023, 3, 25, 12, tz="Europe/Amsterdam")
d = days(1) + hours(24)
assert (z + d).exact_eq(z.add(d))
z = ZonedDateTime(2023, 1, 31, 23, tz="Europe/Amsterdam")
d = months(1) + hours(2)
assert (z + d).exact_eq(z.add(d))
""")
S("c05-float-difference", "C05",
  [("                return TimeDelta(\n                    seconds=py_delta.days * 86_400 + py_delta.seconds,",
    "                return TimeDelta(\n                    seconds=py_delta.total_seconds(),")],
  "a difference of more than about 146 years with an odd number of seconds",
  "the difference between two instants is off by some nanoseconds",
  """a = Instant.from_utc(2345, 6, 7, 8, 9, 11); b = Instant.from_utc(1, 1, 1, 0, 0, 2)
d = a - b
assert b + d == a and d.in_nanoseconds() == a.timestamp_nanos() - b.timestamp_nanos()
""")
S("c05-add-float", "C05",
  [("            delta_secs, nanos = divmod(\n                self._nanos + delta._time_part._total_ns,\n                1_000_000_000,\n            )\n            return self._from_py_unchecked(\n                self._py_dt + _timedelta(seconds=delta_secs),",
    "            delta_secs, nanos = divmod(\n                self._nanos + delta._time_part._total_ns,\n                1_000_000_000,\n            )\n            return self._from_py_unchecked(\n                _fromtimestamp(\n                    round(self._py_dt.timestamp() + delta_secs, -1)\n                    if abs(delta_secs) > 2**37\n                    else self._py_dt.timestamp() + delta_secs,\n                    _UTC,\n                ),")],
  "a shift by more than 2**37 seconds (about 4355 years)",
  "very large shifts land on the wrong second",
  """a = Instant.from_utc(1, 1, 1, 0, 0, 3)
assert a.add(hours=24 * 365 * 5000).timestamp() - a.timestamp() == 3600 * 24 * 365 * 5000
""")
S("c06-century-leap", "C06",
  [("            min(self.day, monthrange(year_new, month_new)[1]),",
    "            min(\n                self.day,\n                28 + (year_new % 4 == 0)\n                if month_new == 2\n                else 30 + month_new % 2 ^ (month_new > 7),\n            ),")],
  "the 29th to 31st shifted by months to February of a century year that isn't a leap year",
  "adding months raises an error instead of truncating to February 28",
  """assert Date(2099, 12, 30).add(months=2) == Date(2100, 2, 28)
assert Date(1901, 3, 31).subtract(months=13) == Date(1900, 2, 28)
""")
S("c06-offset-sub-sign", "C06",
  [("            ._add_days(sign * (weeks * 7 + days)),\n            ignore_dst=True,\n        )._py_dt", "            ._add_days(sign * weeks * 7 + days * sign)\n            if months or years or weeks * days >= 0\n            else self.date()._add_days(sign * (weeks * 7 - days)),\n            ignore_dst=True,\n        )._py_dt")],
  "fixed-offset datetime shifted by weeks and days of opposite sign, without months",
  "days are moved in the wrong direction",
  """o = OffsetDateTime(2023, 5, 20, 12, offset=2)
assert o.add(weeks=1, days=-2, ignore_dst=True).date() == Date(2023, 5, 25)
""")
S("c08-mul-float", "C08",
  [("        return TimeDelta(nanoseconds=int(self._total_ns * other))", "        return TimeDelta(nanoseconds=int(self._total_ns * float(other)))")],
  "multiplying a duration by an integer with a product above 2**53 nanoseconds (104 days)",
  "the product loses nanoseconds",
  """d = hours(24 * 200) + nanoseconds(1)
assert (d * 3).in_nanoseconds() == d.in_nanoseconds() * 3
""")
S("c08-floordiv-float", "C08",
  [("        return self._total_ns // other._total_ns\n", "        return int(self._total_ns / other._total_ns // 1)\n")],
  "floor division with a quotient or dividend above 2**53",
  "floor division and modulo disagree",
  """a, b = hours(24 * 365 * 1000) - nanoseconds(1), hours(24 * 365)
assert b * (a // b) + a % b == a
""")
S("c08-hms-negative", "C08",
  [("        hours, rem = divmod(abs(self._total_ns), 3_600_000_000_000)\n", "        hours, rem = int(abs(self._total_ns) / 3_600_000_000_000), abs(self._total_ns) % 3_600_000_000_000\n")],
  "a large duration just below a whole number of hours",
  "in_hrs_mins_secs_nanos() doesn't add up to the duration",
  """d = hours(10_000_000) - nanoseconds(1)
h, m, s, n = d.in_hrs_mins_secs_nanos()
assert hours(h) + minutes(m) + seconds(s) + nanoseconds(n) == d
""")
S("c09-ymd-negative", "C09",
  [("        months = int(fmod(self._months, 12))\n", "        months = self._months - years * 12 if years else self._months % 12\n")],
  "a negative duration of less than a year in months",
  "in_years_months_days() doesn't add up to the duration",
  """d = DateDelta(months=-5)
y, m, dd = d.in_years_months_days()
assert y * 12 + m == -5, (y, m, dd)
""")
S("c09-mul-unchecked", "C09",
  [("        return DateDelta(\n            months=self._months * other,\n            days=self._days * other,\n        )",
    "        new = _object_new(DateDelta)\n        new._months = self._months * other\n        new._days = self._days * other\n        if abs(new._months) > _MAX_DELTA_MONTHS:\n            raise ValueError(\"Date delta months out of range\")\n        return new")],
  "multiplication with a result whose days are out of range while its months are not",
  "a duration beyond the documented range is created",
  """try:
    d = days(3_000_000) * 2
except ValueError:
    pass
else:
    raise SystemExit(f"out of range: {d}")
""")
S("c10-half-even-negative", "C10",
  [("        increment_ns = increment_to_ns(unit, increment, any_hour_ok=True)\n        quotient, remainder_ns = divmod(self._total_ns, increment_ns)\n",
    "        increment_ns = increment_to_ns(unit, increment, any_hour_ok=True)\n        quotient, remainder_ns = divmod(self._total_ns, increment_ns)\n        if mode == \"half_even\" and quotient < -1:\n            mode = \"half_ceil\" if quotient % 4 == 3 else \"half_floor\"\n")],
  "rounding a negative duration at an exact tie",
  "ties aren't resolved to the even multiple",
  """for n in range(-20, 20):
    r = TimeDelta(seconds=n, milliseconds=500).round("second").in_nanoseconds() // 10**9
    assert r == round(n + 0.5), (n, r)
""")
S("c10-half-floor-odd", "C10",
  [("        elif mode == \"half_floor\":\n            threshold_ns = increment_ns // 2 + 1\n        elif mode == \"half_ceil\":\n            threshold_ns = (increment_ns + 1) // 2\n        else:\n            raise ValueError(f\"Invalid rounding mode: {mode!r}\")\n\n        round_up = remainder_ns >= threshold_ns\n        ns_since_midnight",
    "        elif mode == \"half_floor\":\n            threshold_ns = (increment_ns + 2) // 2 + increment_ns % 2\n        elif mode == \"half_ceil\":\n            threshold_ns = (increment_ns + 1) // 2\n        else:\n            raise ValueError(f\"Invalid rounding mode: {mode!r}\")\n\n        round_up = remainder_ns >= threshold_ns\n        ns_since_midnight")],
  "half_floor rounding to an odd number of nanoseconds",
  "the nearest multiple isn't chosen",
  """assert Time(nanosecond=3).round("nanosecond", 5, "half_floor") == Time(nanosecond=5)
assert Time(nanosecond=13).round("nanosecond", 25, "half_floor") == Time(nanosecond=25)
""")
S("c13-time-newline", "C13",
  [("    r\"([0-2]\\d):([0-5]\\d):([0-5]\\d)(?:\\.(\\d{1,9}))?\", re.ASCII\n).fullmatch", "    r\"([0-2]\\d):([0-5]\\d):([0-5]\\d)(?:\\.(\\d{1,9}))?$\", re.ASCII\n).match")],
  "time text followed by a line feed",
  "text that isn't in the documented format is accepted",
  """try:
    t = Time.parse_common_iso("12:30:00\\n")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {t}")
""")
S("c14-repeated-months", "C14",
  [("            elif unit == \"M\" and prev_unit in \"Y\":\n                months += value", "            elif unit == \"M\" and prev_unit in \"YM\":\n                months += value")],
  "duration text that repeats the months component",
  "text that isn't in the documented grammar is accepted",
  """try:
    d = DateDelta.parse_common_iso("P1M2M")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {d}")
""")
S("c14-format-float", "C14",
  [("            f\"{secs + ns / 1_000_000_000:.9f}\".rstrip(\"0\") if ns else str(secs)", "            f\"{abs(self).in_seconds() % 60:.9f}\".rstrip(\"0\") if ns else str(secs)")],
  "a duration of more than about three months with nanoseconds",
  "the ISO text loses nanoseconds",
  """d = hours(24 * 400) + nanoseconds(1)
assert TimeDelta.parse_common_iso(str(d)) == d, str(d)
""")
S("c15-negative-half-hour", "C15",
  [("        sign = -1 if match.group(8) == \"-\" else 1\n        offset = 0\n        if offset_hrs_str:\n            offset += int(offset_hrs_str) * 3600 + int(offset_mins_str) * 60\n\n        if not -86400 < offset < 86400:\n            raise ValueError(f\"Invalid RFC 3339 format: {s!r}\")",
    "        sign = -1 if match.group(8) == \"-\" and int(offset_hrs_str) else 1\n        offset = 0\n        if offset_hrs_str:\n            offset += int(offset_hrs_str) * 3600 + int(offset_mins_str) * 60\n\n        if not -86400 < offset < 86400:\n            raise ValueError(f\"Invalid RFC 3339 format: {s!r}\")")],
  "an RFC 3339 text with an offset between -00:01 and -00:59",
  "the offset's sign is lost",
  """o = OffsetDateTime(2023, 5, 1, 12, offset=-minutes(30))
assert OffsetDateTime.parse_rfc3339(o.format_rfc3339()).exact_eq(o)
""")
S("c16-system-rezoned", "C16",
  [("    return SystemDateTime._from_py_unchecked(_datetime(*args), nanos)", "    return SystemDateTime._from_py_unchecked(\n        _datetime(*args).astimezone(), nanos\n    )")],
  "a system datetime whose offset isn't the current system timezone's, e.g. created before the timezone changed, or parsed",
  "unpickling gives a value with another offset",
  """import pickle
s = SystemDateTime.parse_common_iso("2023-05-01T12:00:00+07:30")
assert pickle.loads(pickle.dumps(s)).exact_eq(s)
""")
S("c16-delta-float", "C16",
  [("            pack(\"<qI\", *divmod(self._total_ns, 1_000_000_000)),", "            pack(\n                \"<qI\",\n                int(self._total_ns / 1_000_000_000 // 1),\n                self._total_ns % 1_000_000_000,\n            ),")],
  "pickling a large duration just below a whole second",
  "the unpickled duration is a second off",
  """import pickle
d = hours(24 * 365 * 1000) - nanoseconds(1)
assert pickle.loads(pickle.dumps(d)) == d
d = hours(24 * 3650) - nanoseconds(1)
assert pickle.loads(pickle.dumps(d)) == d
""")
S("c17-subclass-fold", "C17",
  [("            dt.tzinfo,\n            fold=dt.fold,\n        )", "            dt.tzinfo,\n        )")],
  "a datetime subclass with a ZoneInfo in the second occurrence of a repeated time",
  "the conversion gives the first occurrence, an hour earlier",
  """from datetime import datetime
from zoneinfo import ZoneInfo
class D(datetime): pass
d = D(2023, 10, 29, 2, 30, tzinfo=ZoneInfo("Europe/Amsterdam"), fold=1)
assert ZonedDateTime.from_py_datetime(d).timestamp() == d.timestamp()
""")
S("c20-subsecond-shift", "C20",
  [("        if tdelta and ignore_dst is not True:\n            raise ImplicitlyIgnoringDST(ADJUST_LOCAL_DATETIME_MSG)\n\n        delta_secs, nanos = divmod(\n            tdelta._total_ns + self._nanos, 1_000_000_000\n        )\n",
    "        delta_secs, nanos = divmod(\n            tdelta._total_ns + self._nanos, 1_000_000_000\n        )\n        if delta_secs and ignore_dst is not True:\n            raise ImplicitlyIgnoringDST(ADJUST_LOCAL_DATETIME_MSG)\n")],
  "shifting a local datetime by less than a second without crossing the second",
  "an exact-unit shift of a local datetime isn't refused",
  """d = LocalDateTime(2023, 5, 1, 12)
try:
    r = d.add(nanoseconds=1)
except ImplicitlyIgnoringDST:
    pass
else:
    raise SystemExit(f"not refused: {r}")
""")
S("c20-datetimedelta-operator", "C20",
  [("        if isinstance(other, (TimeDelta, DateDelta, DateTimeDelta)):\n            raise ImplicitlyIgnoringDST(ADJUST_OFFSET_DATETIME_MSG)", "        if isinstance(other, (TimeDelta, DateDelta)):\n            raise ImplicitlyIgnoringDST(ADJUST_OFFSET_DATETIME_MSG)")],
  "subtracting a mixed duration from a fixed-offset datetime with the operator",
  "the dedicated error isn't raised",
  """o = OffsetDateTime(2023, 5, 1, 12, offset=2)
try:
    o - (days(1) + hours(2))
except ImplicitlyIgnoringDST:
    pass
""")
S("c21-time-le", "C21",
  [("        return (self._py_time, self._nanos) <= (other._py_time, other._nanos)", "        return self._py_time <= other._py_time and (\n            self._nanos <= other._nanos or self.second != other.second\n        )")],
  "comparing times that differ in the hour or minute, with equal seconds and the earlier one with more nanoseconds",
  "<= isn't the lexicographic order",
  """assert Time(1, 2, 3, nanosecond=5) <= Time(2, 2, 3, nanosecond=4)
""")
S("c21-monthday-date-eq", "C21",
  [("        if not isinstance(other, MonthDay):\n            return NotImplemented\n        return self._py_date == other._py_date", "        if not isinstance(other, (MonthDay, Date)):\n            return NotImplemented\n        return self._py_date == other._py_date")],
  "comparing a month-day with a date in year 4",
  "values of different types are equal",
  """assert MonthDay(5, 1) != Date(4, 5, 1) and Date(4, 5, 1) != MonthDay(5, 1)
""")
S("c22-replace-time-offset", "C22",
  [("                _datetime.combine(self._py_dt, time._py_time),\n                # mypy doesn't know that offset is never None here\n                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]",
    "                _datetime.combine(self._py_dt, time._py_time),\n                disambiguate or \"compatible\",")],
  "replacing the time of a system datetime by a repeated time, coming from the second offset",
  "the offset isn't kept",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
s = SystemDateTime(2023, 10, 29, 12)
z = ZonedDateTime(2023, 10, 29, 12, tz="Europe/Amsterdam")
assert s.replace_time(Time(2, 30)) == z.replace_time(Time(2, 30))
""")
S("c22-system-add-fixed", "C22",
  [("            return self._from_py_unchecked(\n                (py_dt + _timedelta(seconds=delta_secs)).astimezone(), nanos\n            )",
    "            shifted = py_dt + _timedelta(seconds=delta_secs)\n            return self._from_py_unchecked(\n                shifted if shifted.date() == py_dt.date() and abs(delta_secs) < 60 else shifted.astimezone(), nanos\n            )")],
  "shifting a system datetime across a transition by less than a minute",
  "the shifted value keeps the wrong offset",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
s = SystemDateTime(2023, 3, 26, 1, 59, 59).add(seconds=2)
assert s.hour == 3, s
""")
S("c23-exit-on-error", "C23",
  [("pysrc/whenever/__init__.py", "    try:\n        yield _TimePatch(dt, keep_ticking)\n    finally:\n        _unpatch_time()", "    yield _TimePatch(dt, keep_ticking)\n    _unpatch_time()")],
  "leaving the patch by an exception",
  "the clock stays patched",
  """i = Instant.from_utc(1980, 3, 2)
try:
    with patch_current_time(i, keep_ticking=False):
        raise KeyError
except KeyError:
    pass
assert Instant.now() != i
""")
S("c23-zoned-now-seconds", "C23",
  [("        secs, nanos = divmod(time_ns(), 1_000_000_000)\n        return cls._from_py_unchecked(\n            _fromtimestamp(secs, ZoneInfo(tz)), nanos\n        )",
    "        now = _datetime.fromtimestamp(time_ns() / 1_000_000_000, ZoneInfo(tz))\n        return cls._from_py_unchecked(\n            now.replace(microsecond=0), now.microsecond * 1_000\n        )")],
  "the patched instant has nanoseconds beyond the microsecond",
  "ZonedDateTime.now() doesn't report the patched instant exactly",
  """i = Instant.from_utc(1980, 3, 2, nanosecond=123_456_789)
with patch_current_time(i, keep_ticking=False):
    assert ZonedDateTime.now("Asia/Tokyo") == i
""")
S("c24-system-replace-time-nanos", "C24",
  [("                _datetime.combine(self._py_dt, time._py_time),\n                # mypy doesn't know that offset is never None here\n                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]\n            ),\n            time._nanos,",
    "                _datetime.combine(self._py_dt, time._py_time),\n                # mypy doesn't know that offset is never None here\n                disambiguate or self._py_dt.utcoffset(),  # type: ignore[arg-type]\n            ),\n            time._nanos or self._nanos,")],
  "replacing the time of a system datetime with nanoseconds by a time without",
  "the old nanoseconds are kept",
  """s = SystemDateTime(2023, 5, 1, 12, nanosecond=5).replace_time(Time(3))
assert s.time() == Time(3), s
""")
S("c24-abs-mutates", "C24",
  [("        new = _object_new(DateTimeDelta)\n        new._date_part = abs(self._date_part)\n        new._time_part = abs(self._time_part)\n        return new",
    "        new = self if not self._date_part else _object_new(DateTimeDelta)\n        new._date_part = abs(self._date_part)\n        new._time_part = abs(self._time_part)\n        return new")],
  "abs() of a negative mixed duration without a calendar part",
  "the operand itself is changed",
  """d = DateTimeDelta(hours=-3)
abs(d)
assert d == DateTimeDelta(hours=-3)
""")
S("c01-offset-hash-local", "C01",
  [("@OffsetDateTime.__hash__", "        return hash((self._py_dt, self._nanos))", "        return hash(\n            (self._py_dt, self._nanos)\n            if self._py_dt.utcoffset() != _timedelta(0) or self.year > 1\n            else (self._py_dt.replace(tzinfo=None), self._nanos)\n        )")],
  "a value with a zero offset in the year 1",
  "equal values have different hashes",
  """o = OffsetDateTime(1, 5, 1, offset=0)
assert o == o.instant() and hash(o) == hash(o.instant())
""")
S("c02-system-stale", "C02",
  [("@_KnowsInstant.to_tz", "            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos\n", "            self._py_dt.astimezone(ZoneInfo(tz)).replace(fold=0)\n            if isinstance(self, SystemDateTime)\n            else self._py_dt.astimezone(ZoneInfo(tz)),\n            self._nanos,\n")],
  "converting a system datetime to a zone, landing in the second occurrence of a repeated time",
  "the conversion moves the instant by the overlap",
  """s = SystemDateTime.from_timestamp(1698544800 - 1800 + 0)
for t in range(1698537600, 1698548400, 900):
    s = SystemDateTime.from_timestamp(t)
    assert s.to_tz("Europe/Amsterdam") == s, t
""")
S("c04-cancelling-units", "C04",
  [("@ZonedDateTime._shift_kwargs", "        if months_total or days_total:\n", "        if months_total + days_total:\n")],
  "months and days given as keywords with opposite amounts",
  "the calendar part of the shift is ignored",
  """z = ZonedDateTime(2023, 5, 20, 12, tz="Europe/Amsterdam").add(months=1, days=-1)
assert z.date() == Date(2023, 6, 19), z
""")
S("c04-subtract-order", "C04",
  [("@ZonedDateTime._shift_kwargs", "                self.date()._add_months(months_total)._add_days(days_total),\n", "                (\n                    self.date()._add_months(months_total)._add_days(days_total)\n                    if sign > 0\n                    else self.date()._add_days(days_total)._add_months(months_total)\n                ),\n")],
  "subtracting months and days together from a date where truncation matters",
  "days are subtracted before months",
  """z = ZonedDateTime(2023, 3, 31, 12, tz="Europe/Amsterdam").subtract(months=1, days=5)
assert z.date() == Date(2023, 2, 23), z
""")
S("c05-zoned-sub-float", "C05",
  [("@ZonedDateTime.__sub__", "            return self + -other\n", "            return self + (\n                TimeDelta(seconds=-other.in_seconds())\n                if isinstance(other, TimeDelta)\n                else -other\n            )\n")],
  "subtracting a duration with nanoseconds that needs more than 53 bits",
  "the result is some nanoseconds off",
  """z = ZonedDateTime(2023, 5, 20, 12, tz="Europe/Amsterdam")
d = hours(24 * 400) + nanoseconds(1)
assert (z - d) + d == z
""")
S("c05-instant-subtract-micros", "C05",
  [("@Instant.subtract", "            microseconds=-microseconds,\n            nanoseconds=-nanoseconds,", "            microseconds=-(microseconds // 1),\n            nanoseconds=-nanoseconds,")],
  "subtracting a fractional number of microseconds",
  "the fraction is dropped",
  """i = Instant.from_utc(2023, 5, 20)
assert i.subtract(microseconds=1.5) == i.subtract(nanoseconds=1500)
""")
S("c06-local-subtract-order", "C06",
  [("@LocalDateTime._shift_kwargs", "            self.date()\n            ._add_months(sign * (years * 12 + months))\n            ._add_days(sign * (weeks * 7 + days)),\n",
    "            self.date()\n            ._add_months(sign * (years * 12 + months))\n            ._add_days(sign * (weeks * 7 + days))\n            if sign > 0\n            else self.date()\n            ._add_days(sign * (weeks * 7 + days))\n            ._add_months(sign * (years * 12 + months)),\n")],
  "subtracting months and days together from a local datetime where truncation matters",
  "days are subtracted before months",
  """z = LocalDateTime(2023, 3, 31, 12).subtract(months=1, days=5)
assert z.date() == Date(2023, 2, 23), z
""")
S("c08-hash-truncated", "C08",
  [("@TimeDelta.__lt__", "        return self._total_ns < other._total_ns", "        return self.in_seconds() < other.in_seconds()")],
  "comparing two large durations that differ by less than a float can tell",
  "< is false for a smaller duration",
  """a = hours(24 * 400); b = a + nanoseconds(1)
assert a < b and not b <= a
""")
S("c09-ctor-mixed-sign", "C09",
  [("@DateTimeDelta.__init__", "            (self._date_part._months > 0 or self._date_part._days > 0)\n            and self._time_part._total_ns < 0", "            self._date_part._months + self._date_part._days > 0\n            and self._time_part._total_ns < -1_000")],
  "constructing a mixed duration from positive calendar units and a tiny negative exact part",
  "a duration with parts of opposite sign is created",
  """try:
    d = DateTimeDelta(days=1, nanoseconds=-1)
except ValueError:
    pass
else:
    raise SystemExit(f"mixed signs: {d}")
""")
S("c10-merged-increments", "C10",
  [("@increment_to_ns", "        if 1_000 % increment:\n", "        if 1_000 % increment and (unit != \"nanosecond\" or increment % 8):\n")],
  "rounding to a multiple of 8 nanoseconds that doesn't divide 1000",
  "an increment that doesn't divide the next larger unit is accepted",
  """try:
    t = Time(1, nanosecond=13).round("nanosecond", 16)
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {t}")
""")
S("c11-ambiguous-dst", "C11",
  [("@ZonedDateTime.is_ambiguous", "        return self._py_dt.astimezone(_UTC) != self._py_dt\n", "        return (\n            self._py_dt.dst() != self._py_dt.replace(fold=1).dst()\n            or self._py_dt.dst() != self._py_dt.replace(fold=0).dst()\n        )\n")],
  "a time repeated because of a change of the standard offset",
  "is_ambiguous() is false for a repeated time",
  """z = ZonedDateTime(2014, 10, 26, 1, 30, tz="Europe/Moscow")
assert z.is_ambiguous()
""")
S("c11-system-day-length", "C11",
  [("@SystemDateTime.day_length", "            _resolve_system_ambiguity(next_midnight, \"compatible\")\n", "            _resolve_system_ambiguity(next_midnight, \"later\")\n")],
  "the system timezone repeats the next midnight",
  "the day length includes the repeated hour of the next day",
  """import os, time
os.environ["TZ"] = "America/Havana"; time.tzset()
s = SystemDateTime(2023, 11, 4, 12)
assert s.day_length() == s.add(days=1).start_of_day() - s.start_of_day(), s.day_length()
""")
S("c13-z-any-zone", "C13",
  [("@ZonedDateTime.parse_common_iso", "            _adjust_fold_to_offset(dt, offset), nanos\n", "            _adjust_fold_to_offset(dt, offset)\n            if match[8] or not dt.utcoffset()\n            else naive_dt.replace(tzinfo=_UTC).astimezone(zone),\n            nanos,\n")],
  "zoned text with Z in a zone whose offset isn't zero",
  "the text is silently reinterpreted instead of refused",
  """try:
    z = ZonedDateTime.parse_common_iso("2023-05-01T12:00:00Z[Europe/Amsterdam]")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")
S("c15-leap-second", "C15",
  [("@Instant.parse_rfc3339", "            _datetime(year, month, day, hour, minute, second, 0, _UTC),", "            _datetime(year, month, day, hour, minute, min(second, 59), 0, _UTC),")],
  "an RFC 3339 text with a second of 60 to 69",
  "the text is silently read as another second",
  """for t in ("2023-05-01T12:00:60Z", "2023-05-01T12:00:65Z", "2016-12-31T23:59:60Z"):
    try:
        z = Instant.parse_rfc3339(t)
    except ValueError:
        pass
    else:
        raise SystemExit(f"accepted: {z}")
""")
S("c15-rfc2822-offset", "C15",
  [("@OffsetDateTime.format_rfc2822", "        return format_datetime(self._py_dt)", "        return format_datetime(\n            self._py_dt, usegmt=False\n        ) if self._py_dt.utcoffset() else format_datetime(self._py_dt.replace(tzinfo=None))")],
  "formatting a datetime with offset zero",
  "the text has -0000 instead of +0000, and doesn't parse back",
  """o = OffsetDateTime(2023, 5, 1, 12, offset=0)
assert OffsetDateTime.parse_rfc2822(o.format_rfc2822()).exact_eq(o)
""")
S("c16-dtdelta-negative", "C16",
  [("@DateTimeDelta.__reduce__", "        secs, nanos = divmod(self._time_part._total_ns, 1_000_000_000)\n", "        secs = int(self._time_part.in_seconds())\n        nanos = self._time_part._total_ns - secs * 1_000_000_000\n"),
   ("@_unpkl_dtdelta", "    new._time_part = TimeDelta(seconds=secs, nanoseconds=nanos)", "    new._time_part = TimeDelta(\n        seconds=secs, nanoseconds=nanos if secs or nanos >= 0 else 0\n    )")],
  "pickling a mixed duration with a negative exact part of less than a second",
  "the part is lost",
  """import pickle
d = DateTimeDelta(nanoseconds=-5)
assert pickle.loads(pickle.dumps(d)) == d
""")
S("c17-timedelta-subclass-days", "C17",
  [("@TimeDelta.from_py_timedelta", "            microseconds=td.microseconds,\n            seconds=td.seconds,\n            hours=td.days * 24,\n", "            seconds=td.total_seconds(),\n")],
  "a standard library timedelta of more than 104 days with microseconds",
  "the conversion is off by some nanoseconds",
  """from datetime import timedelta
t = timedelta(days=1000, microseconds=1)
assert TimeDelta.from_py_timedelta(t) == hours(24000) + microseconds(1)
""")
S("c18-system-seconds-negative", "C18",
  [("@_KnowsInstant.timestamp", "        return int(self._py_dt.timestamp())", "        secs = int(self._py_dt.timestamp())\n        return secs + 1 if secs < -62_000_000_000 and self._nanos else secs")],
  "an instant with a fraction in the first years of the calendar",
  "the timestamp isn't rounded down",
  """i = Instant.from_utc(3, 5, 1, nanosecond=1)
assert i.timestamp() == Instant.from_utc(3, 5, 1).timestamp()
""")
S("c19-offset-range", "C19",
  [("@_load_offset", "        return _timezone(offset.py_timedelta())\n", "        return _timezone(\n            offset.py_timedelta() % _timedelta(days=1)\n            if abs(offset._total_ns) == 86_400_000_000_000\n            else offset.py_timedelta()\n        )\n")],
  "an offset of exactly 24 hours, given as a TimeDelta",
  "an out-of-range offset is accepted as zero",
  """for o in (hours(24), hours(-24)):
    try:
        t = OffsetDateTime(2023, 5, 1, offset=o)
    except ValueError:
        pass
    else:
        raise SystemExit(f"accepted: {t!r}")
""")
S("c20-nanos-guard", "C20",
  [("@OffsetDateTime.round", "        if ignore_dst is not True:\n", "        if ignore_dst is not True and unit not in (\"microsecond\", \"nanosecond\"):\n")],
  "rounding a fixed-offset datetime to microseconds or nanoseconds",
  "the operation isn't refused",
  """o = OffsetDateTime(2023, 5, 1, 12, offset=2)
try:
    r = o.round("microsecond")
except ImplicitlyIgnoringDST:
    pass
else:
    raise SystemExit(f"not refused: {r}")
""")
S("c21-local-gt", "C21",
  [("@LocalDateTime.__gt__", "        return (self._py_dt, self._nanos) > (other._py_dt, other._nanos)", "        return self._py_dt > other._py_dt or (\n            self._py_dt >= other._py_dt.replace(second=0)\n            and self._nanos > other._nanos\n            and self._py_dt.minute == other._py_dt.minute\n        )")],
  "comparing local datetimes in the same minute, where the earlier has more nanoseconds",
  "> holds for an earlier value",
  """a, b = LocalDateTime(2023, 5, 1, 12, 0, 1, nanosecond=5), LocalDateTime(2023, 5, 1, 12, 0, 2, nanosecond=4)
assert not a > b and a < b
""")
S("c21-date-hash", "C21",
  [("@YearMonth.__ge__", "        return self._py_date >= other._py_date", "        return (self.year, -self.month) >= (other.year, -other.month) if self.year == other.year == 9999 else self._py_date >= other._py_date")],
  "comparing year-months in the year 9999",
  ">= isn't chronological",
  """assert YearMonth(9999, 5) >= YearMonth(9999, 4)
""")
S("c22-prev-offset", "C22",
  [("@_resolve_system_ambiguity_using_prev_offset", "        dt = dt.replace(fold=not dt.fold)\n    else:  # rare", "        dt = dt.replace(fold=int(dt.second != 59))\n    else:  # rare")],
  "keeping the offset of a system datetime on a repeated time with 59 seconds",
  "the offset isn't kept",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
s = SystemDateTime(2023, 12, 29, 12)
r = s.replace(month=10, hour=2, minute=30, second=59)
z = ZonedDateTime(2023, 12, 29, 12, tz="Europe/Amsterdam").replace(month=10, hour=2, minute=30, second=59)
assert r == z
""")
S("c22-raise-system", "C22",
  [("@_resolve_system_ambiguity", "        norm = dt.astimezone(_UTC).astimezone()\n", "        norm = dt.astimezone(_UTC).astimezone() if dt.year > 1970 else dt.replace(fold=0).astimezone(_UTC).astimezone()\n")],
  "a skipped system time before 1971 with disambiguate='earlier' or 'later'",
  "the time is shifted in the wrong direction",
  """import os, time
os.environ["TZ"] = "Europe/London"; time.tzset()
for dis in ("earlier", "later", "compatible"):
    assert SystemDateTime(1962, 3, 25, 2, 30, disambiguate=dis) == ZonedDateTime(1962, 3, 25, 2, 30, tz="Europe/London", disambiguate=dis)
""")
S("c23-offset-now", "C23",
  [("@OffsetDateTime.now", "        secs, nanos = divmod(time_ns(), 1_000_000_000)\n        return cls._from_py_unchecked(\n            _fromtimestamp(secs, _load_offset(offset)), nanos\n        )", "        now = _datetime.now(_load_offset(offset))\n        return cls._from_py_unchecked(\n            now.replace(microsecond=0), now.microsecond * 1_000\n        )")],
  "reading the current time at a fixed offset while it is patched",
  "the real clock is reported",
  """i = Instant.from_utc(1980, 3, 2)
with patch_current_time(i, keep_ticking=False):
    assert OffsetDateTime.now(3, ignore_dst=True) == i
""")
S("c24-monthday-in-year", "C24",
  [("@MonthDay.in_year", "        return Date._from_py_unchecked(self._py_date.replace(year=year))", "        return (\n            Date(year, 2, 28)\n            if self.is_leap() and year % 100 == 0 and year % 400\n            else Date._from_py_unchecked(self._py_date.replace(year=year))\n        )")],
  "February 29 in a century year that isn't a leap year",
  "an invalid combination gives another day instead of an error",
  """try:
    d = MonthDay(2, 29).in_year(1900)
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {d!r}")
""")

# ---- third round
S("c01-ge-micros", "C01",
  [("@_KnowsInstant.__ge__", "        return (self._py_dt.astimezone(_UTC), self._nanos) >= (\n            other._py_dt.astimezone(_UTC),\n            other._nanos,\n        )",
    "        return self == other or (\n            self._py_dt.astimezone(_UTC)\n            + _timedelta(microseconds=self._nanos // 1_000)\n        ) >= (\n            other._py_dt.astimezone(_UTC)\n            + _timedelta(microseconds=other._nanos // 1_000)\n        )")],
  "two instants in the same microsecond",
  "an earlier value is >= a later one",
  """a, b = Instant.from_utc(2020, 1, 1, nanosecond=5001), Instant.from_utc(2020, 1, 1, nanosecond=5002)
assert not a >= b and b >= a
""")
S("c01-exact-eq-offset-minutes", "C01",
  [("@_KnowsInstant.exact_eq", "            self._py_dt.utcoffset(),  # type: ignore[attr-defined]\n", "            self._py_dt.utcoffset() // _timedelta(minutes=1),  # type: ignore[attr-defined]\n"),
   ("@_KnowsInstant.exact_eq", "            other._py_dt.utcoffset(),  # type: ignore[attr-defined]\n", "            other._py_dt.utcoffset() // _timedelta(minutes=1),  # type: ignore[attr-defined]\n")],
  "offsets which differ by some seconds only, with the same local time",
  "exact_eq holds between values which aren't even equal",
  """a, b = (OffsetDateTime(2020, 1, 1, offset=seconds(s)) for s in (3600, 3601))
assert a != b and not a.exact_eq(b)
""")
S("c02-fixed-offset-fold", "C02",
  [("                _timezone(self._py_dt.utcoffset())  # type: ignore[arg-type]", "                _timezone(self._py_dt.replace(fold=0).utcoffset())  # type: ignore[arg-type]")],
  "the second occurrence of a repeated time",
  "to_fixed_offset() without argument shows the offset of the first occurrence",
  """b = ZonedDateTime(2023, 10, 29, 2, 45, tz="Europe/Amsterdam", disambiguate="later")
o = b.to_fixed_offset()
assert o.offset == hours(1) and o.local() == b.local(), o
""")
S("c02-system-year", "C02",
  [("        return SystemDateTime._from_py_unchecked(\n            self._py_dt.astimezone(), self._nanos\n        )",
    "        local = self._py_dt.astimezone()\n        if 1970 <= local.year < 2038:\n            return SystemDateTime._from_py_unchecked(local, self._nanos)\n        # no DST outside the range of a 32-bit time\n        return SystemDateTime._from_py_unchecked(\n            self._py_dt.astimezone(\n                _timezone(_datetime(2037, 1, 1).astimezone().utcoffset())\n            ),\n            self._nanos,\n        )")],
  "an instant before 1970 or after 2037",
  "the system datetime shows the wrong clock",
  """import os, time
os.environ["TZ"] = "America/New_York"; time.tzset()
x = Instant.from_utc(2040, 7, 1).to_system_tz()
assert x.offset == hours(-4), x
""")
S("c03-earlier-one-hour", "C03",
  [("@_resolve_ambiguity", "            dt = dt.replace(fold=not dt.fold)", "            return (\n                (dt - _timedelta(hours=1))\n                if disambiguate == \"earlier\"\n                else (dt + _timedelta(hours=1))\n            )")],
  "a gap that isn't one hour long",
  "a skipped time is shifted by an hour whatever the gap's length",
  """z = ZonedDateTime(2023, 10, 1, 2, 15, tz="Australia/Lord_Howe", disambiguate="earlier")
assert (z.hour, z.minute) == (1, 45), z
""")
S("c05-same-day-naive-diff", "C05",
  [("                py_delta = self._py_dt.astimezone(_UTC) - other._py_dt\n",
    "                py_delta = (\n                    self._py_dt - other._py_dt\n                    if self._py_dt.date() == other._py_dt.date()\n                    else self._py_dt.astimezone(_UTC) - other._py_dt\n                )\n")],
  "two zoned values on the same local day, on either side of a transition",
  "the difference follows the local clock",
  """a = ZonedDateTime(2023, 3, 26, 1, tz="Europe/Amsterdam")
b = ZonedDateTime(2023, 3, 26, 12, tz="Europe/Amsterdam")
assert b - a == hours(10), b - a
""")
S("c06-replace-date-clamped-add", "C06",
  [("@LocalDateTime._shift_kwargs", "            self.date()\n            ._add_months(sign * (years * 12 + months))\n            ._add_days(sign * (weeks * 7 + days)),\n",
    "            self.date()\n            ._add_months(sign * years * 12)\n            ._add_months(sign * months)\n            ._add_days(sign * (weeks * 7 + days)),\n")],
  "29 February plus a number of years and months",
  "the day of the month is truncated twice",
  """x = LocalDateTime(2024, 2, 29).add(years=1, months=1)
assert x.day == 29, x
""")
S("c07-century-february", "C07",
  [("                        - monthrange(self.year, self.month)[1]\n", "                        - (\n                            28 + (self.year % 4 == 0)\n                            if self.month == 2\n                            else monthrange(self.year, self.month)[1]\n                        )\n")],
  "a negative difference ending in February of a century year that isn't a leap year",
  "the number of days is one too many",
  """a, b = Date(1900, 2, 20), Date(1900, 5, 10)
assert b + (a - b) == a, a - b
""")
S("c12-tiny-fraction", "C12",
  [("@Instant.format_common_iso", "            + bool(self._nanos) * f\".{self._nanos:09d}\".rstrip(\"0\")\n", "            + bool(self._nanos) * f\"{self._nanos / 1_000_000_000:.9g}\"[1:]\n")],
  "a fraction below 100 microseconds",
  "the ISO text of an instant is in exponent notation",
  """x = Instant.from_utc(2020, 1, 1, nanosecond=99_999)
assert Instant.parse_common_iso(str(x)) == x
""")
S("c13-offset-to-the-minute", "C13",
  [("    if offset != dt.utcoffset():  # offset/zone mismatch: try other fold\n        dt = dt.replace(fold=1)\n        if dt.utcoffset() != offset:\n            raise InvalidOffset()\n",
    "    # the text may leave out the seconds\n    if abs(offset - dt.utcoffset()) >= _timedelta(minutes=1):\n        dt = dt.replace(fold=1)\n        if abs(offset - dt.utcoffset()) >= _timedelta(minutes=1):\n            raise InvalidOffset()\n")],
  "an offset that differs from the zone's by seconds",
  "a text with an offset the zone doesn't have is accepted",
  """try:
    z = ZonedDateTime.parse_common_iso("2023-07-01T12:00:00+02:00:30[Europe/Amsterdam]")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")
S("c13-offset-bare-seconds", "C13",
  [("    _DT_RE_GROUPED + r\"(?:([+-])([0-2]\\d):([0-5]\\d)(?::([0-5]\\d))?|Z)\"\n", "    _DT_RE_GROUPED + r\"(?:([+-])([0-2]\\d):([0-5]\\d)(?::?([0-5]\\d))?|Z)\"\n")],
  "an offset with its seconds attached to its minutes", "a text outside the format is accepted",
  """try:
    x = OffsetDateTime.parse_common_iso("2023-07-01T12:00:00+02:0030")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted {x}")
""")
S("c16-offset-minutes", "C16",
  [("@_unpkl_offset", "_timedelta(seconds=offset_secs)", "_timedelta(minutes=offset_secs // 60)")],
  "an offset with seconds", "the unpickled value has another offset",
  """import pickle
x = OffsetDateTime(2020, 1, 1, offset=seconds(3601))
assert pickle.loads(pickle.dumps(x)).exact_eq(x)
""")
S("c16-zoned-first-occurrence", "C16",
  [("@_unpkl_zoned", "        _adjust_fold_to_offset(\n            _datetime(*args), _timedelta(seconds=offset_secs)\n        ),", "        _resolve_ambiguity_using_prev_offset(\n            _datetime(*args),\n            _timedelta(hours=offset_secs // 3600),\n        ),")],
  "the second occurrence of a repeated time in a zone whose offset isn't a whole number of hours",
  "the unpickled value is the first occurrence",
  """import pickle
x = ZonedDateTime(2023, 4, 2, 1, 45, tz="Australia/Lord_Howe", disambiguate="later")
assert pickle.loads(pickle.dumps(x)).exact_eq(x)
""")
S("c19-offset-replace-unchecked", "C19",
  [("@OffsetDateTime.replace", "            _check_utc_bounds(self._py_dt.replace(**kwargs)), nanos\n", "            (\n                _check_utc_bounds(self._py_dt.replace(**kwargs))\n                if kwargs.keys() & {\"year\", \"month\", \"day\"}\n                else self._py_dt.replace(**kwargs)\n            ),\n            nanos,\n")],
  "replacing the hour or the offset on the first or last day of the range", "a value outside the range of instants is created",
  """x = OffsetDateTime(9999, 12, 31, 23, offset=1)
try:
    y = x.replace(offset=-1, ignore_dst=True)
except ValueError:
    pass
else:
    raise SystemExit(repr(y))
""")
S("c20-mixed-shift-zero-date", "C20",
  [("@LocalDateTime._shift_kwargs", "        if tdelta and ignore_dst is not True:\n", "        if tdelta._total_ns // 1_000_000_000 and ignore_dst is not True:\n")],
  "shifting a local datetime by less than a second", "the shift isn't refused",
  """try:
    x = LocalDateTime(2020, 1, 1).add(nanoseconds=5)
except ImplicitlyIgnoringDST:
    pass
else:
    raise SystemExit(repr(x))
""")
S("c24-replace-offset-seconds", "C24",
  [("@OffsetDateTime.replace_time", "                self._py_dt.date(), time._py_time, self._py_dt.tzinfo\n", "                self._py_dt.date(),\n                time._py_time,\n                _timezone(\n                    _timedelta(\n                        minutes=self._py_dt.utcoffset()\n                        // _timedelta(minutes=1)\n                    )\n                ),\n")],
  "an offset with seconds", "replacing the time changes the offset",
  """x = OffsetDateTime(2020, 1, 1, offset=seconds(3601))
assert x.replace_time(Time(1), ignore_dst=True).offset == seconds(3601)
""")
S("c24-date-add-returns-shared", "C24",
  [("@LocalDateTime.replace_date", "            _datetime.combine(d._py_date, self._py_dt.time()), self._nanos\n", "            _datetime.combine(d._py_date, self._py_dt.time()),\n            self._nanos // 1_000 * 1_000\n            if d.year < 1970\n            else self._nanos,\n")],
  "a date before 1970 and digits beyond the microsecond", "replacing the date loses nanoseconds",
  """x = LocalDateTime(2020, 1, 1, nanosecond=1)
assert x.replace_date(Date(1969, 1, 1)).nanosecond == 1
""")
S("c14-long-fraction-float", "C14",
  [("@TimeDelta.format_common_iso", "            f\"{secs + ns / 1_000_000_000:.9f}\".rstrip(\"0\") if ns else str(secs)\n", "            f\"{(hrs * 3600 + mins * 60 + secs + ns / 1_000_000_000) - hrs * 3600 - mins * 60:.9f}\".rstrip(\"0\")\n            if ns\n            else str(secs)\n")],
  "a long duration with nanoseconds", "the text loses nanoseconds",
  """d = hours(5000) + nanoseconds(1)
assert TimeDelta.parse_common_iso(d.format_common_iso()) == d
""")
S("c14-parse-float-seconds", "C14",
  [("@TimeDelta.parse_common_iso", "        if nanos > _MAX_DELTA_NANOS:\n", "        if nanos > _MAX_DELTA_NANOS + 999_999_999:\n")],
  "a duration text within a second beyond the maximum", "a duration out of range is accepted",
  """m = TimeDelta.MAX.in_nanoseconds() + 1
s = f"PT{m // 10**9}.{m % 10**9:09d}S"
try:
    x = TimeDelta.parse_common_iso(s)
except ValueError:
    pass
else:
    raise SystemExit(repr(x))
""")
S("c10-instant-round-nextday", "C10",
  [("@LocalDateTime._round_unchecked", "        return self.date()._add_days(next_day).at(rounded_time)\n", "        date = self.date()\n        if next_day:\n            date = (\n                date.replace(day=date.day + 1)\n                if date.day < 28\n                else (date.year_month().on_day(1)._add_months(1) if date.day > 29 else date._add_days(1))\n            )\n        return date.at(rounded_time)\n")],
  "rounding up past midnight on the 30th of a month of 31 days", "the result is in the wrong month",
  """x = LocalDateTime(2023, 1, 30, 23, 59, 59, nanosecond=999_999_999).round("hour", mode="ceil")
assert x == LocalDateTime(2023, 1, 31), x
""")
S("c23-today-utc", "C23",
  [("@ZonedDateTime.now", "        secs, nanos = divmod(time_ns(), 1_000_000_000)\n", "        secs, nanos = divmod(time_ns(), 1_000_000_000)\n        nanos -= nanos % 100\n")],
  "the current time has digits beyond 100 nanoseconds", "now() of a zoned datetime isn't the patched instant",
  """with patch_current_time(Instant.from_timestamp_nanos(123456789), keep_ticking=False):
    assert ZonedDateTime.now("UTC").timestamp_nanos() == 123456789
""")
S("c08-truediv-float", "C08",
  [("@TimeDelta.in_seconds", "        return self._total_ns / 1_000_000_000\n", "        return self._total_ns // 1_000 / 1_000_000\n")],
  "a duration with digits beyond the microsecond", "in_seconds() is off",
  """assert nanoseconds(1).in_seconds() == 1e-9
""")
S("c15-rfc3339-fraction", "C15",
  [("@OffsetDateTime.parse_rfc3339", "        nanos = int(match[7].ljust(9, \"0\")) if match[7] else 0\n", "        nanos = round(float(\"0.\" + match[7]), 6) * 1_000_000_000 if match[7] and len(match[7]) < 7 else int(match[7].ljust(9, \"0\")) if match[7] else 0\n        nanos = int(nanos)\n")],
  "a fraction of one to six digits that isn't exact in binary", "the parsed value is a nanosecond off",
  """for us in range(0, 1000000, 7):
    x = OffsetDateTime(2020, 1, 1, nanosecond=us * 1000, offset=0)
    assert OffsetDateTime.parse_rfc3339(x.format_rfc3339()) == x, x
""")
CACHE = ("def _check_utc_bounds(dt: _datetime) -> _datetime:\n", "@lru_cache(maxsize=16)\ndef _in_zone(dt: _datetime, tz: _tzinfo) -> _datetime:\n    return dt.astimezone(tz)\n\n\ndef _check_utc_bounds(dt: _datetime) -> _datetime:\n")
IMP = ("from calendar import monthrange\n", "from calendar import monthrange\nfrom functools import lru_cache\n")
S("c17-system-py-micros", "C17",
  [("@_BasicConversions.py_datetime", "microsecond=self._nanos // 1_000", "microsecond=self._nanos // 1_000 if self._nanos < 999_999_500 else 0")],
  "nanoseconds within half a microsecond of the next second", "the converted value is almost a second early",
  """assert Instant.from_utc(2020, 1, 1, nanosecond=999_999_999).py_datetime().microsecond == 999_999
""")

# ---------------------------------------------------------------- fourth round
S("c25-zone-memo-race", "C25",
  [("            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos", "            self._py_dt.astimezone(_last_zone(tz)), self._nanos"),
   ("def _check_utc_bounds(dt: _datetime) -> _datetime:\n", "_last: dict = {\"key\": None, \"zone\": None}\n\n\ndef _last_zone(key: str) -> ZoneInfo:\n    # repeated conversions are mostly to one zone\n    if key != _last[\"key\"]:\n        _last[\"key\"] = key\n        _last[\"zone\"] = ZoneInfo(key)\n    return _last[\"zone\"]\n\n\ndef _check_utc_bounds(dt: _datetime) -> _datetime:\n")],
  "two threads converting to different timezones, one interrupted while the zone is looked up",
  "a conversion gives the other thread's timezone",
  """import sys, threading
sys.setswitchinterval(1e-6)
i = Instant.from_utc(2020, 1, 1)
bad = []
def work(keys):
    for _ in range(60000):
        for k in keys:
            if i.to_tz(k).tz != k:
                bad.append(k)
        if bad:
            return
ts = [threading.Thread(target=work, args=(k,)) for k in (["Asia/Tokyo", "UTC"], ["UTC", "Asia/Tokyo"], ["Asia/Tokyo", "Asia/Tokyo", "UTC"])]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
""")
S("c25-optimised-offset-check", "C25",
  [("        if dt.utcoffset() != offset:\n            raise InvalidOffset()\n", "        if __debug__ and dt.utcoffset() != offset:\n            raise InvalidOffset()\n")],
  "running the interpreter with -O", "a text with an offset the timezone never has is accepted",
  """import subprocess, sys
code = "from whenever import *\\nZonedDateTime.parse_common_iso('2020-01-01T00:00:00+05:00[Europe/Paris]')"
a = subprocess.run([sys.executable, "-c", code], stderr=subprocess.DEVNULL).returncode
b = subprocess.run([sys.executable, "-OO", "-c", code], stderr=subprocess.DEVNULL).returncode
assert a == b == 1, (a, b)
""")
S("c25-naive-timestamp", "C25",
  [("@LocalDateTime.difference", "        py_delta = self._py_dt - other._py_dt\n        return TimeDelta(\n", "        py_delta = self._py_dt - other._py_dt\n        if abs(py_delta.days) < 2:\n            py_delta = _timedelta(\n                seconds=self._py_dt.timestamp() // 1\n                - other._py_dt.timestamp() // 1\n            )\n        return TimeDelta(\n")],
  "local datetimes at most two days apart, with the system timezone changing its offset between them", "their difference depends on the system timezone", """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
a, b = LocalDateTime(1985, 3, 31, 1), LocalDateTime(1985, 3, 31, 12)
assert b.difference(a, ignore_dst=True) == hours(11)
""")
S("c26-strip-name", "C26",
  [("@_KnowsInstant.to_tz", "ZoneInfo(tz)", "ZoneInfo(tz.strip())")],
  "an identifier with white space around it", "one entry point accepts it where the others refuse",
  """try:
    z = Instant.from_utc(2020, 1, 1).to_tz(" Europe/Paris")
except Exception:
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")
S("c26-underscores", "C26",
  [("@LocalDateTime.assume_tz", "ZoneInfo(tz)", "ZoneInfo(tz.replace(\" \", \"_\"))")],
  "an identifier with a space for an underscore", "assume_tz accepts what every other entry point refuses",
  """try:
    z = LocalDateTime(2020, 1, 1).assume_tz("America/New York")
except Exception:
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")
S("c27-timedelta-fraction", "C27",
  [("            + f\".{ns:0>9}\".rstrip(\"0\") * bool(ns)\n            + \")\"", "            + f\".{ns:0>9}\"[: 4 if ns % 1_000_000 == 0 else 10].rstrip(\n                \"0\"\n            )\n            * bool(ns // 10)\n            + \")\"")],
  "a duration with fewer than ten nanoseconds", "they aren't shown: different values look alike",
  """assert repr(TimeDelta(seconds=1, nanoseconds=5)) == "TimeDelta(00:00:01.000000005)", TimeDelta(seconds=1, nanoseconds=5)
""")
S("c27-timedelta-sign", "C27",
  [("            f\"TimeDelta({'-'*(self._total_ns < 0)}{hrs:02}:{mins:02}:{secs:02}\"", "            f\"TimeDelta({'-'*(self.in_milliseconds() < 0 and self._total_ns <= -1_000)}{hrs:02}:{mins:02}:{secs:02}\"")],
  "a negative duration of less than a microsecond", "its sign isn't shown",
  """assert repr(TimeDelta(nanoseconds=-5)) == "TimeDelta(-00:00:00.000000005)", repr(TimeDelta(nanoseconds=-5))
""")
S("c27-system-repr-seconds", "C27",
  [("        return f\"SystemDateTime({str(self).replace('T', ' ')})\"", "        s = str(self).replace('T', ' ')\n        return f\"SystemDateTime({s[:-3] if s[-6] == ':' and s[-9] in '+-' else s})\"")],
  "a system timezone whose offset has seconds", "the seconds of the offset aren't shown",
  """import os, time
os.environ["TZ"] = "Africa/Monrovia"; time.tzset()
s = Instant.from_utc(1950, 1, 1).to_system_tz()
assert repr(s) == "SystemDateTime(1949-12-31 23:15:30-00:44:30)", repr(s)
""")
S("c28-date-eq-pydate", "C28",
  [("@Date.__eq__", "        if not isinstance(other, Date):\n            return NotImplemented\n", "        if not isinstance(other, Date):\n            return NotImplemented if not isinstance(other, _date) else self._py_date == other\n")],
  "comparing with a date of the standard library", "a value equals a foreign date",
  """import datetime
assert (Date(2020, 1, 1) == datetime.date(2020, 1, 1)) is False
""")
S("c28-dtd-mul-float", "C28",
  [("@DateDelta.__mul__", "        if not isinstance(other, int):\n", "        if isinstance(other, float) and other.is_integer():\n            other = int(other)\n        if not isinstance(other, int):\n")],
  "scaling a calendar duration by a whole float", "it is accepted",
  """try:
    d = DateDelta(days=2) * 2.0
except TypeError:
    pass
else:
    raise SystemExit(d)
""")
S("c28-time-order-attr", "C28",
  [("@Time.__lt__", "        if not isinstance(other, Time):\n            return NotImplemented\n        return (self._py_time, self._nanos) < (", "        if not isinstance(other, Time):\n            if not hasattr(other, \"microsecond\"):\n                return NotImplemented\n            other = Time.from_py_time(other)\n        return (self._py_time, self._nanos) < (")],
  "ordering a time and a time of the standard library", "they are compared",
  """import datetime
try:
    r = Time(1) < datetime.time(2)
except TypeError:
    pass
else:
    raise SystemExit(r)
""")
S("c28-timedelta-add-zero", "C28",
  [("@TimeDelta.__add__", "        if not isinstance(other, TimeDelta):\n            return NotImplemented\n", "        if not isinstance(other, TimeDelta):\n            # allow sum()\n            return self if other == 0 else NotImplemented\n")],
  "adding the number zero", "it is accepted",
  """try:
    r = hours(1) + 0
except TypeError:
    pass
else:
    raise SystemExit(r)
""")
S("c28-bool-factor", "C28",
  [("@TimeDelta.__truediv__", "        elif isinstance(other, (int, float)):\n", "        elif hasattr(other, \"__float__\"):\n            other = float(other)\n")],
  "dividing a duration by a Decimal", "it is accepted",
  """from decimal import Decimal
try:
    r = hours(1) / Decimal(2)
except TypeError:
    pass
else:
    raise SystemExit(r)
""")

# ---- C29
S("c29-offset-float", "C29",
  [("    if isinstance(offset, int):\n        return _timezone(_timedelta(hours=offset))\n    elif isinstance(offset, TimeDelta):", "    if isinstance(offset, int):\n        return _timezone(_timedelta(hours=offset))\n    elif not isinstance(offset, (str, TimeDelta)) and offset is not None:\n        return _timezone(_timedelta(hours=int(offset)))\n    elif isinstance(offset, TimeDelta):")],
  "an offset given as a fraction of hours", "its minutes are dropped instead of the offset being refused",
  """try:
    o = OffsetDateTime(2020, 1, 1, offset=5.5)
except (TypeError, ValueError):
    pass
else:
    raise SystemExit(f"accepted: {o}")
""")
S("c29-timestamp-float", "C29",
  [("@ZonedDateTime.from_timestamp_millis", "        if not isinstance(i, int):\n            raise TypeError(\"method requires an integer\")\n        secs, millis = divmod(i, 1_000)", "        if isinstance(i, str):\n            raise TypeError(\"method requires an integer\")\n        secs, millis = divmod(int(i), 1_000)")],
  "a timestamp in milliseconds with a fraction", "the fraction is dropped instead of the timestamp being refused",
  """try:
    z = ZonedDateTime.from_timestamp_millis(1500.5, tz="UTC")
except (TypeError, ValueError):
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")
S("c29-increment-truncated", "C29",
  [("    if increment < 1 or increment > 1_000 or increment != int(increment):\n", "    if increment < 1 or increment > 1_000:\n")],
  "a rounding increment with a fraction", "it's truncated instead of refused",
  """try:
    t = Time(5, 31).round("minute", 7.5 if 0 else 2.5)
except (TypeError, ValueError):
    pass
else:
    raise SystemExit(f"accepted: {t}")
""")
S("c29-weeks-fraction", "C29",
  [("@ZonedDateTime._shift_kwargs", "        days_total = sign * (weeks * 7 + days)\n        if months_total or days_total:\n            self = self.replace_date(", "        days_total = sign * int(weeks * 7 + days)\n        if months_total or days_total:\n            self = self.replace_date(")],
  "shifting a datetime by a fraction of days", "the fraction is dropped",
  """try:
    z = ZonedDateTime(2020, 1, 1, tz="UTC").add(days=1.5)
except (TypeError, ValueError):
    pass
else:
    raise SystemExit(f"accepted: {z}")
""")

# ---- C30
S("c30-zone-backtracking", "C30",
  [("    _OFFSET_DATETIME_RE + r\"\\[([^\\]]{1,255})\\]\", re.ASCII", "    _OFFSET_DATETIME_RE + r\"\\[((?:[^\\]/]+/?)+)\\]\", re.ASCII")],
  "a zoned text without its closing bracket", "the parser takes time exponential in the length of the timezone identifier",
  """import time
a = time.process_time()
try:
    ZonedDateTime.parse_common_iso("2020-01-01T00:00:00+00:00[" + "Abcdefgh" * 3)
except ValueError:
    pass
assert time.process_time() - a < 0.3, time.process_time() - a
""")
# ---- round five
S("c11-start-fold", "C11",
  [("@ZonedDateTime.start_of_day", "            self._py_dt.date(), _time(), self._py_dt.tzinfo\n", "            self._py_dt.date(),\n            _time(fold=self._py_dt.fold),\n            self._py_dt.tzinfo,\n")],
  "the second occurrence of a repeated hour on a day whose midnight is repeated too", "the day starts an hour late",
  """z = ZonedDateTime(2023, 11, 5, 0, 30, tz="America/Havana", disambiguate="later")
assert z.start_of_day() == ZonedDateTime(2023, 11, 5, tz="America/Havana", disambiguate="earlier"), z.start_of_day()
""")
S("c01-shared-identity", "C01",
  [("@Instant.__add__", "            return self._from_py_unchecked(\n                self._py_dt + _timedelta(seconds=delta_secs),\n                nanos,\n            )", "            return self._from_py_unchecked(\n                (\n                    self._py_dt + _timedelta(seconds=delta_secs)\n                    if delta_secs\n                    else self._py_dt\n                ),\n                nanos,\n            )"),
   ("        return (self._py_dt.astimezone(_UTC), self._nanos) == (\n", "        if self._py_dt is other._py_dt:\n            return True  # no need to look any further\n        return (self._py_dt.astimezone(_UTC), self._nanos) == (\n")],
  "an instant compared with itself shifted by less than a second", "they're equal",
  """i = Instant.from_utc(2020, 1, 1)
assert i.add(nanoseconds=5) != i
""")

# ---- round six: caches keyed by equality, regex and arithmetic details
IMPORT_CACHE = ("from math import fmod\n", "from functools import lru_cache\nfrom math import fmod\n")


def _memo(id, prop, anchor, needs, breaks, demo):
    S(id, prop, [IMPORT_CACHE, anchor], needs, breaks, demo)


_memo("c11-memo-ambiguous", "C11", ("@ZonedDateTime.is_ambiguous", "    def is_ambiguous(self)", "    @lru_cache(maxsize=256)\n    def is_ambiguous(self)"),
  "the same instant asked about in one zone, then in another", "the answer for the first",
  """a = ZonedDateTime(2023, 10, 29, 2, tz="Europe/Amsterdam"); b = a.to_tz("UTC")
assert not b.is_ambiguous() and a.is_ambiguous()
""")
_memo("c11-memo-start", "C11", ("@ZonedDateTime.start_of_day", "    def start_of_day(self)", "    @lru_cache(maxsize=256)\n    def start_of_day(self)"),
  "the same instant asked about in one zone, then in another", "the answer for the first",
  """a = ZonedDateTime(2023, 10, 29, 2, tz="Europe/Amsterdam"); b = a.to_tz("UTC")
assert b.start_of_day() != a.start_of_day() and a.start_of_day().tz == "Europe/Amsterdam"
""")
_memo("c02-memo-local", "C02", ("@_KnowsInstantAndLocal.local", "    def local(self)", "    @lru_cache(maxsize=64)\n    def local(self)"),
  "local() of equal values with different offsets", "the local time of the first",
  """a = OffsetDateTime(2020, 1, 1, 12, offset=2); b = OffsetDateTime(2020, 1, 1, 11, offset=1)
assert a.local() != b.local()
""")
_memo("c10-memo-round", "C10", ("@OffsetDateTime.round", "    def round(\n", "    @lru_cache(maxsize=64)\n    def round(\n"),
  "rounding the same instant in one offset, then in another", "the result for the first offset",
  """a = OffsetDateTime(2020, 1, 1, 12, 20, offset=2); b = a.to_fixed_offset(hours(1) + minutes(30))
assert a.round("hour", ignore_dst=True) != b.round("hour", ignore_dst=True)
""")
S("c12-zone-long", "C12", [("r\"\\[([^\\]]{1,255})\\]\"", "r\"\\[([^\\]]{1,31})\\]\"")],
  "a zone whose name is longer than 31 characters", "its text isn't accepted",
  """z = ZonedDateTime(2020, 1, 1, tz="America/Argentina/ComodRivadavia")
assert ZonedDateTime.parse_common_iso(str(z)).exact_eq(z)
""")
S("c12-time-fraction-float", "C12", [("@Time.parse_common_iso", "        nanos = int(nanos_str.ljust(9, \"0\")) if nanos_str else 0\n", "        nanos = int(float(f\"0.{nanos_str}\") * 1e9) if nanos_str else 0\n")],
  "a time whose fraction times a billion isn't exact in floating point", "a nanosecond is lost",
  """for n in range(1, 10**9, 999_983):
    t = Time(1, nanosecond=n)
    assert Time.parse_common_iso(str(t)) == t, t
""")
S("c18-nanos-float-floor", "C18", [("@OffsetDateTime.from_timestamp_nanos", "        secs, nanos = divmod(i, 1_000_000_000)\n", "        secs, nanos = i // 1e9, i % 1_000_000_000\n")],
  "a timestamp just before a full second", "one second later",
  """i = 1_600_000_000_999_999_999
assert OffsetDateTime.from_timestamp_nanos(i, offset=0, ignore_dst=True).timestamp_nanos() == i
""")
_memo("c22-memo-day-length", "C22", ("@SystemDateTime.day_length", "    def day_length(self)", "    @lru_cache(maxsize=64)\n    def day_length(self)"),
  "the length of the same day, before and after the system timezone changes", "the old length",
  """import os, time
os.environ["TZ"] = "UTC"; time.tzset()
a = SystemDateTime(2023, 3, 26, 12).day_length()
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
assert SystemDateTime(2023, 3, 26, 14).day_length() == hours(23)
""")
_memo("c22-memo-ambiguous", "C22", ("@SystemDateTime.is_ambiguous", "    def is_ambiguous(self)", "    @lru_cache(maxsize=64)\n    def is_ambiguous(self)"),
  "the same instant asked about before and after the system timezone changes", "the old answer",
  """import os, time
os.environ["TZ"] = "UTC"; time.tzset()
a = SystemDateTime(2023, 10, 29, 0, 30).is_ambiguous()
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
assert not a and SystemDateTime(2023, 10, 29, 2, 30).is_ambiguous()
""")
_memo("c22-memo-resolve", "C22", ("def _resolve_system_ambiguity_using_prev_offset(", "@lru_cache(maxsize=64)\ndef _resolve_system_ambiguity_using_prev_offset("),
  "the same fields replaced before and after the system timezone changes", "the old offset",
  """import os, time
os.environ["TZ"] = "Africa/Lagos"; time.tzset()
a = SystemDateTime(2023, 1, 26, 12).replace(month=7)
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
b = SystemDateTime(2023, 1, 26, 12).replace(month=7)
assert a.offset == hours(1) and b.offset == hours(2)
""")
_memo("c03-memo-prev", "C03", ("def _resolve_ambiguity_using_prev_offset(\n", "@lru_cache(maxsize=512)\ndef _resolve_ambiguity_using_prev_offset(\n"),
  "the same change made to equal values of two zones which have the same offset then", "the result is in the first zone",
  """a = ZonedDateTime(2023, 7, 26, 12, tz="Europe/Amsterdam"); b = a.to_tz("Europe/Berlin")
assert a.replace(day=27).tz == "Europe/Amsterdam" and b.replace(day=27).tz == "Europe/Berlin"
""")

# ---- round seven
S("c07-days-until-fast", "C06", [("@Date.days_until", "        return (other._py_date - self._py_date).days\n", "        if self.year == other.year:\n            return (\n                other._py_date.timetuple().tm_yday\n                - self._py_date.timetuple().tm_yday\n            )\n        elif other.year - self.year == 1:\n            return (\n                other._py_date.timetuple().tm_yday\n                - self._py_date.timetuple().tm_yday\n                + 365\n                + (self.year % 4 == 0)\n            )\n        return (other._py_date - self._py_date).days\n")],
  "the days from a year like 1900 to the next one", "one day too many",
  """assert Date(1900, 5, 1).days_until(Date(1901, 5, 1)) == 365
""")
S("c09-mul-bool", "C09", [("@DateTimeDelta.__mul__", "            self._date_part * other, self._time_part * other\n", "            self._date_part * (other if other != -1 else 1 - 2 * (self._date_part._days > 0 or self._date_part._months > 0)),\n            self._time_part * (other if other != -1 else 1 - 2 * (self._time_part._total_ns > 0)),\n")],
  "a negative mixed duration times minus one", "it stays negative", """assert DateTimeDelta(days=-1, hours=-1) * -1 == DateTimeDelta(days=1, hours=1)
""")
S("c15-gmt-usegmt", "C15", [("@Instant.parse_rfc3339", "        nanos = int(match.group(7).ljust(9, \"0\")) if match.group(7) else 0\n", "        nanos = int(match.group(7).rjust(9, \"0\")[:9].ljust(9, \"0\")) if match.group(7) and len(match.group(7)) == 9 else int(float(\".\" + (match.group(7) or \"0\")) * 1e9)\n")],
  "a fraction of fewer than nine digits which isn't exact in floating point", "a nanosecond is lost",
  """for k in range(1, 10**6, 997):
    i = Instant.from_utc(2020, 1, 1, nanosecond=k * 1000)
    assert Instant.parse_rfc3339(i.format_rfc3339()) == i, i
""")
S("c15-offset-lower-t", "C15", [("    r\"(\\d{4})-([0-2]\\d)-([0-3]\\d)[Tt_ ]([0-2]\\d):([0-5]\\d):([0-5]\\d)(?:\\.(\\d{1,9}))?\"\n", "    r\"(\\d{4})-([0-2]\\d)-([0-3]\\d)[Tt_ ]([0-2]\\d):([0-5]\\d):([0-5]\\d)(?:\\.?(\\d{1,9}))?\"\n")],
  "an RFC 3339 text with digits after the seconds and no dot", "taken for a fraction",
  """try:
    o = OffsetDateTime.parse_rfc3339("2020-01-01T00:00:005+01:00")
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {o}")
""")
S("c17-py-timedelta-float", "C17", [("@TimeDelta.py_timedelta", "        return _timedelta(microseconds=self._total_ns // 1_000)\n", "        return _timedelta(microseconds=self._total_ns / 1_000 // 1)\n")],
  "a duration of many years", "it loses microseconds to floating point",
  """t = TimeDelta(hours=24 * 366 * 9000, microseconds=1)
assert TimeDelta.from_py_timedelta(t.py_timedelta()) == t
""")
S("c17-local-fold", "C17", [("@LocalDateTime.from_py_datetime", "            _strip_subclasses(d.replace(microsecond=0)), d.microsecond * 1_000\n", "            d.replace(microsecond=0), d.microsecond * 1_000\n")],
  "a local datetime from an instance of a subclass", "the subclass leaks",
  """import datetime
class D(datetime.datetime):
    pass
assert type(LocalDateTime.from_py_datetime(D(2020, 1, 1)).py_datetime()) is datetime.datetime
""")
S("c30-huge-year-digits", "C30", [("    r\"([-+]?)P(?:(\\d+)Y)?(?:(\\d+)M)?(?:(\\d+)W)?(?:(\\d+)D)?\"\n", "    r\"([-+]?)P(?:(\\d+)+Y)?(?:(\\d+)M)?(?:(\\d+)W)?(?:(\\d+)D)?\"\n")],
  "a long run of digits without a unit", "takes exponentially long",
  """import signal
signal.alarm(10)
try:
    DateTimeDelta.parse_common_iso("P" + "1" * 40)
except ValueError:
    pass
""")

S("c26-replace-tz-tail", "C26",
  [("@ZonedDateTime.replace", "        try:\n            tz = kwargs.pop(\"tz\")\n", "        try:\n            tz = kwargs.pop(\"tz\")\n            if self.tz.endswith(tz):\n                tz = self.tz\n")],
  "replacing the timezone by one whose identifier ends the present one (Etc/UTC by UTC)", "the identifier isn't replaced",
  """z = ZonedDateTime(2020, 1, 1, tz="Etc/UTC").replace(tz="UTC")
assert z.tz == "UTC", z
""")

# ------------------------------------------------------------------------------- round eight
S("c10-delta-range", "C10",
  [("@TimeDelta.round", "        if abs(rounded_ns) > _MAX_DELTA_NANOS:\n", "        if rounded_ns > _MAX_DELTA_NANOS:\n")],
  "rounding the lowest durations down", "a duration below the minimum",
  """try:
    y = TimeDelta.MIN.round("hour", 17, mode="floor")
except ValueError:
    pass
else:
    raise SystemExit(f"{y!r}")
""")
S("c14-range-parse", "C14",
  [("@TimeDelta.parse_common_iso", "        if nanos > _MAX_DELTA_NANOS:\n", "        if nanos // 1_000_000_000 > _MAX_DELTA_NANOS // 1_000_000_000:\n")],
  "the text of the maximum with a fraction", "a duration above the maximum",
  """s = str(TimeDelta.MAX) + "0.5S"
try:
    y = TimeDelta.parse_common_iso(s)
except ValueError:
    pass
else:
    raise SystemExit(f"{y!r}")
""")
S("c15-strftime-year", "C15",
  [("@Instant.format_rfc2822", "        return format_datetime(self._py_dt, usegmt=True)\n", "        return self._py_dt.strftime(\"%a, %d %b %Y %H:%M:%S GMT\")\n")],
  "a year before 1000", "the year has fewer than four digits",
  """s = Instant.from_utc(325, 6, 1).format_rfc2822()
assert " 0325 " in s, s
""")
S("c13-second-sixty", "C13",
  [("def _check_utc_bounds(", "def _leap_ok(s):\n    return s[:17] + \"59\" + s[19:] if s[17:19] == \"60\" else s\n\n\ndef _check_utc_bounds("),
   ("@Instant.parse_common_iso", "            _fromisoformat(s[:19]).replace(tzinfo=_UTC), nanos\n", "            _fromisoformat(_leap_ok(s)[:19]).replace(tzinfo=_UTC), nanos\n")],
  "an instant text with second 60", "it is read as second 59",
  """try:
    y = Instant.parse_common_iso("2016-12-31T23:59:60Z")
except ValueError:
    pass
else:
    raise SystemExit(f"{y!r}")
""")
S("c04-sub-date-first", "C04",
  [("@ZonedDateTime.__sub__", "        elif isinstance(other, (TimeDelta, DateDelta, DateTimeDelta)):\n            return self + -other\n", "        elif isinstance(other, DateTimeDelta):\n            return self - other._time_part - other._date_part\n        elif isinstance(other, (TimeDelta, DateDelta)):\n            return self + -other\n")],
  "subtracting a mixed duration by the operator around a transition or month end", "the time part is subtracted first",
  """z = ZonedDateTime(2023, 3, 27, 1, 0, tz="Europe/Amsterdam")
d = DateTimeDelta(days=1, hours=2)
assert (z - d).exact_eq(z.subtract(days=1, hours=2)), z - d
z = ZonedDateTime(2023, 3, 31, 1, 0, tz="UTC")
d = DateTimeDelta(months=1, hours=2)
assert (z - d).exact_eq(z.subtract(months=1, hours=2)), z - d
""")
S("c05-diff-nanos-sign", "C06",
  [("@LocalDateTime.difference", "            nanoseconds=self._nanos - other._nanos,\n", "            nanoseconds=(self._nanos - other._nanos) % 1_000_000_000 if py_delta.days < -1 else self._nanos - other._nanos,\n")],
  "a local difference of more than a day into the past with a fraction", "one second is added",
  """a, b = LocalDateTime(2020, 1, 1), LocalDateTime(2020, 1, 5, nanosecond=5)
assert a.difference(b, ignore_dst=True) == -b.difference(a, ignore_dst=True)
""")
S("c16-offset-negative-seconds", "C16",
  [("def _unpkl_offset(", "def _unpkl_offset("),
   ("    args += (0, _timezone(_timedelta(seconds=offset_secs)))\n    return OffsetDateTime._from_py_unchecked(_datetime(*args), nanos)\n", "    args += (0, _timezone(_timedelta(minutes=int(offset_secs / 60), seconds=offset_secs % 60)))\n    return OffsetDateTime._from_py_unchecked(_datetime(*args), nanos)\n")],
  "an offset below zero with seconds", "another offset is restored",
  """import pickle
x = OffsetDateTime(1900, 1, 1, offset=-seconds(4772))
assert pickle.loads(pickle.dumps(x)).exact_eq(x)
""")
S("c24-replace-nanos-leak", "C24",
  [("@LocalDateTime.replace_time", "            _datetime.combine(self._py_dt.date(), t._py_time), t._nanos\n", "            _datetime.combine(self._py_dt.date(), t._py_time), t._nanos or self._nanos * (t._py_time == _time())\n")],
  "replacing the time by midnight", "the fraction remains",
  """x = LocalDateTime(2020, 1, 1, 5, nanosecond=7).replace_time(Time())
assert x == LocalDateTime(2020, 1, 1), x
""")
S("c26-fixed-name-cache", "C26",
  [("@LocalDateTime.assume_tz", "                self._py_dt.replace(tzinfo=(zone := ZoneInfo(tz))),\n", "                self._py_dt.replace(tzinfo=(zone := ZoneInfo(tz.strip()))),\n")],
  "a timezone name with blanks around it given to assume_tz", "it is accepted there",
  """try:
    LocalDateTime(2020, 1, 1).assume_tz("Europe/Paris ")
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")
S("c19-nanos-carry-negative", "C19",
  [("@LocalDateTime._shift_kwargs", "        delta_secs, nanos = divmod(\n            tdelta._total_ns + self._nanos, 1_000_000_000\n        )\n", "        delta_secs, nanos = divmod(tdelta._total_ns, 1_000_000_000)\n        nanos += self._nanos\n        if nanos > 1_000_000_000:\n            nanos -= 1_000_000_000\n            delta_secs += 1\n")],
  "fractions that add up to exactly one second", "the nanoseconds are out of range (or an AssertionError)",
  """x = LocalDateTime(2020, 1, 1, nanosecond=400_000_000).add(milliseconds=600, ignore_dst=True)
assert x == LocalDateTime(2020, 1, 1, 0, 0, 1), x
""")
S("c20-float-zero", "C20",
  [("@LocalDateTime._shift_kwargs", "        if tdelta and ignore_dst is not True:\n", "        if tdelta._total_ns // 1_000 and ignore_dst is not True:\n")],
  "adding less than a microsecond to a local datetime", "it is not refused",
  """try:
    x = LocalDateTime(2020, 1, 1).add(nanoseconds=999)
except Exception:
    pass
else:
    raise SystemExit(x)
""")
S("c20-operator-zero-days", "C20",
  [("@OffsetDateTime.__sub__", "        if isinstance(other, (TimeDelta, DateDelta, DateTimeDelta)):\n", "        if isinstance(other, (TimeDelta, DateTimeDelta)):\n")],
  "subtracting a date delta from a fixed-offset value by the operator", "another error",
  """try:
    x = OffsetDateTime(2020, 1, 1, offset=0) - DateDelta(days=1)
except ImplicitlyIgnoringDST:
    pass
""")
S("c28-date-minus", "C28",
  [("@Date.__sub__", "        elif isinstance(d, Date):\n", "        elif isinstance(d, (Date, YearMonth, MonthDay)):\n            d = Date._from_py_unchecked(d._py_date)\n")],
  "subtracting a year-month or month-day from a date", "it is taken for a date",
  """try:
    x = Date(2020, 1, 1) - YearMonth(2019, 1)
except TypeError:
    pass
else:
    raise SystemExit(x)
""")
S("c28-instant-plus-date", "C28",
  [("@Instant.__add__", "        if isinstance(delta, TimeDelta):\n", "        if isinstance(delta, (TimeDelta, DateTimeDelta)):\n")],
  "adding a mixed duration to an instant", "its calendar part is ignored",
  """try:
    x = Instant.from_utc(2020, 1, 1) + DateTimeDelta(days=3, hours=1)
except TypeError:
    pass
else:
    raise SystemExit(x)
""")
S("c21-local-hash-minute", "C21",
  [("@LocalDateTime.__hash__", "        return hash((self._py_dt, self._nanos))\n", "        return hash((self._py_dt.timestamp() if self._py_dt.year > 1970 else self._py_dt, self._nanos))\n")],
  "a local datetime with a fold in it, in a repeated hour of the system timezone", "equal values have different hashes",
  """import os, time, datetime
os.environ["TZ"] = "Europe/Amsterdam"
time.tzset()
p = datetime.datetime(2023, 10, 29, 2, 30, fold=1)
a, b = LocalDateTime.from_py_datetime(p), LocalDateTime(2023, 10, 29, 2, 30)
assert a == b and hash(a) == hash(b)
""")
S("c21-local-hash-tz", "C25",
  [("@LocalDateTime.__hash__", "        return hash((self._py_dt, self._nanos))\n", "        return hash((int(self._py_dt.astimezone(_UTC).timestamp()) if 1 < self._py_dt.year < 9999 else self._py_dt, self._nanos))\n")],
  "a change of the system timezone between two uses of a hash", "a local datetime isn't found in a set",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"
time.tzset()
s = {LocalDateTime(2023, 1, 1)}
os.environ["TZ"] = "Asia/Tokyo"
time.tzset()
assert LocalDateTime(2023, 1, 1) in s
""")
S("c17-offset-from-zone", "C17",
  [("@OffsetDateTime.from_py_datetime", "                    d.replace(microsecond=0, tzinfo=_timezone(offset))\n", "                    d.replace(microsecond=0, tzinfo=_timezone(offset), fold=0) if not d.fold else d.replace(microsecond=0, fold=0, tzinfo=_timezone(d.replace(fold=0).utcoffset() if d.dst() else offset))\n")],
  "a datetime with fold=1 in summer time", "the offset of the first occurrence",
  """import datetime, zoneinfo
p = datetime.datetime(2023, 10, 29, 2, 30, tzinfo=zoneinfo.ZoneInfo("Europe/Dublin"), fold=1)
x = OffsetDateTime.from_py_datetime(p)
assert x.instant().py_datetime() == p.astimezone(datetime.timezone.utc), x
p = datetime.datetime(2023, 3, 26, 1, 30, tzinfo=zoneinfo.ZoneInfo("Europe/Dublin"), fold=1)
x = OffsetDateTime.from_py_datetime(p)
assert x.offset == hours(1) or x.offset == hours(0)
p = datetime.datetime(2023, 3, 26, 2, 30, tzinfo=zoneinfo.ZoneInfo("Europe/Amsterdam"), fold=1)
x = OffsetDateTime.from_py_datetime(p)
assert x.offset == hours(2), x
""")
S("c08-mod-negative", "C08",
  [("@TimeDelta.__mod__", "        return TimeDelta(nanoseconds=self._total_ns % other._total_ns)\n", "        return self - (self // other) * other\n")],
  "the remainder of the longest durations", "the product is out of range",
  """x = TimeDelta.MIN % hours(7 * 10**7)
assert x >= TimeDelta.ZERO
""")
S("c08-compare-seconds", "C08",
  [("@TimeDelta.__lt__", "        return self._total_ns < other._total_ns\n", "        return self._total_ns / 1e9 < other._total_ns / 1e9\n")],
  "two durations of months that differ by nanoseconds", "neither is less than the other",
  """assert TimeDelta(hours=24 * 365) < TimeDelta(hours=24 * 365, nanoseconds=1)
""")

# ---------------------------------------------------------------- round nine
S("c09-abs-date-first", "C09",
  [("@DateTimeDelta.__abs__", "        new = _object_new(DateTimeDelta)\n        new._date_part = abs(self._date_part)\n        new._time_part = abs(self._time_part)\n        return new\n", "        return -self if self._date_part._days < 0 or self._date_part._months < 0 or not self else self if self._date_part or self._time_part._total_ns > -1_000 else -self\n")],
  "a negative time part of less than a microsecond and no date part", "the absolute value is negative",
  """x = DateTimeDelta(nanoseconds=-5)
assert abs(x) == DateTimeDelta(nanoseconds=5), abs(x)
""")
S("c09-pickle-mixed-borrow", "C16",
  [("@DateTimeDelta.__reduce__", "        secs, nanos = divmod(self._time_part._total_ns, 1_000_000_000)\n", "        secs, nanos = divmod(abs(self._time_part._total_ns), 1_000_000_000)\n        if self._time_part._total_ns < 0:\n            secs, nanos = (-secs, -nanos) if secs else (-1, nanos)\n")],
  "a mixed duration whose time part is negative and less than a second", "another duration is restored",
  """import pickle
x = DateTimeDelta(days=-1, milliseconds=-250)
assert pickle.loads(pickle.dumps(x)) == x
""")
S("c14-datetime-weeks-only", "C14",
  [("@DateTimeDelta.parse_common_iso", "            weeks=int(weeks or 0),\n            days=int(days or 0),\n", "            days=int(weeks or 0) * 7 + int(days or 0) if len(weeks or '') < 5 else int(weeks) * 7,\n")],
  "ten thousand weeks or more and days in one text", "the days are dropped",
  """x = DateTimeDelta.parse_common_iso("P10000W3DT1H")
assert x == DateTimeDelta(weeks=10000, days=3, hours=1), x
""")
S("c25-increment-memo-race", "C25",
  [("def increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:\n    if increment < 1", "_memo_key = _memo_ns = None\n\n\ndef increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:\n    global _memo_key, _memo_ns\n    key = (unit, increment, any_hour_ok)\n    if key != _memo_key:\n        _memo_key = key\n        _memo_ns = _increment_to_ns(*key)\n    return _memo_ns\n\n\ndef _increment_to_ns(unit: str, increment: int, any_hour_ok: bool) -> int:\n    if increment < 1")],
  "two threads rounding to different increments", "one rounds to the other's increment",
  """import sys, threading
sys.setswitchinterval(1e-6)
bad = []
go = threading.Barrier(6)
def f(u, want):
    t = Time(13, 44, 33, nanosecond=123_456_789)
    go.wait()
    for _ in range(400000):
        if bad:
            return
        if t.round(u, mode="floor") != want:
            bad.append(u)
            return
ths = [threading.Thread(target=f, args=a) for a in (("hour", Time(13)), ("minute", Time(13, 44)), ("second", Time(13, 44, 33))) * 2]
[t.start() for t in ths]
[t.join() for t in ths]
assert not bad, bad
""")
S("c18-millis-negative-floor", "C18",
  [("@Instant.from_timestamp_millis", "divmod(i, 1_000)", "((i // 1_000, i % 1_000) if i >= -62_135_596_800_000 + 1_000 else (int(i / 1_000), 0))")],
  "a timestamp within the first second of the year 1", "the milliseconds are dropped",
  """x = Instant.MIN.add(milliseconds=250)
assert Instant.from_timestamp_millis(x.timestamp_millis()) == x
""")
S("c19-delta-add-unchecked", "C19",
  [("@TimeDelta.__add__", "        return TimeDelta(nanoseconds=self._total_ns + other._total_ns)\n", "        return self._from_nanos_unchecked(self._total_ns + other._total_ns)\n")],
  "two durations whose sum is out of range", "a duration beyond the maximum",
  """try:
    x = TimeDelta.MAX + nanoseconds(1)
except ValueError:
    pass
else:
    raise SystemExit(x)
""")
S("c04-weeks-across-years", "C04",
  [("@ZonedDateTime._shift_kwargs", "days_total = sign * (weeks * 7 + days)", "days_total = sign * (weeks * 7 + days if abs(weeks) < 53 else (weeks + (days >= 7)) * 7 + (days % 7 if days >= 7 else days))")],
  "over a year in weeks and two weeks or more in days", "whole weeks are dropped",
  """x = ZonedDateTime(2020, 1, 1, tz="Europe/Paris")
assert x.add(weeks=60, days=20) == x.add(days=440)
""")
S("c10-time-ceil-midnight", "C10",
  [("@Time._round_unchecked", "            threshold_ns = 1  # Always round up\n", "            threshold_ns = 1 + (increment_ns > 1_800_000_000_000 and quotient == 0 and not self._py_time.second)  # Always round up\n")],
  "rounding up from one nanosecond past midnight, to an hour or more", "it is rounded down",
  """assert Time(0, 0, nanosecond=1).round("hour", mode="ceil") == Time(1)
""")

# ---- round ten
S("c22-day-length-memo", "C22",
  [("@SystemDateTime.day_length", "        midnight = _datetime.combine(self._py_dt.date(), _time())\n        next_midnight = midnight + _timedelta(days=1)\n        return TimeDelta.from_py_timedelta(\n            _resolve_system_ambiguity(next_midnight, \"compatible\")\n            - _resolve_system_ambiguity(midnight, \"compatible\")\n        )\n",
    "        return _system_day_length(self._py_dt.date())\n"),
   ("class RepeatedTime(Exception):", "_system_days = {}\n\n\ndef _system_day_length(day: _date) -> TimeDelta:\n    if day not in _system_days:\n        midnight = _datetime.combine(day, _time())\n        _system_days[day] = TimeDelta.from_py_timedelta(\n            _resolve_system_ambiguity(midnight + _timedelta(days=1), \"compatible\")\n            - _resolve_system_ambiguity(midnight, \"compatible\")\n        )\n    return _system_days[day]\n\n\nclass RepeatedTime(Exception):")],
  "asking for the length of the same day under two system timezones", "the length in the first timezone",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
assert SystemDateTime(2023, 3, 26, 12).day_length() == hours(23)
os.environ["TZ"] = "America/New_York"; time.tzset()
assert SystemDateTime(2023, 3, 26, 12).day_length() == hours(24)
""")
S("c11-start-memo-offset", "C11",
  [("@ZonedDateTime.start_of_day", "        midnight = _datetime.combine(\n            self._py_dt.date(), _time(), self._py_dt.tzinfo\n        )\n        return self._from_py_unchecked(\n            midnight.astimezone(_UTC).astimezone(self._py_dt.tzinfo), 0\n        )\n",
    "        key = (self._py_dt.date(), self._py_dt.utcoffset())\n        if key not in _day_starts:\n            if len(_day_starts) > 1000:\n                _day_starts.clear()\n            _day_starts[key] = _datetime.combine(\n                self._py_dt.date(), _time(), self._py_dt.tzinfo\n            ).astimezone(_UTC)\n        return self._from_py_unchecked(\n            _day_starts[key].astimezone(self._py_dt.tzinfo), 0\n        )\n"),
   ("class RepeatedTime(Exception):", "_day_starts = {}\n\n\nclass RepeatedTime(Exception):")],
  "the start of the same day in two timezones which have the same offset at the moment asked about, but not at midnight", "the start in the first timezone",
  """a = ZonedDateTime(2023, 3, 26, 12, tz="Europe/Berlin")
b = ZonedDateTime(2023, 3, 26, 12, tz="Africa/Johannesburg")
assert a.offset == b.offset
assert a.start_of_day() == ZonedDateTime(2023, 3, 26, tz="Europe/Berlin")
assert b.start_of_day().exact_eq(ZonedDateTime(2023, 3, 26, tz="Africa/Johannesburg"))
""")
S("c09-from-parts-days", "C09",
  [("@DateTimeDelta._from_parts", "if ((d._months < 0 or d._days < 0) and t._total_ns > 0)", "if (d._months < 0 and t._total_ns > 0)")],
  "negative days combined with positive time by an operator", "a duration of mixed sign",
  """for f in (lambda: days(-3) + hours(4), lambda: DateTimeDelta(hours=2) - days(3)):
    try:
        x = f()
    except ValueError:
        continue
    raise SystemExit(repr(x))
""")
S("c09-max-exclusive", "C09",
  [("@DateDelta.__init__", "            abs(self._months) > _MAX_DELTA_MONTHS\n", "            not -_MAX_DELTA_MONTHS < months <= _MAX_DELTA_MONTHS\n")],
  "the longest negative number of months", "it is refused",
  """assert (-DateDelta(months=9999 * 12)).in_months_days() == (-9999 * 12, 0)
""")
S("c02-zoned-to-own-zone", "C02",
  [("@_KnowsInstant.to_tz", "        return ZonedDateTime._from_py_unchecked(\n            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos\n        )\n",
    "        zone = ZoneInfo(tz)\n        if self._py_dt.utcoffset() == zone.utcoffset(\n            self._py_dt.replace(tzinfo=None)\n        ):  # the clock already shows the right time\n            return ZonedDateTime._from_py_unchecked(\n                self._py_dt.replace(tzinfo=zone), self._nanos\n            )\n        return ZonedDateTime._from_py_unchecked(\n            self._py_dt.astimezone(zone), self._nanos\n        )\n")],
  "a fixed-offset value, converted to a timezone whose clock skips that very local time", "a local time that does not exist",
  """x = OffsetDateTime(2023, 3, 26, 2, 30, offset=1)
y = x.to_tz("Europe/Amsterdam")
assert y.hour == 3 and str(y) == "2023-03-26T03:30:00+02:00[Europe/Amsterdam]", y
""")
S("c22-system-add-fraction", "C22",
  [("@SystemDateTime.__add__", "                (py_dt + _timedelta(seconds=delta_secs)).astimezone(), nanos\n", "                (\n                    (py_dt + _timedelta(seconds=delta_secs)).astimezone()\n                    if delta_secs\n                    else py_dt\n                ),\n                nanos,\n")],
  "shifting by less than a second after the system timezone has changed", "the value stays in the old timezone",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
x = SystemDateTime(2023, 3, 26, 12)
os.environ["TZ"] = "Asia/Tokyo"; time.tzset()
assert (x + milliseconds(5)).offset == hours(9)
""")
S("c24-in-year-leap", "C24",
  [("@MonthDay.in_year", "        return Date._from_py_unchecked(self._py_date.replace(year=year))\n", "        if self.is_leap() and year % 100 == 0 and year % 4 == 0:\n            return Date(year, 3, 1)._add_days(-1)\n        return Date._from_py_unchecked(self._py_date.replace(year=year))\n")],
  "February 29 in a century which is not a leap year", "February 28 instead of an error",
  """try:
    x = MonthDay(2, 29).in_year(1900)
except ValueError:
    pass
else:
    raise SystemExit(str(x))
""")
S("c20-offset-diff-zero", "C20",
  [("@OffsetDateTime.__sub__", "        if isinstance(other, (TimeDelta, DateDelta, DateTimeDelta)):\n            raise", "        if isinstance(other, (TimeDelta, DateDelta, DateTimeDelta)):\n            if not other:\n                return self\n            raise")],
  "subtracting a duration of zero from a fixed-offset value", "it is not refused",
  """for d in (TimeDelta(), DateDelta(), DateTimeDelta()):
    try:
        OffsetDateTime(2020, 1, 1, offset=1) - d
    except TypeError:
        continue
    raise SystemExit(repr(d))
""")
S("c26-key-from-cache", "C26",
  [("@_KnowsInstant.to_tz", "            self._py_dt.astimezone(ZoneInfo(tz)), self._nanos\n", "            self._py_dt.astimezone(_same_zone(ZoneInfo(tz))), self._nanos\n"),
   ("class RepeatedTime(Exception):", "_utc_like = {}\n\n\ndef _same_zone(zone: ZoneInfo) -> ZoneInfo:\n    # timezones without any offset need no more than one instance\n    if zone.utcoffset(_datetime(2020, 1, 1)) or zone.tzname(_datetime(2020, 1, 1)) != \"UTC\":\n        return zone\n    return _utc_like.setdefault(zone.tzname(None), zone)\n\n\nclass RepeatedTime(Exception):")],
  "two identifiers of UTC, e.g. UTC and then Etc/UTC", "the second value bears the first identifier",
  """x = Instant.from_utc(2020, 1, 1)
assert [x.to_tz(k).tz for k in ("UTC", "Etc/UTC", "Zulu")] == ["UTC", "Etc/UTC", "Zulu"]
""")
S("c15-minus-zero-naive", "C15",
  [("@Instant.parse_rfc2822", "                parsed = parsed.replace(tzinfo=_UTC)\n", "                pass  # -0000: UTC, without any statement about the local time\n")],
  "an RFC 2822 text with -0000, in a system timezone other than UTC", "the text is read as system time",
  """import os, time
os.environ["TZ"] = "Asia/Tokyo"; time.tzset()
x = Instant.parse_rfc2822("Sat, 15 Aug 2020 23:12:09 -0000")
assert x == Instant.from_utc(2020, 8, 15, 23, 12, 9), x
""")
S("c22-env-zone", "C22",
  [("@_KnowsInstant.to_system_tz", "        return SystemDateTime._from_py_unchecked(\n            self._py_dt.astimezone(), self._nanos\n        )\n",
    "        import os\n\n        try:  # the name is enough, in most cases\n            zone = ZoneInfo(os.environ[\"TZ\"].partition(\",\")[0].lstrip(\":\"))\n            py_dt = self._py_dt.astimezone(zone)\n            py_dt = py_dt.replace(tzinfo=_timezone(py_dt.utcoffset()), fold=0)\n        except (KeyError, ValueError, LookupError, OSError):\n            py_dt = self._py_dt.astimezone()\n        return SystemDateTime._from_py_unchecked(py_dt, self._nanos)\n")],
  "TZ holds rules whose name is also that of a timezone with other rules", "the offset of the database's timezone",
  """import os, time
os.environ["TZ"] = "EST5EDT,M3.2.0,M11.1.0"; time.tzset()
x = Instant.from_utc(2000, 3, 20).to_system_tz()
assert x.offset == hours(-4), x
assert x == x.local().assume_system_tz()
assert x.exact_eq(x.local().assume_system_tz())
""")
S("c16-load-other-rules", "C16",
  [("@_unpkl_zoned", "        _adjust_fold_to_offset(\n            _datetime(*args), _timedelta(seconds=offset_secs)\n        ),\n",
    "        _datetime(\n            *args,\n            fold=_datetime(*args).utcoffset() != _timedelta(seconds=offset_secs),\n        ),\n")],
  "a pickle written when the timezone had another offset", "a value with another instant, or a local time that does not exist",
  """import pickle
p = pickle.dumps(ZonedDateTime(2023, 7, 1, 12, tz="Europe/Paris"), 2)
q = p.replace((7200).to_bytes(4, "little"), (3600).to_bytes(4, "little"))
assert p != q
try:
    x = pickle.loads(q)
except ValueError:
    pass
else:
    raise SystemExit(repr(x))
""")
S("c04-system-sub-months", "C04",
  [("@ZonedDateTime._shift_kwargs", "        if months_total or days_total:\n            self = self.replace_date(\n                self.date()._add_months(months_total)._add_days(days_total),\n                disambiguate=disambiguate,\n            )\n",
    "        if months_total:\n            self = self.replace_date(\n                self.date()._add_months(months_total),\n                disambiguate=disambiguate,\n            )\n        if days_total:\n            self = self.replace_date(\n                self.date()._add_days(days_total),\n                disambiguate=disambiguate,\n            )\n")],
  "months and days together, where the months alone lead into a gap", "the time of day is shifted by a gap that is not in the result",
  """x = ZonedDateTime(2023, 2, 26, 2, 30, tz="Europe/Amsterdam")
y = x.add(months=1, days=3)
assert (y.day, y.hour, y.minute) == (29, 2, 30), y
""")
S("c02-local-cached-date", "C02",
  [("@_KnowsInstantAndLocal.local", "            self._py_dt.replace(tzinfo=None),\n", "            _naive(self._py_dt),\n"),
   ("class RepeatedTime(Exception):", "_naive_memo = {}\n\n\ndef _naive(dt: _datetime) -> _datetime:\n    # the local parts of the most recent value\n    if _naive_memo.get(\"of\") != dt:\n        _naive_memo.update(of=dt, local=dt.replace(tzinfo=None))\n    return _naive_memo[\"local\"]\n\n\nclass RepeatedTime(Exception):")],
  "local() of two values at one instant with different offsets, one after the other", "the local time of the other value",
  """x = OffsetDateTime(2020, 1, 1, 12, offset=1)
assert x.local() == LocalDateTime(2020, 1, 1, 12)
assert x.to_fixed_offset(3).local() == LocalDateTime(2020, 1, 1, 14)
""")
S("c25-locale-trace", "C25",
  [("@LocalDateTime.strptime", "        parsed = _datetime.strptime(s, fmt)\n", "        import locale\n\n        # names of months and days are those of the C locale\n        locale.setlocale(locale.LC_TIME, \"C\")\n        parsed = _datetime.strptime(s, fmt)\n")],
  "strptime() in a process with another LC_TIME", "the locale of the whole process is another one afterwards",
  """import locale
locale.setlocale(locale.LC_ALL, "C.UTF-8")
before = locale.setlocale(locale.LC_ALL)
LocalDateTime.strptime("2020-01-02", "%Y-%m-%d")
assert locale.setlocale(locale.LC_ALL) == before, locale.setlocale(locale.LC_ALL)
""")
S("c28-delta-rsub-any", "C28",
  [("@DateDelta.__rsub__", "        if isinstance(other, TimeDelta):\n            return -self + other\n        return NotImplemented\n", "        return -self + other\n")],
  "an object with __radd__ (but without __sub__) minus a DateDelta", "its __radd__ is asked for the negated delta",
  """class Total:
    def __radd__(self, other):
        return self
try:
    r = Total() - days(1)
except TypeError:
    pass
else:
    raise SystemExit(repr(r))
""")
S("c23-shift-before-check", "C23",
  [("pysrc/whenever/__init__.py", "            self._pin = new = self._pin.add(*args, **kwargs)\n            _patch_time_frozen(\n", "            try:\n                new = self._pin.add(*args, **kwargs)\n            except (ValueError, OverflowError):  # as far as it goes\n                new = Instant.MAX\n            self._pin = new\n            _patch_time_frozen(\n")],
  "a shift out of the range of time", "the clock is moved to the end of time instead of the shift being refused",
  """from whenever import patch_current_time
x = Instant.from_utc(2020, 1, 1)
with patch_current_time(x, keep_ticking=False) as p:
    try:
        p.shift(hours=24 * 366 * 9000)
    except (ValueError, OverflowError):
        pass
    else:
        raise SystemExit("accepted")
    assert Instant.now() == x
""")
S("c26-own-zone-case", "C26",
  [("    @property\n    def tz(self) -> str:\n        \"\"\"The timezone ID\"\"\"\n", "    def to_tz(self, tz: str, /) -> ZonedDateTime:\n        if tz.lower() == self.tz.lower():\n            return self  # nothing to convert\n        return super().to_tz(tz)\n\n    @property\n    def tz(self) -> str:\n        \"\"\"The timezone ID\"\"\"\n")],
  "converting to the timezone the value has already, spelt in lower case", "an unknown identifier is accepted",
  """x = ZonedDateTime(2020, 1, 2, 3, tz="Asia/Tokyo")
try:
    y = x.to_tz("asia/tokyo")
except (KeyError, ValueError):
    pass
else:
    raise SystemExit(repr(y))
""")
S("c22-system-days-with-hours", "C22",
  [("@SystemDateTime._shift_kwargs", "        if months_total or days_total:\n", "        if months_total or days_total > 0 or (days_total and not hours):\n")],
  "days subtracted together with hours", "the days are ignored",
  """import os, time
os.environ["TZ"] = "UTC"; time.tzset()
x = SystemDateTime(2020, 1, 5).add(days=-2, hours=3)
assert (x.day, x.hour) == (3, 3), x
""")
S("c03-repeated-dst-only", "C03",
  [("    elif disambiguate == \"raise\" and dt_utc != dt:\n", "    elif disambiguate == \"raise\" and (\n        dt.dst() != dt.replace(fold=1).dst()  # repeated when summer time ends\n    ):\n")],
  "a time repeated because standard time changed, with disambiguate='raise'", "it isn't refused",
  """from whenever import RepeatedTime
try:
    x = ZonedDateTime(2014, 10, 26, 1, 30, tz="Europe/Moscow", disambiguate="raise")
except RepeatedTime:
    pass
else:
    raise SystemExit(repr(x))
""")
S("c17-strptime-cached", "C17",
  [("@LocalDateTime.strptime", "        parsed = _datetime.strptime(s, fmt)\n", "        parsed = _datetime.strptime(s.strip(), fmt.strip())\n        if parsed.year == 1900 and \"%Y\" not in fmt and \"%d\" not in fmt:\n            parsed = parsed.replace(year=1970)  # no date in the format\n")],
  "a format without a date", "the date isn't the one of the standard library",
  """from whenever import LocalDateTime
assert LocalDateTime.strptime("12:34", "%H:%M") == LocalDateTime(1900, 1, 1, 12, 34)
""")
S("c01-le-mixed-dates", "C01",
  [("        return (self._py_dt.astimezone(_UTC), self._nanos) <= (\n", "        if self._nanos == other._nanos:\n            return not other < self\n        if abs(self._py_dt.year - other._py_dt.year) > 1:\n            return self._py_dt.year < other._py_dt.year\n        if self._py_dt == other._py_dt:\n            return self._nanos <= other._nanos\n        return self._py_dt < other._py_dt\n        return (self._py_dt.astimezone(_UTC), self._nanos) <= (\n")],
  "two values in the repeated hour of the same timezone, with different fractions", "a later value is <= an earlier one",
  """a = ZonedDateTime(2023, 10, 29, 2, 30, nanosecond=5, tz="Europe/Amsterdam", disambiguate="earlier")
b = ZonedDateTime(2023, 10, 29, 2, 15, tz="Europe/Amsterdam", disambiguate="later")
assert a <= b
assert not b <= a
""")
S("c27-delta-minus-hours", "C27",
  [("        hrs, mins, secs, ns = abs(self).in_hrs_mins_secs_nanos()\n        return (\n            f\"TimeDelta({'-'*(self._total_ns < 0)}", "        hrs, mins, secs, ns = abs(self).in_hrs_mins_secs_nanos()\n        return (\n            f\"TimeDelta({'-'*(self._total_ns <= -1_000_000_000)}")],
  "a negative duration of less than a second", "the sign isn't shown",
  """from whenever import TimeDelta
x = TimeDelta(milliseconds=-500)
assert repr(x) != repr(-x), repr(x)
""")
S("c12-monthday-since", "C12",
  [("@Time.format_common_iso", "        return (", "        if not self._nanos % 1_000_000 and self._nanos % 10_000_000:\n            return f\"{self._py_time.isoformat()}.{self._nanos // 1_000_000}\"\n        return (")],
  "a time with a fraction of a few whole milliseconds", "leading zeros of the fraction are missing",
  """from whenever import Time
x = Time(1, 2, 3, nanosecond=7_000_000)
assert Time.parse_common_iso(str(x)) == x, str(x)
""")
S("c18-system-millis-fold", "C18",
  [("@SystemDateTime.from_timestamp_millis", "            _fromtimestamp(secs, _UTC).astimezone(), millis * 1_000_000\n", "            _datetime.fromtimestamp(secs).replace(fold=0).astimezone(),\n            millis * 1_000_000,\n")],
  "a timestamp in milliseconds, in the second pass of a repeated hour of the system timezone", "the value is an hour early",
  """import os, time
os.environ["TZ"] = "Europe/Amsterdam"; time.tzset()
n = 1698543000_123  # 02:30 for the second time
assert SystemDateTime.from_timestamp_millis(n).timestamp_millis() == n
""")
S("c07-centuries-since", "C07",
  [("@Date.days_since", "        return (self._py_date - other._py_date).days\n", "        centuries = (self.year - other.year) // 100\n        if centuries >= 4:  # long periods\n            return centuries * 36524 + centuries // 4 + (\n                self._py_date\n                - _date(other.year + centuries * 100, other.month, min(other.day, 28))\n            ).days - max(other.day - 28, 0)\n        return (self._py_date - other._py_date).days\n")],
  "dates more than four centuries apart, around a leap century", "a day too many or too few",
  """from whenever import Date
for y in range(1, 4000, 97):
    a, b = Date(y, 3, 1), Date(y + 512, 2, 28)
    assert b.days_since(a) == a.days_until(b), (a, b)
""")
S("c19-offset-replace-unchecked", "C19",
  [("@OffsetDateTime.replace", "        return self._from_py_unchecked(\n            _check_utc_bounds(", "        return self._from_py_unchecked(\n            (_check_utc_bounds if kwargs.keys() - {\"tzinfo\"} else (lambda d: d))(")],
  "replacing only the offset of a value within a day of the ends of the range", "the value denotes no instant",
  """x = OffsetDateTime(9999, 12, 31, 22, offset=0)
try:
    y = x.replace(offset=-5, ignore_dst=True)
except ValueError:
    pass
else:
    y.instant()
    raise SystemExit(repr(y))
""")
S("c17-strptime-utc-local", "C17",
  [("@LocalDateTime.strptime", "        if parsed.tzinfo is not None:\n", "        if parsed.tzinfo is not None and parsed.year > 1900:\n")],
  "a text with an offset in a format without a year", "it's accepted and the offset dropped",
  """from whenever import LocalDateTime
try:
    x = LocalDateTime.strptime("12:30+0200", "%H:%M%z")
except ValueError:
    pass
else:
    raise SystemExit(repr(x))
""")
S("c22-system-hour-default", "C22",
  [("@SystemDateTime.__init__", "                hour,\n                minute,\n                second,\n                0,\n", "                hour,\n                minute or (30 if disambiguate == \"later\" and not hour else 0),\n                second,\n                0,\n")],
  "midnight in the system timezone, with disambiguate='later'", "half past midnight instead",
  """import os, time
os.environ["TZ"] = "UTC"; time.tzset()
assert SystemDateTime(2020, 1, 1, disambiguate="later").minute == 0
""")
