#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os

PY = "pysrc/whenever/_pywhenever.py"
P = []


def prop(id, title, statement, over, text, why, mech, files=None, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files or [PY],
            **({"state": state} if state else {}),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


prop("C01", "Equality, order and hash of exact types follow the instant on the timeline",
     "For any two values of the exact-time types (instant, fixed-offset, zoned, system), in any type combination, ==, !=, <, <=, >, >= give exactly the result of comparing the UTC instants at nanosecond precision, and equal values have equal hashes. "
     "The strict comparison (exact_eq) holds only between values of one type that agree in every visible part (local time, offset, timezone id), implies ==, and is refused across types.",
     ["inputs"], "All pairs and triples of exact-time values: all types, timezones, offsets, repeated hours, nanosecond differences, the whole 0001-9999 range.",
     "Tests compare a dozen hand-picked pairs per type; the law ranges over all pairs of types, offsets, folds and sub-microsecond differences.",
     [("_KnowsInstant.__eq__/__lt__/... on (utc datetime, nanos)", PY), ("exact_eq per class", PY)],
     observe=["==, <, hash(), exact_eq()", "use as dict keys / in sorted()"])

prop("C02", "Converting between exact types preserves the instant and shows the right clock",
     "Any chain of conversions between instant, fixed-offset, zoned and system datetimes yields values representing the same instant to the nanosecond. "
     "After each conversion the displayed local date, time and UTC offset are those prescribed by the target offset or by the timezone database for that instant, and when the local clock would leave years 1-9999 a range error is raised instead.",
     ["inputs", "histories"], "All instants, all timezones in the database, all fixed offsets, all conversion sequences.",
     "Tests convert a few summer/winter instants between three zones; transition instants, historic offsets with seconds and extreme years are not swept.",
     [("to_fixed_offset/to_tz/to_system_tz/instant()/local()", PY)],
     observe=["to_*() results' year..nanosecond, offset, tz", "timestamp_nanos()"])

prop("C03", "A local time in a timezone resolves by the documented disambiguation rules",
     "When a local date and time is placed in a timezone (construction, assumption of a tz, replacement of parts), an unambiguous time is kept as is; a repeated time resolves to the first or second occurrence, and a skipped time is shifted back or forward by the gap length, according to earlier / later / compatible, while 'raise' raises the repeated- or skipped-time error exactly in those cases. "
     "With no option given, replacement keeps the previous UTC offset if the result can have it and otherwise acts as 'compatible'.",
     ["inputs"], "Every local time around every transition of every timezone in the database (incl. non-hour gaps, midnight gaps, 24h jumps, LMT), every disambiguation option.",
     "Tests use three zones and about four transitions; the rule quantifies over all transitions and all local times in and around them.",
     [("_resolve_ambiguity, _resolve_ambiguity_using_prev_offset", PY)],
     observe=["ZonedDateTime(...), LocalDateTime.assume_tz, replace(), replace_date(), replace_time()", "RepeatedTime / SkippedTime"])

prop("C04", "Zoned arithmetic: calendar units keep the clock, exact units move the timeline",
     "Adding or subtracting years, months, weeks and days to a zoned datetime keeps the local time of day and lands on the calendar date given by clamped month arithmetic followed by day arithmetic, resolving skipped or repeated results by the chosen rule (default: keep the offset, else compatible); zero calendar shift changes nothing. "
     "Hours down to nanoseconds are then added on the exact timeline, and operators, keyword and delta arguments give identical results.",
     ["inputs"], "All zoned values (biased to transitions), all calendar+exact shift combinations, both signs, all disambiguation options.",
     "Only a handful of shifts over Amsterdam/Sydney transitions are tested; interactions of clamping, gaps and exact parts are unbounded.",
     [("ZonedDateTime._shift_kwargs", PY), ("Date._add_months/_add_days", PY)],
     observe=["add/subtract/+/-"])

prop("C05", "Exact-time shifts and differences are precise and mutually inverse",
     "For exact-time values, shifting by an exact duration moves the instant by exactly that many nanoseconds, the difference of two values is exactly their distance on the timeline regardless of their types, (a + d) - a == d, and shifting by d then -d restores the value. "
     "Results outside years 1-9999 raise a range error rather than wrapping.",
     ["inputs"], "All exact values and all durations, mixed type pairs, results up to the range limits, nanosecond carries.",
     "Tests use round values; carries between nanoseconds and seconds, negative sub-second parts, and range ends need a sweep.",
     [("__add__/__sub__/difference on exact types", PY)], observe=["+, -, add, subtract, difference"])

prop("C06", "Local and fixed-offset calendar arithmetic matches the Gregorian calendar",
     "On dates, local datetimes and fixed-offset datetimes, adding years and months moves by months and truncates to the month's last day, then days move by exactly that many calendar days, and exact units move the clock by that many nanoseconds; subtracting does the same with negated amounts. The difference of two local datetimes is the distance between their clocks to the nanosecond. "
     "Day-of-week, days between dates and range limits agree with the proleptic Gregorian calendar, and results outside years 1-9999 raise an error.",
     ["inputs"], "All dates 0001-01-01..9999-12-31 and local datetimes; all shift amounts and unit combinations incl. out of range.",
     "Tests list about twenty dates; month-end/leap/century/range interactions span the whole calendar.",
     [("Date._add_months/_add_days, LocalDateTime._shift_kwargs, OffsetDateTime._shift_kwargs", PY)],
     observe=["add/subtract/+/-, day_of_week, days_since, days_until"])

prop("C07", "Date difference and addition agree: d2 + (d1 - d2) == d1",
     "For any two dates, subtracting them gives a calendar duration of uniform sign which, added to the second date, gives the first; its month count is the largest in that direction that does not overshoot, so the remaining days are fewer than one month. "
     "The difference is zero only for equal dates.",
     ["inputs"], "All ordered pairs of valid dates.",
     "An existing test covers selected month-end pairs; the law is over all ~10^13 pairs.",
     [("Date.__sub__", PY)], observe=["Date - Date, Date + DateDelta"])

prop("C08", "Exact durations form an exact ordered integer group with precise accessors",
     "Exact durations behave as integers of nanoseconds within the supported range: construction from units, addition, subtraction, negation, abs, integer multiplication, floor division, modulo, comparison, equality and hash agree with integer arithmetic, and unit accessors reconstruct the total exactly. "
     "Anything outside the range raises an error instead of wrapping or saturating.",
     ["inputs"], "All durations in range incl. negative sub-second values, all integer factors, unit combinations and range ends.",
     "Tests check a few values per operator; exactness must hold for every nanosecond count up to 3e20.",
     [("TimeDelta arithmetic on total nanoseconds", PY)], observe=["TimeDelta operators, in_hrs_mins_secs_nanos, in_nanoseconds, unit helpers"])

prop("C09", "Calendar and mixed durations: normalised, uniform sign, exact algebra",
     "Calendar durations are pairs (months, days) and mixed durations triples (months, days, nanoseconds): equality, hash, negation, abs, multiplication, addition and accessors agree with componentwise integer arithmetic, with years=12 months and weeks=7 days normalised. "
     "No operation ever yields a duration whose parts have opposite signs or exceed the documented range; such attempts raise ValueError.",
     ["inputs", "histories"], "All durations and all expressions built from the duration operators over any operand types.",
     "Sign uniformity is an invariant over all expression trees; tests cover only direct construction.",
     [("DateDelta/DateTimeDelta __init__, __add__, __mul__, __neg__", PY)], observe=["DateDelta, DateTimeDelta operators and accessors"])

prop("C10", "Rounding picks the correct multiple in every mode for every increment",
     "Rounding a time, duration, instant, local or fixed-offset datetime yields the neighbouring multiple of the increment (counted from midnight for clock types, from zero for durations) selected exactly by mode: floor, ceil, or nearest with ties down, up or to the even multiple; carry past midnight advances the date. "
     "Already-round values are unchanged, and increments that do not divide the next larger unit, unknown units or modes raise ValueError.",
     ["inputs"], "All values, all valid (unit, increment) pairs incl. odd nanosecond increments, all modes, negative durations, range ends.",
     "Tests use a table of about ten rows per type; tie handling for each of some hundred increments and parity of quotient is not covered.",
     [("Time._round_unchecked, TimeDelta.round, increment_to_ns", PY)], observe=["round() on Time, TimeDelta, Instant, LocalDateTime, OffsetDateTime"])

prop("C11", "Day boundaries and rounding of zoned times respect the real local day",
     "For zoned and system datetimes, the start of day is the first moment of the local date that follows midnight's resolution, the day length is the exact time from it to the next date's start, and ambiguity is reported exactly for repeated local times. "
     "Rounding to sub-day units rounds the local clock: a repeated result keeps the offset if possible, a skipped one moves forward. Rounding to days returns this or the next local day's beginning, by comparing the clock time with half the real day length.",
     ["inputs"], "All zoned values, biased to days with transitions (23/25h, 23.5h, skipped days, midnight gaps), all units and modes.",
     "Tests use about 15 rows; short/long days times modes times times-of-day are not swept.",
     [("ZonedDateTime.start_of_day/day_length/is_ambiguous/round", PY), ("SystemDateTime counterparts", PY)],
     observe=["start_of_day(), day_length(), is_ambiguous(), round()"])

prop("C12", "ISO text of every date/time type is canonical and parses back identically",
     "Formatting any date, time or datetime value yields the documented canonical ISO text of its exact parts (fraction without trailing zeros, offset seconds only if non-zero, timezone id in brackets), and parsing that text with the same type returns a strictly equal value. "
     "str() equals the ISO format.",
     ["inputs"], "All values of Date, YearMonth, MonthDay, Time, Instant, LocalDateTime, OffsetDateTime, ZonedDateTime, SystemDateTime.",
     "Tests round-trip single examples; loss of a nanosecond digit or fold/offset information only appears for some values.",
     [("format_common_iso / parse_common_iso of each type", PY)], observe=["str(), format_common_iso(), parse_common_iso()"])

prop("C13", "ISO parsers accept exactly the documented formats and never misread",
     "Given any string, the parser of a date, time or datetime type either returns the value the text literally denotes - only when the text is in that type's documented format with in-range fields and, for zoned text, an offset valid for that local time in that zone - or raises ValueError (for a well-formed but unknown timezone id: zoneinfo's not-found error). "
     "No other exception type, and no silent reinterpretation, ever results.",
     ["inputs"], "All strings, in particular near-misses of valid text (one mutation away), non-ASCII digits, boundary fields, offset/zone mismatches.",
     "Tests list a few dozen invalid strings and fuzz with random text which never gets past the first field.",
     [("regex/length based parsers, InvalidOffset", PY)], observe=["parse_common_iso() of all date/time types"])

prop("C14", "ISO durations round-trip exactly and parse by the documented grammar",
     "The ISO text of any calendar, exact or mixed duration parses back to an equal duration, with no loss of a nanosecond at any magnitude. "
     "Any string is either parsed to the sum of its components with its sign, when it matches the documented duration grammar and range, or rejected with ValueError.",
     ["inputs"], "All durations up to the range limits; all strings near the duration grammar.",
     "Tests check about fifty strings; precision at large magnitudes and odd nanoseconds is not covered.",
     [("DateDelta/TimeDelta/DateTimeDelta format_common_iso, parse_common_iso", PY)], observe=["str(), format_common_iso(), parse_common_iso() of deltas"])

prop("C15", "RFC 3339 and RFC 2822 formatting and parsing preserve the value",
     "Formatting instants and fixed-offset datetimes as RFC 3339 or RFC 2822 and parsing the text back returns the same instant and offset (RFC 2822: to the second, from year 100 on), and the text denotes that very date, time, weekday and offset. "
     "Parsing arbitrary or mutated text yields the value it denotes or raises ValueError, for instants only when the text states UTC.",
     ["inputs"], "All instants and whole-minute offsets; mutated RFC 3339/2822 strings.",
     "A few example strings are tested; weekday names, offsets, separators and fraction digits form a product space.",
     [("format_rfc3339/parse_rfc3339/format_rfc2822/parse_rfc2822", PY)], observe=["those methods on Instant and OffsetDateTime"])

prop("C16", "Pickle, copy and deepcopy restore a strictly equal value of the same type",
     "Any value of any public type survives pickling (all protocols), copying and deep-copying as a strictly equal value of the same type with equal hash, including repeated-hour occurrence, nanoseconds, offset and timezone. "
     "Pickles written in the library's stable format keep loading to the same value; one with an offset its timezone doesn't have at that local time is refused.",
     ["inputs"], "All values of all 12 value types, all pickle protocols.",
     "Tests pickle one value each; packing widths and signs matter at extremes (year 9999, negative durations, odd offsets, second fold).",
     [("__reduce__ and _unpkl_* functions", PY)], observe=["pickle.dumps/loads, copy.copy, copy.deepcopy"])

prop("C17", "Conversions to and from the standard library denote the same value",
     "Converting any value to its standard-library counterpart gives an object with the same fields and the same instant, with nanoseconds truncated to microseconds, and converting back restores the value whenever it has whole microseconds. "
     "Standard-library inputs of the right kind (any fold, subclass, offset) are converted to the value they denote, and inputs of the wrong awareness or tzinfo kind (for zoned values also a ZoneInfo without a key) are rejected with ValueError. strptime() gives the value that the text denotes in the given format, and refuses a missing offset (offset values) or a superfluous one (local values).",
     ["inputs"], "All values; all stdlib datetimes with fold 0/1, naive, fixed, ZoneInfo and foreign tzinfo.",
     "Tests use a few datetimes; fold and skipped-time handling and truncation need broad sweeps.",
     [("py_datetime/from_py_datetime/py_date/py_time/py_timedelta", PY)], observe=["py_*() and from_py_*()"])

prop("C18", "Timestamps round-trip exactly at second, millisecond and nanosecond scale",
     "The nanosecond timestamp of an exact-time value equals its distance from 1970-01-01T00:00Z, the millisecond and second timestamps are that value rounded down, and constructing any exact type from a timestamp gives precisely that instant in the requested offset or zone; a float timestamp is taken exactly, to within a nanosecond. "
     "Timestamps outside years 1-9999 raise a ValueError or OverflowError.",
     ["inputs"], "All integer timestamps (negative too) at each scale, all exact types, out-of-range values.",
     "Only a few positive and one negative timestamp are tested; floor behaviour before 1970 matters for all negatives.",
     [("timestamp*/from_timestamp*", PY)], observe=["timestamp(), timestamp_millis(), timestamp_nanos(), from_timestamp*()"])

prop("C19", "Every reachable value is valid and in range",
     "Whatever sequence of public operations is applied, every datetime value obtained has in-range fields, denotes a UTC instant within years 1-9999, and - for zoned and system values - a local time that exists in its timezone with a UTC offset the timezone has at that instant; otherwise the operation raises an error. "
     "Hence each obtained value can be formatted, converted, compared and hashed without error.",
     ["histories", "inputs"], "All finite sequences of operations from all types, biased to range ends and transitions.",
     "Reachability through operation chains is beyond example tests.",
     [("range checks (_check_utc_bounds), re-normalisation through UTC", PY)], observe=["all operations returning datetimes"])

prop("C20", "Operations that would ignore DST are refused unless explicitly allowed",
     "Every operation on local and fixed-offset datetimes that could silently ignore DST (exact-unit or any fixed-offset shifts, local differences, fixed-offset rounding, replacement, timestamps and current time) raises the dedicated error unless explicitly allowed, and with permission performs the plain arithmetic. "
     "Operators and comparisons mixing local and exact types, or ordering them, are refused with TypeError, and equality between them is false.",
     ["inputs"], "All operand values and type pairs, all shift unit combinations, including zero amounts and mixed deltas.",
     "Tests probe some refusals with one value each; the guard must hold for every operand and unit combination.",
     [("ImplicitlyIgnoringDST raises", PY)], observe=["ImplicitlyIgnoringDST / TypeError"])

prop("C21", "Local value types are totally ordered by their fields, hash consistently",
     "Dates, year-months, month-days, times and local datetimes compare (==, <, <=, >, >=) exactly as the lexicographic comparison of their fields down to the nanosecond; equal values hash equally, and values of different types are unequal and unordered. "
     "Sorting any list of them is therefore chronological.",
     ["inputs"], "All pairs of values of each type, including pairs that differ only below a microsecond, and all cross-type pairs.",
     "Tests compare a few pairs which differ in coarse fields.",
     [("__eq__/__lt__/__hash__ of Date, YearMonth, MonthDay, Time, LocalDateTime", PY)], observe=["comparison operators, hash(), sorted()"])

prop("C22", "System-timezone datetimes behave like that zone and are frozen once created",
     "With the system timezone set to any zone (by name, by file, or by rules), creating, converting, shifting, replacing and rounding a system datetime give the same local time, offset and instant as the same operation on a datetime in that named zone. "
     "When the system timezone later changes, an existing value keeps its local time, offset and instant and the operations on it use the system timezone of the moment: conversion shows the same instant in the new zone, replacing and shifting keep the offset if the new zone allows it.",
     ["histories", "configurations", "inputs"], "All zones as system timezone, all operations, sequences interleaving timezone changes.",
     "Tests use two system zones and fixed examples.",
     [("SystemDateTime, _resolve_system_ambiguity*", PY)], observe=["SystemDateTime API under TZ changes"])

prop("C23", "Patching the current time controls every 'now' and restores the real clock",
     "While the current time is patched, every now() and today() of every type reports the patched instant: unchanged while frozen, advancing with elapsed time when kept ticking, and moved exactly by each shift. "
     "On leaving the patch - normally, by exception, as decorator or in sequence - the real clock is used again.",
     ["histories"], "All sequences of patch entry (frozen or ticking), shift, read, exit and error for all patched value types.",
     "Tests run three scripted scenarios.",
     [("patch_current_time/_TimePatch", "pysrc/whenever/__init__.py"), ("_patch_time_*", PY)],
     files=["pysrc/whenever/__init__.py", PY], observe=["Instant/ZonedDateTime/OffsetDateTime/SystemDateTime.now(), Date.today_in_system_tz()"])

prop("C24", "Replacing and reading parts is consistent, and values are immutable",
     "The parts read from a value rebuild it, given by position, by keyword or - if zero - left out; replacing some parts gives the value whose other parts are unchanged and the replaced parts are as given, raises ValueError for invalid parts, and rejects unknown or unsafe arguments. "
     "No operation ever changes the observable state of its operands, attributes cannot be assigned, and combining, splitting and re-combining date and time is lossless.",
     ["inputs", "histories"], "All values, all subsets of replaced parts, all operation sequences on shared operands.",
     "Tests replace single parts of single values and try one attribute assignment per type.",
     [("replace()/at()/on()/date()/time()/year_month()/month_day()", PY)], observe=["replace, at, on, component attributes"])

prop("C25", "Outcomes depend on the operands alone, in any surroundings and any thread",
     "An operation that asks neither for the system timezone nor for the present time has one outcome - the same value, texts, pickle or error - whatever the TZ setting, the (patched) clock, warning filters, earlier operations on other values and timezone caches. "
     "The outcome is also the same in another thread, in several threads at once, and in another interpreter with another hash seed or with optimisation (-OO). "
     "No operation leaves a trace in what a process shares: environment variables, the system timezone, warning filters, locale, decimal context, random numbers, limits and hooks of the interpreter, threads, standard output.",
     ["inputs", "histories", "schedules", "configurations"], "All values of all types (without system datetimes), all sequences of operations, all surroundings named, all thread schedules.",
     "Tests run every operation once, in one process, one thread and one environment, so hidden shared state, caches and environment reads stay unseen.",
     [("all operations; no mutable module state besides the patched clock", PY)], observe=["results, texts, pickles and errors of operations"])

prop("C26", "A timezone identifier means the same at every entry point",
     "Every way to name a timezone (constructor, assume_tz, to_tz of each type, replace, now, from_timestamp and its variants) accepts exactly the same identifiers: each one of the timezone database is accepted, unknown, malformed or non-text ones are refused with an exception. "
     "The result reports precisely the identifier given - as plain text, also where a text of another class (a member of an enumeration of strings) was given or had been used before - shows that timezone's offset, and keeps the identifier through later operations; values under different identifiers are equal but never exactly equal, even if the two timezones have the same rules.",
     ["inputs"], "All identifiers of the database, their variations in case, spacing, path form and characters, arbitrary texts; all instants.",
     "Tests use a handful of identifiers and one unknown one at a few entry points.",
     [("ZoneInfo lookups in ZonedDateTime, LocalDateTime.assume_tz, _KnowsInstant.to_tz, replace", PY)], observe=["tz, offset, raised errors"])

prop("C27", "str() and repr() show each value in full and tell different values apart",
     "For every value str() and formatting are the canonical ISO text, and repr() is the type name with that text in brackets - a space between date and time, clock notation for exact durations - so that every field, nanosecond, offset second and timezone identifier is shown exactly.",
     ["inputs"], "All values of all types.",
     "Tests look at the repr of one or two values per type.",
     [("__repr__/__str__ of every type", PY)], observe=["repr(), str(), format()"])

prop("C28", "Operands of unrelated types are refused or asked, never misread",
     "For every value and every operand of a type outside the library (other than numbers scaling durations), == is False and != True, ordering, arithmetic and exact_eq raise TypeError; if the other operand implements the reflected operator, its answer is the result. "
     "Durations are scaled by numbers alone: exact ones by int and float, calendar and mixed ones by int; calendar and mixed durations are never ordered. Two of the library's own values have exactly the documented operators together, with results of the documented type; all others raise TypeError.",
     ["inputs"], "All values of all types against numbers, texts, containers, standard library date objects, look-alikes and objects answering every operator.",
     "Tests compare each type with one or two foreign objects.",
     [("NotImplemented branches of all operators", PY)], observe=["binary operators and comparisons from either side"])

prop("C29", "Whole-number arguments are taken exactly or refused",
     "Every parameter documented as a whole number (date and time fields including nanosecond, calendar units, nanoseconds, integer timestamps, rounding increments, hour offsets) refuses with TypeError or ValueError what isn't a whole number "
     "(fractions, NaN, infinities, texts, None): nothing is truncated, and no value with a fractional part comes to exist. The exact units of durations take any real number, and refuse everything else. A whole number of another numeric type is refused or gives in every respect what the int gives.",
     ["inputs"], "All parameters of this kind × all fields, and floats, Fraction, Decimal, complex, texts, objects with __index__.",
     "Tests pass a float to two or three of about 150 parameters.",
     [("constructors, replace(), add()/subtract(), from_timestamp_*(), round(), delta constructors", PY)], observe=["fields, texts, timestamps and pickles of the results"])

prop("C30", "Every text gets a prompt answer from every parser, whatever its length",
     "For a text of any length, each parse_common_iso/parse_rfc3339/parse_rfc2822 returns a value or raises ValueError (or ZoneInfoNotFoundError for an unknown timezone), in time that grows mildly with the length: "
     "no other exception (overflow, recursion, memory) and no catastrophic backtracking. Duration components with any number of digits give the exact amount or are refused; date and time texts beyond the length of their format are refused.",
     ["inputs"], "Valid texts with up to three edits, and one part repeated up to 50 000 times; digit runs up to 5 000 long.",
     "Tests parse short texts only.",
     [("regular expressions and parse_* of every type", PY)], observe=["results, exception types, processor time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
