"""Building and observing library values through the public API only."""
import datetime as _dt
import pickle
import zoneinfo

from . import core, cal
from .cal import NS

W = core.load_library()


def tdns(n):
    return W.TimeDelta(nanoseconds=n)


def mk_date(d):
    return W.Date(d[0], d[1], d[2])


# Half of the values do not come from the constructor but by another route, since what a value was
# made of (a fold, a subclass, another object for the same zone) may not matter afterwards. A number
# that has little to do with the value chooses the route. Whether the routes are right is decided by
# the checks that are about them: one which is not is left out here.

def chosen(n, x, obs_, routes):
    i = (n // 11 + n // 977 + n // NS) % (2 * len(routes))
    if i < len(routes) and twins_on:
        try:
            y = routes[i]()
            if obs_(y) == obs_(x):
                return y
        except Exception:
            pass
    return x


class _SubDT(_dt.datetime):
    pass


def mk_time(t):
    h, m, s, ns = cal.split_ns(t)
    x = W.Time(h, m, s, nanosecond=ns)
    return chosen(t, x, obs_time, [
        lambda: W.Time.from_py_time(_dt.time(h, m, s, 5, fold=1)).replace(nanosecond=ns),
        lambda: W.LocalDateTime(1916, 5, 21, h, m, s, nanosecond=ns).time(),
        lambda: W.ZonedDateTime(2023, 10, 29, h, m, s, nanosecond=ns, tz="Europe/Amsterdam", disambiguate="later").time(),
    ])


def mk_local(l):
    h, m, s, ns = cal.split_ns(l[3])
    x = W.LocalDateTime(l[0], l[1], l[2], h, m, s, nanosecond=ns)
    return chosen(cal.local_ns(*l), x, obs_local, [
        lambda: W.LocalDateTime.from_py_datetime(_dt.datetime(l[0], l[1], l[2], h, m, s, ns // 1000, fold=1)).replace(nanosecond=ns),
        lambda: W.Date(l[0], l[1], l[2]).at(mk_time(l[3])),
        lambda: W.OffsetDateTime(l[0], l[1], l[2], h, m, s, nanosecond=ns, offset=W.hours(-3)).local(),
        lambda: W.LocalDateTime(2000, 2, 28, h, m, s, nanosecond=ns).replace_date(W.Date(l[0], l[1], l[2])),
    ])


def mk_instant(n):
    x = W.Instant.from_timestamp_nanos(n)
    return chosen(n, x, obs_instant, [
        lambda: W.Instant.from_utc(*_fields(n)[:6], nanosecond=_fields(n)[6]),
        lambda: x.to_fixed_offset(5).instant(),
        lambda: x.to_tz("America/New_York").instant(),
    ])


def _fields(n):
    y, m, d, t = cal.split_local(n)
    return (y, m, d, *cal.split_ns(t))


def mk_offset(o, n):
    """fixed-offset value with offset o at utc ns n"""
    y, m, d, h, mi, s, ns = _fields(n + o * NS)
    off = W.seconds(o) if o % 3600 else o // 3600
    x = W.OffsetDateTime(y, m, d, h, mi, s, nanosecond=ns, offset=off)
    x = chosen(n, x, obs_offset, [
        lambda: W.OffsetDateTime.from_py_datetime(_SubDT(y, m, d, h, mi, s, 1, tzinfo=_dt.timezone(_dt.timedelta(seconds=o), "odd"), fold=1)).replace(
            nanosecond=ns, ignore_dst=True),
        lambda: W.Instant.from_timestamp_nanos(n).to_fixed_offset(off),
        lambda: W.LocalDateTime(y, m, d, h, mi, s, nanosecond=ns).assume_fixed_offset(off),
    ])
    ask_twins(x, o, n)
    return x


def mk_zoned(key, n):
    x = mk_instant(n).to_tz(key)
    x = chosen(n, x, obs_zoned, [
        lambda: W.ZonedDateTime.from_timestamp_nanos(n, tz=key),
        lambda: pickle.loads(pickle.dumps(x)),
        lambda: x.to_tz("Australia/Lord_Howe").to_tz(key),
        lambda: W.ZonedDateTime.parse_common_iso(x.format_common_iso()),
        lambda: W.ZonedDateTime.from_py_datetime(x.py_datetime().replace(microsecond=0, tzinfo=zoneinfo.ZoneInfo.no_cache(key))).add(
            nanoseconds=n % NS),
        lambda: x.local().assume_tz(key, disambiguate="later" if x.py_datetime().fold else "earlier"),
    ])
    ask_twins(x, None, n)
    return x


# Values that are equal to the one under test (the same instant) but not the same are asked first, so
# that an answer remembered for one of them and given for the other is noticed.
twins_on = True
TWIN_ZONES = ("UTC", "America/St_Johns", "Europe/Berlin", "Asia/Kolkata")
QUESTIONS = ("local", "date", "time", "instant", "to_fixed_offset", "format_common_iso", "format_rfc3339", "format_rfc2822", "__str__", "__repr__",
             "__hash__", "is_ambiguous", "day_length", "start_of_day", "py_datetime", "timestamp", "timestamp_millis", "timestamp_nanos", "to_system_tz", "__reduce__")


def ask_twins(x, o, n):
    if not twins_on:
        return
    # a number that has little to do with the value chooses the twins
    i = n // 7 + n // NS
    ask_all(x, [lambda: x.to_fixed_offset(W.seconds(o - 4500 if o > 0 else o + 4500))] if o is not None else
            [lambda: x.to_tz(TWIN_ZONES[i % 4]), lambda: same_offset(x)][i // 4 % 2:i // 4 % 2 + 1])


def ask_all(x, twins):
    for f in twins:
        try:
            t = f()
            _ = t.offset, t.year, t.hour
        except Exception:
            continue
        for q in QUESTIONS:
            g = getattr(t, q, None)
            if g is not None:
                try:
                    g()
                except Exception:
                    pass


def same_offset(x):
    "the same moment in a zone which always has the offset that x has now"
    h = x.offset.in_hours()
    return x.to_tz(f"Etc/GMT{-int(h):+d}") if h == int(h) and -12 <= h <= 12 and h else x.to_tz("Africa/Abidjan")


def twins(x):
    """values equal to x, but not the same"""
    out = []
    if isinstance(x, W.OffsetDateTime):
        fs = [lambda: x.to_fixed_offset(x.offset + W.minutes(75)), lambda: x.to_fixed_offset(x.offset - W.minutes(75))]
    elif isinstance(x, W.ZonedDateTime):
        fs = [lambda: x.to_tz("UTC"), lambda: x.to_tz("America/St_Johns"), lambda: same_offset(x)]
    else:
        fs = []
    for f in fs:
        try:
            out.append(f())
        except Exception:
            pass
    return out


def prime(x, f):
    """do f to the twins of x, whatever comes of it"""
    for t in twins(x):
        try:
            f(t)
        except Exception:
            pass


# ------------------------------------------------------------- observations as plain data

def obs_date(x):
    core.true(type(x) is W.Date, f"expected Date, got {type(x).__name__}")
    return (x.year, x.month, x.day)


def tod_of(x):
    """ns of day from the four clock fields, validating each range"""
    h, m, s, ns = x.hour, x.minute, x.second, x.nanosecond
    for v, hi, nm in ((h, 23, "hour"), (m, 59, "minute"), (s, 59, "second"), (ns, NS - 1, "nanosecond")):
        core.true(type(v) is int and 0 <= v <= hi, f"{nm} field out of range: {v!r}")
    return ((h * 60 + m) * 60 + s) * NS + ns


def obs_time(x):
    core.true(type(x) is W.Time, f"expected Time, got {type(x).__name__}")
    return tod_of(x)


def ymd_of(x):
    y, m, d = x.year, x.month, x.day
    core.true(type(y) is int and 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= cal.dim(y, m), f"invalid date fields {y, m, d}")
    return y, m, d


def local_ns_of(x):
    y, m, d = ymd_of(x)
    return cal.local_ns(y, m, d, tod_of(x))


def obs_local(x):
    core.true(type(x) is W.LocalDateTime, f"expected LocalDateTime, got {type(x).__name__}")
    return (*ymd_of(x), tod_of(x))


def off_of(x):
    n = x.offset.in_nanoseconds()
    core.true(n % NS == 0, f"sub-second offset {n}")
    return n // NS


def obs_instant(x):
    core.true(type(x) is W.Instant, f"expected Instant, got {type(x).__name__}")
    return x.timestamp_nanos()


def obs_offset(x):
    """(utc ns, offset) from the visible local fields and offset; cross-checked to the timestamp"""
    core.true(type(x) is W.OffsetDateTime, f"expected OffsetDateTime, got {type(x).__name__}")
    o = off_of(x)
    n = local_ns_of(x) - o * NS
    core.eq(x.timestamp_nanos(), n, "timestamp vs fields of an OffsetDateTime")
    return (n, o)


def obs_zoned(x):
    core.true(type(x) is W.ZonedDateTime, f"expected ZonedDateTime, got {type(x).__name__}")
    o = off_of(x)
    n = local_ns_of(x) - o * NS
    core.eq(x.timestamp_nanos(), n, "timestamp vs fields of a ZonedDateTime")
    return (n, o, x.tz)


def obs_system(x):
    core.true(type(x) is W.SystemDateTime, f"expected SystemDateTime, got {type(x).__name__}")
    o = off_of(x)
    n = local_ns_of(x) - o * NS
    core.eq(x.timestamp_nanos(), n, "timestamp vs fields of a SystemDateTime")
    return (n, o)


def obs_dd(x):
    core.true(type(x) is W.DateDelta, f"expected DateDelta, got {type(x).__name__}")
    return tuple(x.in_months_days())


def obs_td(x):
    core.true(type(x) is W.TimeDelta, f"expected TimeDelta, got {type(x).__name__}")
    return x.in_nanoseconds()


def obs_dtd(x):
    core.true(type(x) is W.DateTimeDelta, f"expected DateTimeDelta, got {type(x).__name__}")
    mo, d, = x.date_part().in_months_days()
    return (mo, d, x.time_part().in_nanoseconds())


def obs(x):
    """tagged plain-data observation of any library value"""
    t = type(x)
    if t is W.Date:
        return ("Date", *obs_date(x))
    if t is W.YearMonth:
        return ("YearMonth", x.year, x.month)
    if t is W.MonthDay:
        return ("MonthDay", x.month, x.day)
    if t is W.Time:
        return ("Time", obs_time(x))
    if t is W.LocalDateTime:
        return ("LocalDateTime", *obs_local(x))
    if t is W.Instant:
        return ("Instant", obs_instant(x))
    if t is W.OffsetDateTime:
        return ("OffsetDateTime", *obs_offset(x))
    if t is W.ZonedDateTime:
        return ("ZonedDateTime", *obs_zoned(x))
    if t is W.SystemDateTime:
        return ("SystemDateTime", *obs_system(x))
    if t is W.DateDelta:
        return ("DateDelta", *obs_dd(x))
    if t is W.TimeDelta:
        return ("TimeDelta", obs_td(x))
    if t is W.DateTimeDelta:
        return ("DateTimeDelta", *obs_dtd(x))
    raise core.Violation(f"not a library value: {x!r}")


# generic value descriptions: ["Kind", ...primitives]

def build(v):
    k = v[0]
    if k == "Date":
        return mk_date(v[1:])
    if k == "YearMonth":
        return W.YearMonth(v[1], v[2])
    if k == "MonthDay":
        return W.MonthDay(v[1], v[2])
    if k == "Time":
        return mk_time(v[1])
    if k == "LocalDateTime":
        return mk_local(v[1:])
    if k == "Instant":
        return mk_instant(v[1])
    if k == "OffsetDateTime":
        return mk_offset(v[1], v[2])
    if k == "ZonedDateTime":
        return mk_zoned(v[1], v[2])
    if k == "SystemDateTime":
        return mk_instant(v[1]).to_system_tz()
    if k == "DateDelta":
        return W.DateDelta(months=v[1], days=v[2])
    if k == "TimeDelta":
        return tdns(v[1])
    if k == "DateTimeDelta":
        return W.DateTimeDelta(months=v[1], days=v[2], nanoseconds=v[3])
    raise AssertionError(k)
