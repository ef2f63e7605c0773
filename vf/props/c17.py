"""C17: conversions to and from the standard library."""
import datetime as _dt
import io
import zoneinfo

from .common import *

US = 1000


class SubDate(_dt.date):
    pass


class SubDT(_dt.datetime):
    pass


class SubTime(_dt.time):
    pass


class SubTD(_dt.timedelta):
    pass


class SubZone(zoneinfo.ZoneInfo):
    pass


class Foreign(_dt.tzinfo):
    """tzinfo with a fixed offset, not of a standard class; None gives no offset"""

    def __init__(self, off=None):
        self.off = off

    def utcoffset(self, dt):
        return None if self.off is None else _dt.timedelta(microseconds=self.off)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "foreign"

    def __eq__(self, o):
        return NotImplemented


def moving_offset(base, day, us, fold, sub):
    """in seconds; what the tzinfo below says for a datetime with these parts"""
    o = base + 3600 * fold + 60 * (us % 7) + 900 * (day % 2) + 1800 * sub
    return o if -86400 < o < 86400 else base


class Moving(_dt.tzinfo):
    """tzinfo whose offset depends on every part of the datetime it is asked about"""

    def __init__(self, base):
        self.base = base

    def utcoffset(self, dt):
        return _dt.timedelta(seconds=moving_offset(self.base, dt.day, dt.microsecond, dt.fold, isinstance(dt, SubDT)))

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "moving"


def naive_parts(py):
    """local ns, to the microsecond"""
    return cal.local_ns(py.year, py.month, py.day, ((py.hour * 60 + py.minute) * 60 + py.second) * NS + py.microsecond * US)


def off_us(py):
    return py.utcoffset() // _dt.timedelta(microseconds=1)


def trunc(n):
    return n // US * US


def mk_py(loc, tzinfo=None, fold=0, cls=_dt.datetime):
    y, m, d, t = cal.split_local(loc)
    h, mi, s, ns = cal.split_ns(t)
    return cls(y, m, d, h, mi, s, ns // US, tzinfo=tzinfo, fold=fold)


def plain_result(got, want, what):
    """exactly the standard class, equal in all fields, with nothing left over from what it was made of"""
    true(type(got) is type(want), f"{what} is a {type(got).__name__}")
    eq(got, want, what)
    if hasattr(want, "tzinfo"):
        eq(got.tzinfo, want.tzinfo, f"{what}: tzinfo")


PLAIN = ["Date", "Time", "LocalDateTime", "TimeDelta"]


@check("C17", lambda: any_value(PLAIN), quick=12000,
       rule="the value has a sub-microsecond part, or is negative, or lies at the range ends")
def plain_there_and_back(ctx, case):
    k, x = case[0], build(case)
    ctx.label(k)
    if k == "Date":
        p = x.py_date()
        true(type(p) is _dt.date, "py_date() type")
        eq((p.year, p.month, p.day), tuple(case[1:]), "py_date()")
        for q in (p, SubDate(*case[1:]), _dt.datetime(*case[1:], 23, 59), SubDT(*case[1:], 1, 2, 3, fold=1)):
            y = W.Date.from_py_date(q)
            eq(obs_date(y), tuple(case[1:]), f"from_py_date({q!r})")
            true(y == x and hash(y) == hash(x) and type(y.py_date()) is _dt.date, "not equal to the original")
        ctx.nontrivial(case[1] < 10 or case[1] > 9990, "range end")
    elif k == "Time":
        p = x.py_time()
        h, mi, s, ns = cal.split_ns(case[1])
        true(type(p) is _dt.time and p.tzinfo is None, "py_time() type")
        eq((p.hour, p.minute, p.second, p.microsecond), (h, mi, s, ns // US), "py_time()")
        for q in (p, p.replace(fold=1), SubTime(h, mi, s, ns // US)):
            y = W.Time.from_py_time(q)
            eq(obs_time(y), trunc(case[1]), f"from_py_time({q!r})")
            plain_result(y.py_time(), p, f"py_time() of from_py_time({q!r})")
            eq(y == x, ns % US == 0, "equality with the original")
            eq(hash(y), hash(mk_time(trunc(case[1]))), "hash")
        for q in (p.replace(tzinfo=_dt.timezone.utc), SubTime(h, mi, s, tzinfo=_dt.timezone.utc), p.replace(tzinfo=Foreign())):
            expect_raises((ValueError,), lambda: W.Time.from_py_time(q), f"from_py_time({q!r})")
        ctx.nontrivial(ns % US != 0, "sub-microsecond")
    elif k == "LocalDateTime":
        p = x.py_datetime()
        true(type(p) is _dt.datetime and p.tzinfo is None, "py_datetime() type")
        loc = cal.local_ns(*case[1:])
        eq(naive_parts(p), trunc(loc), "py_datetime()")
        for q in (p, p.replace(fold=1), mk_py(loc, cls=SubDT)):
            y = W.LocalDateTime.from_py_datetime(q)
            eq(obs_local(y), (*case[1:4], trunc(case[4])), f"from_py_datetime({q!r})")
            true(y == build([k, *case[1:4], trunc(case[4])]), "unequal")
            plain_result(y.py_datetime(), p, f"py_datetime() of from_py_datetime({q!r})")
            for z, w in ((y.date().py_date(), p.date()), (y.time().py_time(), p.time()), (y.assume_utc().py_datetime(), p.replace(tzinfo=_dt.timezone.utc)),
                         (y.replace_time(y.time()).py_datetime(), p), (y.replace(day=1).py_datetime(), p.replace(day=1))):
                plain_result(z, w, f"result through from_py_datetime({q!r})")
        ctx.nontrivial(loc % US != 0, "sub-microsecond")
        ctx.nontrivial(case[1] < 10 or case[1] > 9990, "range end")
    else:
        p = x.py_timedelta()
        true(type(p) is _dt.timedelta, "py_timedelta() type")
        us = p // _dt.timedelta(microseconds=1)
        n = case[1]
        true(us in (n // US, -(-n // US) if n < 0 else n // US), f"py_timedelta() of {n} ns is {us} us")
        for q in (p, SubTD(microseconds=us)):
            y = W.TimeDelta.from_py_timedelta(q)
            eq(obs_td(y), us * US, f"from_py_timedelta({q!r})")
            plain_result(y.py_timedelta(), p, f"py_timedelta() of from_py_timedelta({q!r})")
        ctx.nontrivial(n % US != 0, "sub-microsecond")
        ctx.nontrivial(n < 0, "negative")


@check("C17", lambda: st.tuples(any_value(["Instant", "OffsetDateTime", "ZonedDateTime"]), gen.tzkey), quick=20000,
       rule="sub-microsecond part, a repeated hour, an offset with seconds, or before 1970")
def exact_there_and_back(ctx, case):
    case, sysz = case
    k, x = case[0], build(case)
    ctx.label(k)
    n = case[-1]
    want = model_obs(case)
    off = 0 if k == "Instant" else want[2]
    p = x.py_datetime()
    true(type(p) is _dt.datetime, "py_datetime() type")
    eq(naive_parts(p), trunc(n + off * NS), "py_datetime() fields")
    eq(off_us(p), off * 10**6, "py_datetime() offset")
    if k == "Instant":
        true(p.tzinfo is _dt.timezone.utc, "tzinfo of an instant is not UTC")
    elif k == "OffsetDateTime":
        true(type(p.tzinfo) is _dt.timezone, "tzinfo is not a fixed timezone")
    else:
        true(type(p.tzinfo) is zoneinfo.ZoneInfo and p.tzinfo.key == case[1], "tzinfo is not the zone")
        ctx.nontrivial(tz.zone(case[1]).resolve(n // NS + off)[0] == "repeated", "repeated hour")
    y = type(x).from_py_datetime(p)
    eq(obs(y), (*want[:1], trunc(n), *want[2:]), "converted back")
    eq(y == x, n % US == 0, "equality with the original")
    eq(y.exact_eq(x), n % US == 0, "exact_eq with the original")
    ctx.nontrivial(n % US != 0, "sub-microsecond")
    ctx.nontrivial(off % 60 != 0, "offset with seconds")
    ctx.nontrivial(n < 0, "before 1970")
    # a system value
    n = clampn(n, 5 * DAY_NS)
    with system_tz(sysz):
        z = system_value(n)
        o = tz.zone(sysz).offset_at(n // NS)
        p = z.py_datetime()
        eq((naive_parts(p), off_us(p)), (trunc(n + o * NS), o * 10**6), "py_datetime() of a system value")
        true(type(p.tzinfo) is _dt.timezone, "tzinfo is not a fixed timezone")
        eq(obs_system(W.SystemDateTime.from_py_datetime(p)), (trunc(n), o), "system value converted back")


# ------------------------------------------------ arbitrary standard library input

@st.composite
def _foreign(draw):
    """[kind of tzinfo, parameter, local ns (to the us), fold, subclass?]"""
    k = draw(pick("naive", "utc", "fixed", "fixed", "subsecond", "zone", "zone", "zone", "zone", "nocache", "subzone", "keyless", "foreign", "foreign", "moving", "none"))
    if k in ("zone", "nocache", "subzone", "keyless"):
        key, *l = draw(gen.zone_local)
        loc = cal.local_ns(*l)
    else:
        key = None
        loc = cal.local_ns(*draw(gen.local))
    if k in ("fixed", "foreign", "moving"):
        key = draw(gen.offset)
    if k == "foreign" and draw(ints(0, 4)) == 0:
        k, key = "subforeign", draw(gen.offset) * 10**6 + draw(ints(1, 999_999))
        if not -86400 * 10**6 < key < 86400 * 10**6:
            key = 1
    if k == "subsecond":
        key = draw(gen.offset) * 10**6 + draw(ints(1, 999_999))
        if not -86400 * 10**6 < key < 86400 * 10**6:
            key = 1
    return [k, key, trunc(loc), draw(ints(0, 1)), draw(st.booleans())]


@check("C17", lambda: _foreign(), quick=30000,
       rule="the local time is skipped or repeated in its zone, the tzinfo is unusual, or fold is 1")
def standard_library_input(ctx, case):
    k, par, loc, fold, sub = case
    ctx.label(k)
    info = {"naive": lambda: None, "utc": lambda: _dt.timezone.utc, "fixed": lambda: _dt.timezone(_dt.timedelta(seconds=par)),
            "subsecond": lambda: _dt.timezone(_dt.timedelta(microseconds=par)), "zone": lambda: zoneinfo.ZoneInfo(par),
            "nocache": lambda: zoneinfo.ZoneInfo.no_cache(par), "subzone": lambda: SubZone(par),
            "keyless": lambda: zoneinfo.ZoneInfo.from_file(io.BytesIO(tz._read(par))),  # a timezone without a name
            "foreign": lambda: Foreign(par * 10**6), "subforeign": lambda: Foreign(par), "moving": lambda: Moving(par), "none": lambda: Foreign()}[k]()
    p = mk_py(loc, info, fold, SubDT if sub else _dt.datetime)
    what = f"from_py_datetime({p!r}, fold={fold})"
    classes = (W.Instant, W.OffsetDateTime, W.SystemDateTime, W.ZonedDateTime)
    if k == "naive":
        y, m, d, t = cal.split_local(loc)
        eq(obs_local(W.LocalDateTime.from_py_datetime(p)), (y, m, d, t), what)
        for c in classes:
            expect_raises((ValueError,), lambda: c.from_py_datetime(p), f"{c.__name__}.{what}")
        ctx.nontrivial(fold == 1)
        return
    expect_raises((ValueError,), lambda: W.LocalDateTime.from_py_datetime(p), f"LocalDateTime.{what}")
    if k == "none":
        for c in classes:
            expect_raises((ValueError,), lambda: c.from_py_datetime(p), f"{c.__name__}.{what}")
        ctx.nontrivial()
        return
    if k in ("zone", "nocache", "subzone", "keyless"):
        r = tz.zone(par).resolve(loc // NS)
        if r[0] == "weird":
            return
        ous = (r[1] if r[0] == "unique" else r[1 + fold]) * 10**6
        ctx.nontrivial(r[0] != "unique", r[0])
    elif k == "moving":
        y, m, d, t = cal.split_local(loc)
        ous = moving_offset(par, d, t % NS // US, fold, sub) * 10**6
        ctx.nontrivial()
    else:
        ous = {"utc": 0, "fixed": None, "foreign": None}.get(k, par)
        if ous is None:
            ous = par * 10**6
        ctx.nontrivial(k not in ("utc", "fixed"))
    n = loc - ous * US
    # instant
    if cal.in_range(n):
        eq(obs_instant(W.Instant.from_py_datetime(p)), n, f"Instant.{what}")
    else:
        expect_raises(RANGE, lambda: W.Instant.from_py_datetime(p), f"Instant.{what}")
        ctx.nontrivial(label="out of range")
    # fixed offset
    for c, ob in ((W.OffsetDateTime, obs_offset), (W.SystemDateTime, obs_system)):
        if ous % 10**6 or not cal.in_range(n):
            expect_raises((ValueError,) if ous % 10**6 else RANGE, lambda: c.from_py_datetime(p), f"{c.__name__}.{what}")
        else:
            eq(ob(c.from_py_datetime(p)), (n, ous // 10**6), f"{c.__name__}.{what}")
    # zoned
    if k in ("zone", "nocache"):
        judge_zoned(par, lambda: model.at(par, n), lambda: W.ZonedDateTime.from_py_datetime(p), f"ZonedDateTime.{what}")
    else:
        expect_raises((ValueError,), lambda: W.ZonedDateTime.from_py_datetime(p), f"ZonedDateTime.{what}")
    ctx.nontrivial(fold == 1)


@check("C17", lambda: st.tuples(ints(-999999999, 999999999), ints(0, 86399), ints(0, 999999)), quick=4000,
       rule="the duration is negative with a fraction, or out of the supported range")
def timedelta_input(ctx, case):
    d, s, us = case
    td = _dt.timedelta(d, s, us)
    n = ((d * DAY_S + s) * 10**6 + us) * US
    if abs(n) <= gen.MAX_TD:
        eq(obs_td(W.TimeDelta.from_py_timedelta(td)), n, f"from_py_timedelta({td!r})")
        ctx.nontrivial(n < 0 and us)
    else:
        expect_raises(RANGE, lambda: W.TimeDelta.from_py_timedelta(td), f"from_py_timedelta({td!r})")
        ctx.nontrivial()
    small = _dt.timedelta(d % 4000 - 2000, s, us)
    eq(obs_td(W.TimeDelta.from_py_timedelta(small)), (((d % 4000 - 2000) * DAY_S + s) * 10**6 + us) * US, f"from_py_timedelta({small!r})")


MONTHS = "January February March April May June July August September October November December".split()


def _fmt_date(k, y, m, d):
    """-> (format, text, the date denoted)"""
    mon = MONTHS[m - 1]
    doy = cal.day_number(y, m, d) - cal.day_number(y, 1, 1) + 1
    if k == 0:
        return "%d/%m/%Y", f"{d:02}/{m:02}/{y:04}", (y, m, d)
    if k == 1:
        return "%Y %j", f"{y:04} {doy:03}", (y, m, d)
    if k == 2:
        return "%B %d, %Y", f"{mon} {d}, {y:04}", (y, m, d)
    if k == 3 and 1969 <= y <= 2068:
        return "%d%b%y", f"{d:02}{mon[:3].upper()}{y % 100:02}", (y, m, d)
    if k == 4:
        return "%Y", f"{y:04}", (y, 1, 1)
    if k == 5:
        return "", "", (1900, 1, 1)
    return "%Y-%m-%d", f"{y:04}-{m:02}-{d:02}", (y, m, d)


def _fmt_time(k, h, mi, s, us):
    if k == 0:
        return "%I:%M:%S.%f %p", f"{h % 12 or 12:02}:{mi:02}:{s:02}.{us:06} {'AM' if h < 12 else 'pm'}", (h, mi, s, us)
    if k == 1:
        return "%H%M", f"{h:02}{mi:02}", (h, mi, 0, 0)
    if k == 2:
        ms = us // 1000 * 1000
        return "%S.%f", f"{s:02}.{ms // 1000:03}", (0, 0, s, ms)
    if k == 3:
        return "", "", (0, 0, 0, 0)
    return "%H:%M:%S", f"{h:02}:{mi:02}:{s:02}", (h, mi, s, 0)


@check("C17", lambda: st.tuples(gen.local, gen.offset, ints(0, 6), ints(0, 4), ints(0, 5), st.booleans()), quick=6000,
       rule="the format leaves fields out, or the offset is not of whole hours")
def strptime_formats(ctx, case):
    """formats in which fields come in another order or form, or are left out"""
    (y, m, d, t), o, kd, kt, ko, kw = case
    h, mi, s, ns = cal.split_ns(t)
    fd, xd, date = _fmt_date(kd, y, m, d)
    ft, xt, (h, mi, s, us) = _fmt_time(kt, h, mi, s, ns // US)
    fmt, txt = f"{fd}|{ft}", f"{xd}|{xt}"
    n = cal.local_ns(*date, ((h * 60 + mi) * 60 + s) * NS + us * US)
    args = (lambda a, f: ((a,), {"fmt": f})) if kw else (lambda a, f: ((a, f), {}))
    ctx.nontrivial(kd >= 4 or kt or o % 3600 != 0, "keyword" if kw else None)
    a, k = args(txt, fmt)
    eq(obs_local(W.LocalDateTime.strptime(*a, **k)), cal.split_local(n), f"LocalDateTime.strptime({txt!r}, {fmt!r})")
    ot = cal.fmt_offset(o)
    if ko == 0:
        ot = ot.replace(":", "")
    elif ko == 1:
        ot, o = "Z", 0
    elif ko == 2:
        o = int(o / 60) * 60
        ot = cal.fmt_offset(o)
        if o == 0:
            ot = "-00:00" if kw else "+0000"
    txt, fmt = (txt + ot, fmt + "%z") if ko % 2 else (ot + " " + txt, "%z " + fmt)
    a, k = args(txt, fmt)
    f = lambda: W.OffsetDateTime.strptime(*a, **k)  # noqa
    what = f"OffsetDateTime.strptime({txt!r}, {fmt!r})"
    if cal.in_range(n - o * NS):
        eq(obs_offset(f()), (n - o * NS, o), what)
    else:
        expect_raises(RANGE, f, what)
    expect_raises((ValueError,), lambda: W.LocalDateTime.strptime(*a, **k), f"LocalDateTime.strptime({txt!r}, {fmt!r})")
    # text that does not follow the format
    for bad in (txt[:-1] + "x", "", txt + "x"):
        expect_raises((ValueError,), lambda: W.OffsetDateTime.strptime(bad, fmt), f"OffsetDateTime.strptime({bad!r}, {fmt!r})")


@check("C17", lambda: st.tuples(gen.local, gen.offset, ints(0, 3), pick("", ".5", ".000001")), quick=6000,
       rule="the text has a fraction, an offset with seconds or a sub-second offset")
def strptime(ctx, case):
    (y, m, d, t), o, j, sub = case
    t = trunc(t)
    h, mi, s, ns = cal.split_ns(t)
    loc = cal.local_ns(y, m, d, t)
    ltxt = f"{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}.{ns // US:06}"
    lfmt = "%Y-%m-%d %H:%M:%S.%f"
    eq(obs_local(W.LocalDateTime.strptime(ltxt, lfmt)), (y, m, d, t), f"LocalDateTime.strptime({ltxt!r})")
    expect_raises((ValueError,), lambda: W.OffsetDateTime.strptime(ltxt, lfmt), f"OffsetDateTime.strptime({ltxt!r}) without offset")
    ot = cal.fmt_offset(o)
    if j == 0:
        ot = ot.replace(":", "")
    if sub and ot.count(":") == 2:
        ot += sub
    elif sub and j:
        ot = ot[:6] + ":00" + sub
    ftxt, ffmt = ltxt + " " + ot, lfmt + " %z"
    expect_raises((ValueError,), lambda: W.LocalDateTime.strptime(ftxt, ffmt), f"LocalDateTime.strptime({ftxt!r}) with offset")
    f = lambda: W.OffsetDateTime.strptime(ftxt, ffmt)  # noqa
    if "." in ot:
        expect_raises((ValueError,), f, f"OffsetDateTime.strptime({ftxt!r})")
        ctx.nontrivial(label="sub-second offset")
    elif not cal.in_range(loc - o * NS):
        expect_raises(RANGE, f, f"OffsetDateTime.strptime({ftxt!r})")
        ctx.nontrivial(label="out of range")
    else:
        eq(obs_offset(f()), (loc - o * NS, o), f"OffsetDateTime.strptime({ftxt!r})")
        ctx.nontrivial(ns > 0 or o % 60 != 0)


both_sides("C17", exact_there_and_back, lambda key, n, e: (["ZonedDateTime", key, n], key), quick=3000)
