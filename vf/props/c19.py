"""C19: every reachable value is valid and in range."""
import datetime as _dt

from .common import *
from .. import ops, text
from .c12 import strictly_equal

REFUSALS = {None: RANGE, "raise": RANGE + (W.SkippedTime, W.RepeatedTime)}


def rebuilt(x, o):
    """the same value made from its visible parts"""
    k = o[0]
    if k == "OffsetDateTime":
        return mk_offset(o[2], o[1])
    if k == "ZonedDateTime":
        y, m, d, t = cal.split_local(o[1] + o[2] * NS)
        r = tz.zone(o[3]).resolve((o[1] // NS) + o[2])
        if r[0] == "weird":
            return mk_zoned(o[3], o[1])
        a, kw = local_args((y, m, d, t))
        dis = "raise" if r[0] == "unique" else "earlier" if r[1] == o[2] else "later"
        return W.ZonedDateTime(*a, **kw, tz=o[3], disambiguate=dis)
    if k == "SystemDateTime":
        return W.SystemDateTime.parse_common_iso(text.iso(["OffsetDateTime", o[2], o[1]]))
    return build(list(o))


def validate(x, what, syskey=None):
    """`syskey`: the system timezone when x is known to have been made by it"""
    o = obs(x)   # checks the fields' ranges, and timestamp against fields
    k = o[0]
    if k in ("Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"):
        n = o[1]
        true(cal.in_range(n), f"{what}: instant {n} outside years 1-9999")
        if k != "Instant":
            off = o[2]
            true(-DAY_S < off < DAY_S, f"{what}: offset {off}")
            true(cal.in_range(n + off * NS), f"{what}: local clock outside years 1-9999")
            if k == "ZonedDateTime":
                eq(off, tz.zone(o[3]).offset_at(n // NS), f"{what}: offset of a zoned value {x!r}")
            elif syskey is not None and k == "SystemDateTime" and SYS_LO <= n <= SYS_HI:
                eq(off, tz.zone(syskey).offset_at(n // NS), f"{what}: offset of a system value {x!r}")
    elif k == "DateTimeDelta":
        true(not (min(o[1:]) < 0 < max(o[1:])), f"{what}: mixed signs {o}")
    elif k == "DateDelta":
        true(not (min(o[1:]) < 0 < max(o[1:])), f"{what}: mixed signs {o}")
    # usable
    s = str(x)
    eq(s, text.iso(["OffsetDateTime", o[2], o[1]] if k == "SystemDateTime" else
                   ["ZonedDateTime", o[3], o[1]] if k == "ZonedDateTime" else
                   ["OffsetDateTime", o[2], o[1]] if k == "OffsetDateTime" else list(o)), f"{what}: text")
    repr(x)
    y = rebuilt(x, o)
    strictly_equal(x, y, f"{what}: {s} against a new value of the same parts")
    if k not in ("DateDelta", "DateTimeDelta", "TimeDelta", "MonthDay", "YearMonth", "Date", "Time"):
        # (not compared as datetimes: in a repeated hour those of one zone given as different objects are unequal)
        p, q = x.py_datetime(), y.py_datetime()
        eq((p.replace(tzinfo=None, fold=0), p.utcoffset()), (q.replace(tzinfo=None, fold=0), q.utcoffset()), f"{what}: py_datetime")
        if k != "LocalDateTime":
            eq(x.timestamp(), o[1] // NS, f"{what}: timestamp()")
            u = mk_instant(o[1])
            true(u == x and not (u < x) and u <= x and hash(u) == hash(x), f"{what}: comparison with the instant")
            eq(x.to_tz("UTC").timestamp_nanos(), o[1], f"{what}: to_tz('UTC')")
    return o, y


def allowed(err, b):
    return isinstance(err, REFUSALS["raise" if b["dis"] == "raise" else None])


sys_key = weighted((2, pick("UTC", "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Africa/Casablanca")), (1, gen.tzkey))


@check("C19", lambda: st.tuples(any_value(EXACT_KINDS * 4 + ["LocalDateTime"] * 3 + ALL_KINDS),
                               st.lists(ops.op, min_size=1, max_size=8), sys_key), quick=40000,
       rule="at least three operations succeeded, one of them involving a timezone, an offset or a calendar shift")
def histories(ctx, case):
    v, steps, sk = case
    # a local time skipped by a whole day defeats the platform's mktime: use a zone without such
    if wide_gap(sk):
        sk = "Europe/Amsterdam"
    with system_tz(sk):
        x = build(v)
        prev = None
        from_sys = sk if v[0] == "SystemDateTime" else None
        o, y = validate(x, f"start {v}", from_sys)
        done = 0
        zoney = False
        for step in steps:
            name, f = ops.get(x, step, prev)
            what = f"{x!r} {name} {step[1]}"
            s, r = outcome(f)
            # the same operation on a value rebuilt from the visible parts
            if type(x) is W.SystemDateTime and from_sys is None:
                s2, r2 = s, r
            else:
                s2, r2 = outcome(ops.get(y, step, prev)[1])
            eq(s, s2, f"{what}: outcome compared with a rebuilt operand ({r!r} / {r2!r})")
            if s == "err":
                true(allowed(r, step[1]), f"{what}: raised {type(r).__name__}: {r}")
                eq(type(r).__name__, type(r2).__name__, f"{what}: exception compared with a rebuilt operand")
                ctx.label("refused")
                continue
            if r is x:
                continue
            if isinstance(r, W.SystemDateTime):
                stays = name.endswith((": iso", ": py", ": pickle", ": deepcopy"))
                from_sys = from_sys if stays and type(x) is W.SystemDateTime else sk
            else:
                from_sys = None
            eq(obs(r), obs(r2), f"{what}: result compared with a rebuilt operand")
            o, y2 = validate(r, what, from_sys)
            done += 1
            zoney |= o[0] in ("ZonedDateTime", "SystemDateTime", "OffsetDateTime")
            ctx.label(o[0])
            prev, x, y = x, r, y2
        ctx.nontrivial(done >= 3 and zoney)


_WIDE = {}


def wide_gap(key):
    if key not in _WIDE:
        _WIDE[key] = any(abs(b - a) >= DAY_S for _, a, b in tz.aim_points(key))
    return _WIDE[key]


@check("C19", lambda: st.tuples(gen.local, gen.offset, weighted((1, ints(-3, 3)), (2, pick(NS - 1, NS, NS + 1, -1, 10**10, -NS, 2**31, 2**63, 2**64))),
                                gen.tzkey), quick=6000,
       rule="the nanosecond argument is out of range")
def constructor_nanoseconds(ctx, case):
    """all constructors and replace() refuse nanoseconds outside 0..999999999"""
    l, off, ns, key = case
    a, _ = local_args(l)
    bad = not 0 <= ns < NS
    ctx.nontrivial(bad)
    fs = {
        "LocalDateTime": lambda: W.LocalDateTime(*a, nanosecond=ns),
        "Time": lambda: W.Time(*a[3:], nanosecond=ns),
        "Instant": lambda: W.Instant.from_utc(*a, nanosecond=ns),
        "OffsetDateTime": lambda: W.OffsetDateTime(*a, nanosecond=ns, offset=W.seconds(off)),
        "ZonedDateTime": lambda: W.ZonedDateTime(*a, nanosecond=ns, tz=key),
        "SystemDateTime": lambda: W.SystemDateTime(*a, nanosecond=ns),
        "replace": lambda: mk_local(l).replace(nanosecond=ns),
        "time replace": lambda: mk_time(l[3]).replace(nanosecond=ns),
    }
    for k, f in fs.items():
        s, r = outcome(f)
        if bad:
            true(s == "err" and isinstance(r, RANGE), f"{k}(nanosecond={ns}): {r!r}")
        elif s == "ok":
            if k != "Instant":
                eq(r.nanosecond, ns, f"{k}(nanosecond={ns})")
            validate(r, k)
        else:
            true(isinstance(r, RANGE), f"{k}: {r!r}")


bad_offset = weighted(
    (3, pick(DAY_NS, -DAY_NS)),
    (2, st.tuples(pick(1, -1), ints(24, 60)).map(lambda x: x[0] * x[1] * 3600 * NS)),
    (2, st.tuples(pick(1, -1), ints(DAY_S, 20 * DAY_S)).map(lambda x: x[0] * x[1] * NS)),
    (2, st.tuples(gen.offset, pick(1, -1, 999, 1000, 500_000_000, 10**6, NS - 1)).map(lambda x: x[0] * NS + x[1])),
    (1, pick(DAY_NS - 1, -DAY_NS + 1, DAY_NS + 1, gen.MAX_TD, -gen.MAX_TD)),
)


@check("C19", lambda: st.tuples(gen.local, bad_offset, gen.offset), quick=3000, rule="every case uses an offset of a day or more, or of a fraction of a second")
def unusable_offsets(ctx, case):
    """no way to make a value takes an offset of a day or more, or one that isn't whole seconds"""
    l, bad, off = case
    l[0] = min(max(l[0], 2), 9998)
    l[2] = min(l[2], 28)
    a, kw = local_args(l)
    off_td = tdns(bad)
    args = [off_td]
    if bad % (3600 * NS) == 0:
        args.append(bad // (3600 * NS))
    lt = mk_local(l)
    n = cal.local_ns(*l)
    x = lt.assume_fixed_offset(W.seconds(off))
    py = lt.py_datetime()
    ctx.nontrivial(True, "whole day" if abs(bad) == DAY_NS else "")
    for arg in args:
        for nm, f in {
            "OffsetDateTime()": lambda: W.OffsetDateTime(*a, **kw, offset=arg),
            "assume_fixed_offset": lambda: lt.assume_fixed_offset(arg),
            "to_fixed_offset": lambda: x.to_fixed_offset(arg),
            "Instant.to_fixed_offset": lambda: x.instant().to_fixed_offset(arg),
            "ZonedDateTime.to_fixed_offset": lambda: x.to_tz("UTC").to_fixed_offset(arg),
            "replace": lambda: x.replace(offset=arg, ignore_dst=True),
            "now": lambda: W.OffsetDateTime.now(arg, ignore_dst=True),
            "from_timestamp": lambda: W.OffsetDateTime.from_timestamp(n // NS, offset=arg, ignore_dst=True),
            "from_timestamp_millis": lambda: W.OffsetDateTime.from_timestamp_millis(n // 10**6, offset=arg, ignore_dst=True),
            "from_timestamp_nanos": lambda: W.OffsetDateTime.from_timestamp_nanos(n, offset=arg, ignore_dst=True),
        }.items():
            s, r = outcome(f)
            true(s == "err" and isinstance(r, RANGE), f"{nm} with offset {arg!r}: {r!r}")
    if bad % 1000 == 0 and bad % NS and abs(bad) < DAY_NS:
        tzi = _dt.timezone(_dt.timedelta(microseconds=bad // 1000))
        s, r = outcome(lambda: W.OffsetDateTime.from_py_datetime(py.replace(tzinfo=tzi)))
        true(s == "err" and isinstance(r, RANGE), f"from_py_datetime with {tzi!r}: {r!r}")


@check("C19", lambda: st.tuples(pick("lo", "hi"), ints(0, 2 * DAY_NS), gen.offset, gen.tzkey, gen.small_td_ns, gen.mode, gen.unit_inc), quick=8000,
       rule="the instant is within the offset of the range end")
def range_ends(ctx, case):
    """construction by local fields at the very ends of the range"""
    end, back, off, key, shift, mode, ui = case
    loc = cal.MIN_NS_TS + back if end == "lo" else cal.MAX_NS_TS - back
    l = cal.split_local(loc)
    a, kw = local_args(l)
    ok = cal.in_range(loc - off * NS)
    ctx.nontrivial(abs(off) * NS > back)
    lt = mk_local(list(l))
    for nm, f in (("OffsetDateTime()", lambda: W.OffsetDateTime(*a, **kw, offset=W.seconds(off))),
                  ("assume_fixed_offset", lambda: lt.assume_fixed_offset(W.seconds(off))),
                  ("parse", lambda: W.OffsetDateTime.parse_common_iso(cal.fmt_date(*l[:3]) + "T" + cal.fmt_time(l[3]) + cal.fmt_offset(off))),
                  ("Instant.parse", lambda: W.OffsetDateTime.parse_common_iso(cal.fmt_date(*l[:3]) + "T" + cal.fmt_time(l[3]) + cal.fmt_offset(off)).instant()),
                  ("replace offset", lambda: lt.assume_utc().to_fixed_offset(0).replace(offset=W.seconds(off), ignore_dst=True))):
        s, r = outcome(f)
        if s == "err":
            true(isinstance(r, RANGE) and not ok, f"{nm} {l} {off}: {r!r}")
        else:
            true(ok, f"{nm} {l} offset {off} gave {r!r}: UTC out of range")
            validate(r, nm)
    x = lt.assume_utc()
    for nm, f in (("to_tz", lambda: x.to_tz(key)), ("+", lambda: x + tdns(shift)), ("assume_tz", lambda: lt.assume_tz(key)),
                  ("round", lambda: x.round(*ui, mode)), ("local round", lambda: lt.round("day", mode=mode)),
                  ("local add", lambda: lt.add(tdns(shift), ignore_dst=True)), ("to_fixed_offset", lambda: x.to_fixed_offset(W.seconds(off))),
                  ("day_length", lambda: x.to_tz(key).day_length()), ("start_of_day", lambda: x.to_tz(key).start_of_day()),
                  ("zoned round", lambda: x.to_tz(key).round(*ui, mode)), ("zoned round day", lambda: x.to_tz(key).round("day", 1, mode))):
        s, r = outcome(f)
        if s == "err":
            true(isinstance(r, RANGE), f"{nm} at {l}: {r!r}")
        else:
            validate(r, f"{nm} at {l} ({key}, {off}, {shift})")
