"""C29: whole numbers."""
import datetime
import decimal
import fractions
import json
import resource
import time

from .common import *
from .. import jobs, ops

REFUSED = (TypeError, ValueError, OverflowError, ArithmeticError)
CAL = ("years", "months", "weeks", "days")


class Index:
    """a whole number that is no int (as numpy's are)"""

    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


NOT_WHOLE = [lambda n, f: n + f, lambda n, f: -n - f, lambda n, f: f, lambda n, f: -f, lambda n, f: fractions.Fraction(2 * n + 1, 2), lambda n, f: decimal.Decimal(n) + decimal.Decimal("0.25"),
             lambda n, f: float("nan"), lambda n, f: float("inf"), lambda n, f: -float("inf"), lambda n, f: str(n), lambda n, f: None, lambda n, f: complex(n, 1), lambda n, f: [n], lambda n, f: bytes([n % 256])]
WHOLE = [float, fractions.Fraction, decimal.Decimal, Index, lambda n: complex(n, 0)]


def places(b):
    """all (where, usual whole number, thunk taking the number) with whole-number parameters"""
    y, m, d = b["date"]
    d = min(d, 28)
    h, mi, s, ns = cal.split_ns(b["tod"])
    f = {"year": y, "month": m, "day": d, "hour": h, "minute": mi, "second": s, "nanosecond": ns}
    dis = {} if b["dis"] is None else {"disambiguate": b["dis"]}
    cls = {"Date": ("year month day", {}), "YearMonth": ("year month", {}), "MonthDay": ("month day", {}), "Time": ("hour minute second nanosecond", {}),
           "LocalDateTime": (" ".join(f), {}), "Instant": (" ".join(f), {}), "OffsetDateTime": (" ".join(f), {"offset": 0}), "ZonedDateTime": (" ".join(f), {"tz": "UTC"}), "SystemDateTime": (" ".join(f), {})}
    for k, (names, extra) in cls.items():
        make = getattr(W, k) if k != "Instant" else W.Instant.from_utc
        names = names.split()
        full = {n: f[n] for n in names}
        for n in names:
            yield f"{k}({n}=)", f[n], lambda v, make=make, n=n, full=full, extra=extra: make(**{**full, n: v}, **extra)
            if k not in ("Instant", "SystemDateTime"):
                kw = {"ignore_dst": True} if k == "OffsetDateTime" else dis if k == "ZonedDateTime" else {}
                yield f"{k}.replace({n}=)", f[n], lambda v, make=make, n=n, full=full, extra=extra, kw=kw: make(**full, **extra).replace(**{n: v}, **kw)
    for n in CAL:
        q = b["mo"] // 12 if n == "years" else b["mo"] if n == "months" else b["da"] // 7 if n == "weeks" else b["da"]
        yield f"DateDelta({n}=)", q, lambda v, n=n: W.DateDelta(**{n: v})
        yield f"DateTimeDelta({n}=)", q, lambda v, n=n: W.DateTimeDelta(**{n: v})
        yield f"{n}()", q, lambda v, n=n: getattr(W, n)(v)
        for verb in ("add", "subtract"):
            for k, x, kw in (("Date", lambda: W.Date(y, m, d), {}), ("LocalDateTime", lambda: W.LocalDateTime(y, m, d, h, mi), {}), ("OffsetDateTime", lambda: W.OffsetDateTime(y, m, d, h, mi, offset=0), {"ignore_dst": True}),
                             ("ZonedDateTime", lambda: W.ZonedDateTime(y, m, d, h, mi, tz=b["key"]), dis)):
                yield f"{k}.{verb}({n}=)", q, lambda v, n=n, verb=verb, x=x, kw=kw: getattr(x(), verb)(**{n: v}, **kw)
    q = b["ns"]
    yield "TimeDelta(nanoseconds=)", q, lambda v: W.TimeDelta(nanoseconds=v)
    yield "DateTimeDelta(nanoseconds=)", q, lambda v: W.DateTimeDelta(nanoseconds=v)
    yield "nanoseconds()", q, lambda v: W.nanoseconds(v)
    yield "Instant.add(nanoseconds=)", q, lambda v: W.Instant.from_utc(y, m, d).add(nanoseconds=v)
    yield "ZonedDateTime.subtract(nanoseconds=)", q, lambda v: W.ZonedDateTime(y, m, d, tz=b["key"]).subtract(nanoseconds=v)
    yield "LocalDateTime.add(nanoseconds=)", q, lambda v: W.LocalDateTime(y, m, d).add(nanoseconds=v, ignore_dst=True)
    yield "OffsetDateTime.add(nanoseconds=)", q, lambda v: W.OffsetDateTime(y, m, d, offset=0).add(nanoseconds=v, ignore_dst=True)
    for u, q in (("millis", b["ns"] // 10**6), ("nanos", b["ns"])):
        g = "from_timestamp_" + u
        yield f"Instant.{g}()", q, lambda v, g=g: getattr(W.Instant, g)(v)
        yield f"OffsetDateTime.{g}()", q, lambda v, g=g: getattr(W.OffsetDateTime, g)(v, offset=0, ignore_dst=True)
        yield f"ZonedDateTime.{g}()", q, lambda v, g=g: getattr(W.ZonedDateTime, g)(v, tz=b["key"])
        yield f"SystemDateTime.{g}()", q, lambda v, g=g: getattr(W.SystemDateTime, g)(v)
    u, inc = b["ui"]
    for k, x, kw in (("Time", lambda: mk_time(b["tod"]), {}), ("LocalDateTime", lambda: mk_local([y, m, d, b["tod"]]), {}), ("Instant", lambda: mk_instant(b["ns"]), {}), ("OffsetDateTime", lambda: mk_offset(3600, b["ns"]), {"ignore_dst": True}),
                     ("ZonedDateTime", lambda: mk_zoned("Etc/GMT+1", b["ns"]), {}), ("TimeDelta", lambda: tdns(b["big"]), {})):
        yield f"{k}.round({u}, )", inc, lambda v, x=x, kw=kw: x().round(u, v, b["mode"], **kw)
    yield "OffsetDateTime(offset=)", b["off"] // 3600 % 24, lambda v: W.OffsetDateTime(y, m, d, offset=v)
    yield "Instant.to_fixed_offset()", b["off"] // 3600 % 24, lambda v: mk_instant(b["ns"]).to_fixed_offset(v)
    yield "LocalDateTime.assume_fixed_offset()", b["off"] // 3600 % 24, lambda v: W.LocalDateTime(y, m, d).assume_fixed_offset(v)
    yield "YearMonth.on_day()", d, lambda v: W.YearMonth(y, m).on_day(v)
    yield "MonthDay.in_year()", y, lambda v: W.MonthDay(m, d).in_year(v)


def told(x):
    return json.dumps(jobs.account(x))


@check("C29", lambda: st.tuples(ops.bundle, ints(0, 10**4), ints(0, len(NOT_WHOLE) - 1), pick(0.5, 0.25, 0.999, 1e-9, 0.75)), quick=12000,
       rule="each case passes a number that isn't whole, or no number at all")
def refused(ctx, case):
    b, j, g, fr = case
    ps = list(places(b))
    where, n, f = ps[j % len(ps)]
    if "offset" in where and g == 10:
        return  # to_fixed_offset(None) means the value's own offset
    v = NOT_WHOLE[g](n, fr)
    if isinstance(v, float) and v.is_integer():
        return  # the fraction was lost in the float
    ctx.nontrivial(label=where.partition(".")[0].partition("(")[0])
    try:
        x = f(v)
    except REFUSED:
        return
    fail(f"{where} takes {v!r}: {x!r}")


@check("C29", lambda: st.tuples(ops.bundle, ints(0, 10**4), ints(0, len(WHOLE) - 1)), quick=12000,
       rule="the number was accepted")
def exact_or_refused(ctx, case):
    """a whole number of another type: refused, or the same as the int in every respect"""
    b, j, g = case
    ps = list(places(b))
    where, n, f = ps[j % len(ps)]
    v = WHOLE[g](n)
    if isinstance(v, float) and v != n:
        return
    o = outcome(f, v)
    if o[0] == "err":
        true(isinstance(o[1], REFUSED), f"{where} with {v!r} raised {type(o[1]).__name__}: {o[1]}")
        ctx.label("refused")
        return
    ctx.nontrivial(label="accepted: " + type(v).__name__)
    w = outcome(f, n)
    true(w[0] == "ok", f"{where} takes {v!r} but not {n}")
    eq(told(o[1]), told(w[1]), f"{where} with {v!r}")
    if not isinstance(o[1], W.DateTimeDelta):
        eq(hash(o[1]), hash(w[1]), f"hash of {where} with {v!r}")


_EXACT_UNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000}
_NO_NUMBERS = [lambda n: str(n), lambda n: "0", lambda n: "", lambda n: " ", lambda n: b"1", lambda n: [n], lambda n: [], lambda n: (), lambda n: {}, lambda n: set(), lambda n: None, lambda n: bytearray(), lambda n: range(0),
               lambda n: complex(n, 1), lambda n: object(), lambda n: W.hours(n % 24), lambda n: W.days(n % 24), lambda n: W.Date(2020, 1, 1 + n % 28), lambda n: float("nan"), lambda n: float("inf"), lambda n: datetime.timedelta(n % 24)]


@check("C29", lambda: st.tuples(pick(*_EXACT_UNITS), ints(-99, 99), ints(0, len(_NO_NUMBERS) - 1), ints(0, 9)), quick=3000,
       rule="each case passes something that is no number to an exact unit")
def exact_units(ctx, case):
    """the exact units take any real number, but nothing else (an empty or repeated sequence, for instance)"""
    u, n, j, where = case
    v = _NO_NUMBERS[j](n)
    z = W.ZonedDateTime(2020, 1, 2, tz="UTC")
    f = [lambda: W.TimeDelta(**{u: v}), lambda: W.DateTimeDelta(**{u: v}), lambda: getattr(W, u)(v), lambda: z.add(**{u: v}), lambda: z.subtract(**{u: v}), lambda: z.instant().add(**{u: v}),
         lambda: z.instant().subtract(**{u: v}), lambda: z.local().add(**{u: v}, ignore_dst=True), lambda: z.to_fixed_offset(1).add(**{u: v}, ignore_dst=True), lambda: z.to_system_tz().subtract(**{u: v})][where]
    ctx.nontrivial(label=u)
    # a sequence repeated as often as there are nanoseconds in the unit shouldn't take the sandbox's memory
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30 if old[1] == resource.RLIM_INFINITY else min(4 << 30, old[1]), old[1]))
    try:
        s, r = outcome(f)
    except MemoryError as e:
        s, r = "err", e
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)
    true(s == "err" and isinstance(r, REFUSED), f"{u}={v!r} ({where}): {type(r).__name__} {r!r}")


_huge_int = st.one_of(st.tuples(pick(1, -1), ints(75, 13000), ints(-2, 2)).map(lambda t: t[0] * 2**t[1] + t[2]), st.tuples(pick(1, -1), ints(1, 10**21), ints(75, 200)).map(lambda t: t[0] * t[1] << t[2]),
                      st.tuples(pick(1, -1), ints(75, 3000), ints(1, 10**9)).map(lambda t: t[0] * (2**t[1] * t[2] + t[2])))


@check("C29", lambda: st.tuples(ops.bundle, ints(0, 10**4), _huge_int, st.tuples(st.floats(1, 9.99), pick(1, -1), ints(20, 307))), quick=6000,
       rule="each case passes a number beyond every range, of up to 4000 digits")
def huge_numbers(ctx, case):
    """numbers beyond any range (not wrapped, nor saturated, nor worked on for long): a range error"""
    b, j, n, (m, sign, e) = case
    ps = list(places(b))
    z = lambda: W.ZonedDateTime(2020, 1, 2, tz="UTC")
    for u in _EXACT_UNITS:
        for v in (n, sign * m * 10.0**e):
            ps += [(f"TimeDelta({u}=)", 0, lambda q, u=u: W.TimeDelta(**{u: q})), (f"DateTimeDelta({u}=)", 0, lambda q, u=u: W.DateTimeDelta(**{u: q})), (f"{u}()", 0, lambda q, u=u: getattr(W, u)(q)),
                   (f"ZonedDateTime.add({u}=)", 0, lambda q, u=u: z().add(**{u: q})), (f"Instant.subtract({u}=)", 0, lambda q, u=u: z().instant().subtract(**{u: q})),
                   (f"LocalDateTime.add({u}=)", 0, lambda q, u=u: z().local().add(**{u: q}, ignore_dst=True))]
            ps = [p if len(p) == 4 else (*p, v if p[0].endswith(f"({u}=)") or p[0] == f"{u}()" else n) for p in ps]
    ps += [(f"{k}.from_timestamp()", 0, f, v) for v in (n, sign * m * 10.0**e) for k, f in (
        ("Instant", lambda q: W.Instant.from_timestamp(q)), ("OffsetDateTime", lambda q: W.OffsetDateTime.from_timestamp(q, offset=0, ignore_dst=True)),
        ("ZonedDateTime", lambda q: W.ZonedDateTime.from_timestamp(q, tz=b["key"])), ("SystemDateTime", lambda q: W.SystemDateTime.from_timestamp(q)))]
    nz = lambda: b["da"] or 1
    ps += [("DateDelta * ", 0, lambda q: W.days(nz()) * q, n), ("DateDelta * ", 0, lambda q: q * W.months(nz()), n), ("TimeDelta * ", 0, lambda q: W.nanoseconds(nz()) * q, n * 2), ("TimeDelta * float", 0, lambda q: W.hours(nz()) * q, sign * m * 10.0**e),
           ("DateTimeDelta * ", 0, lambda q: (W.days(1) + W.hours(nz() if b["da"] > 0 else 1)) * q, n)]
    where, _, f, v = ps[j % len(ps)]
    ctx.nontrivial(label=where.partition(".")[0].partition("(")[0])
    t = time.process_time()
    s, r = outcome(f, v)
    dt = time.process_time() - t
    shown = repr(v) if isinstance(v, float) or abs(v) < 10**40 else f"an int of {v.bit_length()} bits"
    true(s == "err" and isinstance(r, RANGE), f"{where} with {shown}: {type(r).__name__} {r if s == 'ok' else ''}")
    true(dt < 10, f"{where} with {shown} took {dt:.0f} s of processor time")
