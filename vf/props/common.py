"""Strategies and helpers shared by the property modules."""
import copy
import datetime as _dt
import os
import pickle
import time
import zoneinfo

from hypothesis import strategies as st

from .. import cal, core, gen, model, tz
from ..cal import NS, DAY_NS, DAY_S
from ..core import RANGE, check, eq, expect_raises, fail, outcome, true
from ..gen import ints, pick, weighted
from ..lib import *  # noqa
from ..lib import W

ROUTES = 8


def spelled(key):
    """what to put in TZ for a timezone: the C library has several ways to say the same"""
    if key.startswith("posix:"):
        return key[6:]
    if key == "localtime":
        return None
    path = "/usr/share/zoneinfo/" + key
    k = sum(map(ord, key)) % 6
    if k < 3 or not os.path.isfile(path):
        return key
    return (":" + key, path, ":" + path)[k - 3]


def _put_tz(s):
    if s is None:
        os.environ.pop("TZ", None)
    else:
        os.environ["TZ"] = s
    time.tzset()


def set_tz(key):
    _put_tz(spelled(key))


class system_tz:
    def __init__(self, key):
        self.key = key

    def __enter__(self):
        self.old = os.environ.get("TZ")
        set_tz(self.key)

    def __exit__(self, *a):
        _put_tz(self.old)


def system_value(n):
    """the system value of an instant - asked for, and asked things, in another system timezone first"""
    from .. import lib

    if lib.twins_on:
        with system_tz(("America/St_Johns", "Europe/Dublin")[n // NS % 2]):
            ask_all(None, [lambda: mk_instant(n).to_system_tz()])
    return mk_instant(n).to_system_tz()


def local_args(l):
    y, m, d, t = l
    h, mi, s, ns = cal.split_ns(t)
    return (y, m, d, h, mi, s), {"nanosecond": ns}


def zoned_via(key, n, route):
    """the zoned value of an instant, obtained along different public routes"""
    o = tz.zone(key).offset_at(n // NS)
    loc = n + o * NS
    base = mk_zoned(key, n)
    route %= ROUTES
    if route == 0:
        return base
    y, m, d, t = cal.split_local(loc)
    r = tz.zone(key).resolve(loc // NS)
    if r[0] == "weird":
        return base
    if r[0] == "unique":
        dis = "later" if route % 2 else "earlier"
    else:
        dis = "earlier" if r[1] == o else "later"
    args, kw = local_args((y, m, d, t))
    if route == 1:
        return W.ZonedDateTime(*args, **kw, tz=key, disambiguate=dis)
    if route == 2:
        return W.LocalDateTime(*args, **kw).assume_tz(key, disambiguate=dis)
    if route == 3:
        return W.ZonedDateTime.parse_common_iso(base.format_common_iso())
    if route == 4:
        return pickle.loads(pickle.dumps(base))
    if route in (5, 7):
        zi = zoneinfo.ZoneInfo(key) if route == 5 else zoneinfo.ZoneInfo.no_cache(key)
        h, mi, s, ns = cal.split_ns(t)
        fold = 1 if dis == "later" else 0
        py = _dt.datetime(y, m, d, h, mi, s, ns // 1000, tzinfo=zi, fold=fold)
        return W.ZonedDateTime.from_py_datetime(py) + W.TimeDelta(nanoseconds=ns % 1000)
    return W.ZonedDateTime.from_timestamp_nanos(n, tz=key)


def expected_error(kind):
    if kind == "range":
        return RANGE
    if kind == "skipped":
        return (W.SkippedTime,)
    if kind == "repeated":
        return (W.RepeatedTime,)
    raise AssertionError(kind)


def judge_zoned(key, expect, f, what, obs_f=None):
    """f() must give the zoned value of the model result (utc ns, offset), or raise accordingly.
    `expect` is a thunk of the model."""
    try:
        want = expect()
    except model.Refused as r:
        if r.kind == "weird":
            return None
        expect_raises(expected_error(r.kind), f, what)
        return r.kind
    got = (obs_f or obs_zoned)(f())
    eq(got[:2], want, what + " (utc ns, offset)")
    if len(got) > 2:
        eq(got[2], key, what + " timezone id")
    return "ok"


# one value of any exact-time type: ["I", n] ["O", off, n] ["Z", key, n] ["S", n]
exact_kind = pick("Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime")
SYS_LO, SYS_HI = cal.MIN_NS_TS + 5 * DAY_NS, cal.MAX_NS_TS - 5 * DAY_NS


def clampn(n, margin=2 * DAY_NS):
    return min(max(n, cal.MIN_NS_TS + margin), cal.MAX_NS_TS - margin)


@st.composite
def _exact_of(draw, n_st):
    k = draw(exact_kind)
    if k == "ZonedDateTime":
        key, n = draw(gen.zoned)
        n2 = draw(n_st)
        return [k, key, clampn(n if n2 is None else n2)]
    if k == "OffsetDateTime":
        return [k, draw(gen.offset), clampn(draw(n_st))]
    return [k, clampn(draw(n_st))]


# any value of any type, as a buildable description
ym = st.tuples(gen.years, ints(1, 12)).map(list)
md = st.tuples(ints(1, 12), ints(1, 31)).map(lambda x: [x[0], min(x[1], cal.dim(2000, x[0]))])
MAX_MONTHS = 9999 * 12
MAX_DAYS = 9999 * 366
dd_nonneg = st.tuples(
    weighted((3, ints(0, 60)), (1, ints(0, MAX_MONTHS)), (1, pick(0, 0, 1, 11, 12, 13, MAX_MONTHS))),
    weighted((3, ints(0, 70)), (1, ints(0, MAX_DAYS)), (1, pick(0, 0, 1, 6, 7, 8, MAX_DAYS))),
)
dd = st.tuples(dd_nonneg, pick(1, -1)).map(lambda x: [x[0][0] * x[1], x[0][1] * x[1]])
dtd = st.tuples(weighted((5, dd_nonneg), (1, st.just((0, 0)))), weighted((6, gen.td_ns), (1, st.just(0))), pick(1, -1)).map(lambda x: [x[0][0] * x[2], x[0][1] * x[2], abs(x[1]) * x[2]])


@st.composite
def _any_value(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k == "Date":
        return [k, *draw(gen.date)]
    if k == "YearMonth":
        return [k, *draw(ym)]
    if k == "MonthDay":
        return [k, *draw(md)]
    if k == "Time":
        return [k, draw(gen.tod)]
    if k == "LocalDateTime":
        return [k, *draw(gen.local)]
    if k == "Instant":
        return [k, draw(gen.instant_ns)]
    if k == "OffsetDateTime":
        return [k, *draw(gen.offset_dt)]
    if k == "ZonedDateTime":
        return [k, *draw(gen.zoned)]
    if k == "SystemDateTime":
        return [k, clampn(draw(gen.instant_ns))]
    if k == "DateDelta":
        return [k, *draw(dd)]
    if k == "TimeDelta":
        return [k, draw(gen.td_ns)]
    if k == "DateTimeDelta":
        return [k, *draw(dtd)]
    raise AssertionError(k)


ALL_KINDS = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "Instant", "OffsetDateTime",
             "ZonedDateTime", "SystemDateTime", "DateDelta", "TimeDelta", "DateTimeDelta"]
EXACT_KINDS = ["Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"]


def any_value(kinds=ALL_KINDS):
    return _any_value(kinds)


def model_obs(v):
    """expected observation (see lib.obs) of a buildable description; system values excluded"""
    k = v[0]
    if k == "OffsetDateTime":
        return (k, v[2], v[1])
    if k == "ZonedDateTime":
        return (k, v[2], tz.zone(v[1]).offset_at(v[2] // NS), v[1])
    if k == "SystemDateTime":
        raise AssertionError
    return (k, *v[1:])


# fractional amounts of exact units: [unit, numerator, power of two], meaning numerator / 2**power units
FRAC_UNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000}
frac_amounts = st.lists(
    st.sampled_from(sorted(FRAC_UNITS)).flatmap(
        lambda u: st.tuples(st.just(u), weighted((3, ints(-50, 50)), (2, ints(-10**6, 10**6))), ints(0, 3 if u == "microseconds" else 6))),
    min_size=1, max_size=4, unique_by=lambda x: x[0])


def frac_kwargs(amounts):
    """(keyword arguments, their exact sum in ns)"""
    kw = {u: n / 2**p for u, n, p in amounts}
    return kw, sum(n * FRAC_UNITS[u] // 2**p for u, n, p in amounts)


def both_sides(prop, body, mk, extra=None, quick=4000):
    """Register a sub-check which runs `body` alternately on two instants on either side of one
    transition (often the two occurrences of one local time), so that an answer remembered from
    the one shows up in the other. `mk(key, n, extra)` makes the case."""

    @check(prop, lambda: st.tuples(gen.astride, extra if extra is not None else st.none()), quick=quick,
           rule="the two instants show the same local time, or local times in the opposite order")
    def both_sides_of_a_transition(ctx, case):
        (key, a, b), e = case
        for n in (a, b, a):
            body(ctx, mk(key, n, e))
        z = tz.zone(key)
        la, lb = (n + z.offset_at(n // NS) * NS for n in (a, b))
        ctx.interesting = False
        ctx.nontrivial(la == lb, "same local time")
        ctx.nontrivial(lb < la, "opposite order")


def spread(mo, da, ns, how):
    """the same shift by other keywords: months, days and nanoseconds spread over the larger units too"""
    how %= 5
    if how == 0:
        return {"months": mo, "days": da, "nanoseconds": ns}
    h, r = divmod(ns, 3600 * NS)
    mi, r2 = divmod(r, 60 * NS)
    s, r3 = divmod(r2, NS)
    if how == 1:
        kw = {"years": mo // 12, "months": mo % 12, "weeks": da // 7, "days": da % 7, "hours": h, "minutes": mi, "seconds": s,
              "milliseconds": r3 // 10**6, "microseconds": r3 // 1000 % 1000, "nanoseconds": r3 % 1000}
    elif how == 2:   # parts of opposite sign
        kw = {"years": mo // 12 + 1, "months": mo % 12 - 12, "weeks": da // 7 + 1, "days": da % 7 - 7, "hours": h + 1, "nanoseconds": r - 3600 * NS}
    elif how == 3:
        kw = {"months": mo, "days": da, "hours": h, "nanoseconds": r}
    else:
        kw = {"months": mo, "weeks": da // 7, "days": da % 7, "seconds": ns // NS, "nanoseconds": ns % NS}
    return {k: v for k, v in kw.items() if v}


def do_round(x, u, i, m, how, **kw):
    prime(x, lambda v: v.round(u, i, m, **kw))
    if how == 0:
        return x.round(u, i, m, **kw)
    if how == 1:
        return x.round(unit=u, increment=i, mode=m, **kw)
    if how == 2:
        return x.round(u, increment=i, mode=m, **kw)
    # leave out whatever equals the documented defaults
    if u != "second":
        kw["unit"] = u
    if i != 1:
        kw["increment"] = i
    if m != "half_even":
        kw["mode"] = m
    return x.round(**kw)
