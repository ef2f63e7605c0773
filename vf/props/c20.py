"""C20: operations that would ignore DST are refused unless explicitly allowed."""
import operator

from .common import *

DST = (W.ImplicitlyIgnoringDST,)
AMOUNT = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}
CAL = ("years", "months", "weeks", "days")

amount = weighted((1, st.just(0)), (4, ints(-50, 50)), (1, ints(-10**5, 10**5)))
exact_kwargs = st.dictionaries(st.sampled_from(sorted(AMOUNT)), amount, max_size=3)
cal_kwargs = st.dictionaries(st.sampled_from(CAL), weighted((1, st.just(0)), (4, ints(-30, 30))), max_size=2)
how_denied = pick("absent", "false", "none", "zero")


def denied(how):
    return {"absent": {}, "false": {"ignore_dst": False}, "none": {"ignore_dst": None}, "zero": {"ignore_dst": 0}}[how]


def total(kw):
    return sum(AMOUNT[k] * v for k, v in kw.items())


def months_days(kw):
    return kw.get("years", 0) * 12 + kw.get("months", 0), kw.get("weeks", 0) * 7 + kw.get("days", 0)


def shift_local(l, ck, ek, sign):
    """expected local ns or None when out of range"""
    mo, da = months_days(ck)
    r = cal.shift_date(l[0], l[1], l[2], sign * mo, sign * da)
    if r is None:
        return None
    n = cal.local_ns(*r, l[3]) + sign * total(ek)
    return n if cal.in_range(n) else None


def judge_plain(want, f, what, observe):
    s, r = outcome(f)
    if want is None:
        true(s == "err" and isinstance(r, RANGE), f"{what}: {r!r}, expected a range error")
    elif s == "err":
        fail(f"{what}: raised {type(r).__name__}: {r}")
    else:
        eq(observe(r), want, what)


@check("C20", lambda: st.tuples(gen.local, cal_kwargs, exact_kwargs, pick("add", "subtract"), how_denied, pick("kw", "td", "dtd", "dd")), quick=12000,
       rule="the shift has a non-zero exact part")
def local_shifts(ctx, case):
    l, ck, ek, meth, how, form = case
    x = mk_local(l)
    sign = 1 if meth == "add" else -1
    t = total(ek)
    if form == "td":
        ck, args = {}, (tdns(t),)
        kw = {}
    elif form == "dd":
        ek, t = {}, 0
        mo, da = months_days(ck)
        if mo * da < 0:
            return
        args, kw = (W.DateDelta(**ck),), {}
    elif form == "dtd":
        mo, da = months_days(ck)
        if min(mo, da, t) < 0 < max(mo, da, t):
            return
        args, kw = (W.DateTimeDelta(months=mo, days=da, nanoseconds=t),), {}
    else:
        args, kw = (), {**ck, **ek}
    ctx.nontrivial(t != 0, f"{form} {meth}")
    what = f"{x!r}.{meth}({args}, {kw}"
    want = shift_local(l, ck, ek, sign)
    plain = None if want is None else tuple(cal.split_local(want))
    f = getattr(x, meth)
    if t:
        s, r = outcome(lambda: f(*args, **kw, **denied(how)))
        if want is not None or (s == "ok"):
            true(s == "err" and isinstance(r, DST), f"{what}) without permission: {r!r}, expected ImplicitlyIgnoringDST")
        else:   # out of range anyway
            true(isinstance(r, RANGE + DST), f"{what}) without permission: {r!r}")
    else:
        s, r = outcome(lambda: f(*args, **kw, **denied(how)))
        if any(k in AMOUNT for k in kw) or form in ("td", "dtd"):
            # a zero amount of exact units: either refused or without effect
            if s == "err" and isinstance(r, DST):
                return
        if want is None:
            true(s == "err" and isinstance(r, RANGE), f"{what}): {r!r}")
        else:
            true(s == "ok", f"{what}): {r!r}")
            eq(obs_local(r), plain, what + ")")
    judge_plain(plain, lambda: f(*args, **kw, ignore_dst=True), f"{what}, ignore_dst=True)", obs_local)


@check("C20", lambda: st.tuples(gen.local, gen.local, gen.small_td_ns, dd, dtd, how_denied), quick=8000,
       rule="the two values, or the deltas, are not trivial (zero)")
def local_operators(ctx, case):
    l, l2, t, d, dt, how = case
    x, y = mk_local(l), mk_local(l2)
    ctx.nontrivial(l != l2 and t != 0)
    td_, dtd_ = tdns(t), W.DateTimeDelta(months=dt[0], days=dt[1], nanoseconds=dt[2])
    for nm, f in (("x + TimeDelta", lambda: x + td_), ("x - TimeDelta", lambda: x - td_),
                  ("x + DateTimeDelta", lambda: x + dtd_), ("x - DateTimeDelta", lambda: x - dtd_),
                  ("x - y", lambda: x - y), ("x - x", lambda: x - x),
                  ("difference", lambda: x.difference(y, **denied(how))),
                  ("difference of self", lambda: x.difference(x, **denied(how)))):
        expect_raises(DST, f, f"{nm} for {x!r}, {y!r}, {td_!r}, {dtd_!r}")
    eq(obs_td(x.difference(y, ignore_dst=True)), cal.local_ns(*l) - cal.local_ns(*l2), f"{x!r}.difference({y!r}, ignore_dst=True)")
    # reflected forms never work
    for nm, f in (("TimeDelta + x", lambda: td_ + x), ("TimeDelta - x", lambda: td_ - x), ("DateTimeDelta + x", lambda: dtd_ + x), ("x + y", lambda: x + y)):
        expect_raises((TypeError,), f, nm)
    # calendar amounts are fine
    delta = W.DateDelta(months=d[0], days=d[1])
    for sg, f in ((1, lambda: x + delta), (-1, lambda: x - delta)):
        r = cal.shift_date(l[0], l[1], l[2], sg * d[0], sg * d[1])
        judge_plain(None if r is None else (*r, l[3]), f, f"{x!r} {'+' if sg > 0 else '-'} {delta!r}", obs_local)


@check("C20", lambda: st.tuples(gen.offset_dt, cal_kwargs, exact_kwargs, pick("add", "subtract"), how_denied, pick("kw", "td", "dtd", "dd")), quick=10000,
       rule="the shift is not zero")
def offset_shifts(ctx, case):
    (o, n), ck, ek, meth, how, form = case
    x = mk_offset(o, n)
    l = cal.split_local(n + o * NS)
    sign = 1 if meth == "add" else -1
    mo, da = months_days(ck)
    t = total(ek)
    args, kw = (), {}
    if form == "td":
        ck, mo, da, args = {}, 0, 0, (tdns(t),)
    elif form == "dd":
        ek, t = {}, 0
        if mo * da < 0:
            return
        args = (W.DateDelta(months=mo, days=da),)
    elif form == "dtd":
        if min(mo, da, t) < 0 < max(mo, da, t):
            return
        args = (W.DateTimeDelta(months=mo, days=da, nanoseconds=t),)
    else:
        kw = {**ck, **ek}
    ctx.nontrivial(bool(mo or da or t), f"{form} {meth}")
    ctx.nontrivial(bool(mo or da) and not t, "calendar units only")
    f = getattr(x, meth)
    what = f"{x!r}.{meth}({args}, {kw})"
    if args or kw:
        expect_raises(DST, lambda: f(*args, **kw, **denied(how)), what + " without permission")
    r = cal.shift_date(*l[:3], sign * mo, sign * da)
    want = None
    if r is not None:
        mid = cal.local_ns(*r, l[3]) - o * NS
        if not cal.in_range(mid):
            return  # only the intermediate date is out of range
        m = mid + sign * t
        want = (m, o) if cal.in_range(m) and cal.in_range(m + o * NS) else None
    judge_plain(want, lambda: f(*args, **kw, ignore_dst=True), what + " with permission", obs_offset)


OFFSET_REFUSED = ["replace", "replace offset", "replace_date", "replace_time", "round", "-", "+", "now", "from_timestamp", "millis", "nanos"]


@check("C20", lambda: st.tuples(gen.offset_dt, gen.date, gen.tod, gen.offset, gen.unit_inc, gen.mode, gen.small_td_ns, dd, how_denied), quick=10000,
       rule="every case tries all guarded operations on a value")
def offset_operations(ctx, case):
    (o, n), d, t, o2, ui, mode, delta, dd_, how = case
    x = mk_offset(o, n)
    no = denied(how)
    ok = {"ignore_dst": True}
    ctx.nontrivial()
    td_ = tdns(delta)
    date_delta = W.DateDelta(months=dd_[0], days=dd_[1])
    off = W.seconds(o2)
    l = cal.split_local(n + o * NS)
    h, mi, s, ns = cal.split_ns(t)
    for nm, f in (
        ("replace()", lambda: x.replace(**no)),
        ("replace(year)", lambda: x.replace(year=d[0], **no)),
        ("replace(hour)", lambda: x.replace(hour=h, **no)),
        ("replace(nanosecond)", lambda: x.replace(nanosecond=ns, **no)),
        ("replace(offset)", lambda: x.replace(offset=off, **no)),
        ("replace_date", lambda: x.replace_date(W.Date(*d), **no)),
        ("replace_date same", lambda: x.replace_date(x.date(), **no)),
        ("replace_time", lambda: x.replace_time(mk_time(t), **no)),
        ("replace_time same", lambda: x.replace_time(x.time(), **no)),
        ("round", lambda: x.round(*ui, mode, **no)),
        ("round day", lambda: x.round("day", mode=mode, **no)),
        ("round()", lambda: x.round(**no)),
        ("- TimeDelta", lambda: x - td_),
        ("- DateDelta", lambda: x - date_delta),
        ("- DateTimeDelta", lambda: x - (date_delta + W.TimeDelta(nanoseconds=0))),
        ("now", lambda: W.OffsetDateTime.now(off, **no)),
        ("from_timestamp", lambda: W.OffsetDateTime.from_timestamp(n // NS, offset=off, **no)),
        ("from_timestamp_millis", lambda: W.OffsetDateTime.from_timestamp_millis(n // 10**6, offset=off, **no)),
        ("from_timestamp_nanos", lambda: W.OffsetDateTime.from_timestamp_nanos(n, offset=off, **no)),
    ):
        expect_raises(DST, f, f"{nm} of {x!r} without permission")
    for nm, f in (("+ TimeDelta", lambda: x + td_), ("+ DateDelta", lambda: x + date_delta), ("TimeDelta +", lambda: td_ + x)):
        expect_raises((TypeError,), f, f"{nm} of {x!r}")
    # with permission: plain clock arithmetic on the same offset

    def at(loc, o_=o):
        m = loc - o_ * NS
        return (m, o_) if cal.in_range(m) and cal.in_range(loc) else None

    inc = gen.UNITS_NS[ui[0]] * ui[1]
    base = cal.local_ns(*l[:3], 0)
    rounded = base + cal.round_int(l[3], inc, mode)
    dayr = base + cal.round_int(l[3], DAY_NS, mode)
    for nm, want, f in (
        ("replace(all)", at(cal.local_ns(*d, t)), lambda: x.replace(year=d[0], month=d[1], day=d[2], hour=h, minute=mi, second=s, nanosecond=ns, **ok)),
        ("replace_date", at(cal.local_ns(*d, l[3])), lambda: x.replace_date(W.Date(*d), **ok)),
        ("replace_time", at(cal.local_ns(*l[:3], t)), lambda: x.replace_time(mk_time(t), **ok)),
        ("replace(offset)", at(n + o * NS, o2), lambda: x.replace(offset=off, **ok)),
        ("round", at(rounded), lambda: x.round(*ui, mode, **ok)),
        ("round day", at(dayr), lambda: x.round("day", mode=mode, **ok)),
        ("from_timestamp_nanos", at(n + o2 * NS, o2), lambda: W.OffsetDateTime.from_timestamp_nanos(n, offset=off, **ok)),
    ):
        judge_plain(want, f, f"{nm} of {x!r} ({d}, {t}, {o2}, {ui}, {mode}) with permission", obs_offset)
    now = 1_600_000_000 * NS + ns
    with W.patch_current_time(mk_instant(now), keep_ticking=False):
        eq(obs_offset(W.OffsetDateTime.now(off, **ok)), (now, o2), "now() with permission")


COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


@st.composite
def _mixed_pair(draw):
    """a local and an exact value showing the same (or a near) clock"""
    z = draw(any_value(EXACT_KINDS))
    if draw(ints(0, 3)):
        return [z, None]
    return [z, draw(gen.local)]


@check("C20", _mixed_pair, quick=8000, rule="the local value shows the same clock as the exact value")
def local_against_exact(ctx, case):
    z, l = case
    x = build(z)
    if l is None:
        y = x.py_datetime() if z[0] == "Instant" else None
        y = W.LocalDateTime.from_py_datetime(y.replace(tzinfo=None)) if y else x.local()
        ctx.nontrivial(True, z[0])
    else:
        y = mk_local(l)
    for a, b in ((x, y), (y, x)):
        what = f"{a!r} and {b!r}"
        for nm, op in COMPARE.items():
            expect_raises((TypeError,), lambda: op(a, b), f"{nm} of {what}")
        true((a == b) is False, f"== of {what}")
        true((a != b) is True, f"!= of {what}")
        expect_raises((TypeError,), lambda: a - b, f"- of {what}")
        expect_raises((TypeError,), lambda: a + b, f"+ of {what}")
    expect_raises((TypeError,), lambda: x.exact_eq(y), "exact_eq with a local value")
    true(y not in {x: 1} and x not in {y: 1}, "dictionary lookup across local and exact")


@check("C20", lambda: st.tuples(any_value(), any_value()), quick=12000, rule="the types are not comparable with each other")
def cross_type(ctx, case):
    """ordering across unrelated types is refused, equality false"""
    a, b = map(build, case)
    if type(a) is type(b) or (case[0][0] in EXACT_KINDS and case[1][0] in EXACT_KINDS):
        return
    dur = {"DateDelta", "TimeDelta", "DateTimeDelta"}
    what = f"{a!r} and {b!r}"
    for nm, op in COMPARE.items():
        expect_raises((TypeError,), lambda: op(a, b), f"{nm} of {what}")
    ctx.nontrivial()
    if case[0][0] in dur and case[1][0] in dur:
        return
    true((a == b) is False and (a != b) is True, f"equality of {what}")
