"""C03: resolution of local times in a timezone."""
import zoneinfo

from .common import *


def expect_of(key, l, dis, prev=None):
    return lambda: model.resolve(key, cal.local_ns(*l), dis, prev)


def classify(ctx, key, l):
    r = tz.zone(key).resolve(cal.local_ns(*l) // NS)[0]
    ctx.nontrivial(r in ("repeated", "skipped"), r)


@check("C03", lambda: st.tuples(gen.zone_local, gen.disambig, ints(0, 3)), quick=24000,
       rule="the local time is repeated or skipped in the zone")
def resolve_new(ctx, case):
    (key, *l), dis, route = case
    classify(ctx, key, l)
    args, kw = local_args(l)
    if route == 0:
        f = lambda: W.ZonedDateTime(*args, **kw, tz=key, disambiguate=dis)
    elif route == 1:
        f = lambda: mk_local(l).assume_tz(key, disambiguate=dis)
    elif route == 2:
        f = lambda: mk_local(l).assume_tz(key, dis)
    else:  # default is 'compatible'
        dis = "compatible"
        f = lambda: (W.ZonedDateTime(*args, **kw, tz=key) if l[3] % 2 else mk_local(l).assume_tz(key))
    judge_zoned(key, expect_of(key, l, dis), f, f"local {l} in {key} ({dis})")


dis_opt = weighted((2, st.just(None)), (3, gen.disambig))


@st.composite
def _replace_case(draw):
    """start value (same zone, same or near date) and a local target"""
    key, *l = draw(gen.zone_local)
    loc = cal.local_ns(*l)
    # a start whose local value differs from the target in a controlled way
    j = draw(ints(0, 5))
    if j <= 2:
        n = loc + draw(ints(-5, 5)) * 1800 * NS - draw(pick(0, 1, -1)) * 3600 * NS
        o = tz.zone(key).offset_at(min(max(n, cal.MIN_NS_TS), cal.MAX_NS_TS) // NS)
        n -= o * NS
    elif j <= 4:
        n = loc + draw(ints(-400, 400)) * DAY_NS
        n -= tz.zone(key).offset_at(min(max(n, cal.MIN_NS_TS), cal.MAX_NS_TS) // NS) * NS
    else:
        n = draw(gen.instant_ns)
    return [key, clampn(n), l, draw(dis_opt), draw(ints(0, 3)), draw(ints(0, ROUTES - 1))]


@check("C03", _replace_case, quick=24000, rule="the resulting local time is repeated or skipped in the zone")
def resolve_replace(ctx, case):
    key, n, l, dis, how, route = case
    x = zoned_via(key, n, route)
    o = tz.zone(key).offset_at(n // NS)
    y, m, d, t = cal.split_local(n + o * NS)
    kw = {} if dis is None else {"disambiguate": dis}
    if how == 0:      # date only
        l = [l[0], l[1], l[2], t]
        f = lambda x=x: x.replace_date(mk_date(l), **kw)
        what = f"{x!r}.replace_date({l[:3]}, {dis})"
    elif how == 1:    # time only
        l = [y, m, d, l[3]]
        f = lambda x=x: x.replace_time(mk_time(l[3]), **kw)
        what = f"{x!r}.replace_time({l[3]}ns, {dis})"
    elif how == 2:    # all fields
        a, k2 = local_args(l)
        f = lambda x=x: x.replace(**dict(zip(("year", "month", "day", "hour", "minute", "second"), a)), **k2, **kw)
        what = f"{x!r}.replace({l}, {dis})"
    else:             # same local time, resolved again
        l = [y, m, d, t]
        f = lambda x=x: x.replace(**kw)
        what = f"{x!r}.replace(disambiguate={dis})"
    classify(ctx, key, l)
    if dis is None:
        ctx.label("keep-offset")
    prime(x, f)
    judge_zoned(key, expect_of(key, l, dis, o), f, what)


@check("C03", lambda: st.tuples(gen.zone_local, gen.tzkey, gen.disambig, ints(0, 1), ints(0, 1)), quick=8000,
       rule="the local time is repeated or skipped in the new zone")
def resolve_change_tz(ctx, case):
    """replacing the timezone keeps the local time, resolved in the new zone"""
    (key, *l), key0, dis, default, same = case
    try:
        n, o = model.resolve(key0, cal.local_ns(*l), "compatible")
    except model.Refused:
        return
    l = list(cal.split_local(n + o * NS))
    classify(ctx, key, l)
    x = mk_zoned(key0, n)
    if key == key0:
        f = (lambda: x.replace(tz=key)) if default else (lambda: x.replace(tz=key, disambiguate=dis))
        judge_zoned(key, expect_of(key, l, None if default else dis, o), f, f"{x!r}.replace(tz={key}, {None if default else dis})")
    elif default:
        judge_zoned(key, expect_of(key, l, "compatible"), lambda: x.replace(tz=key), f"{x!r}.replace(tz={key})")
    else:
        judge_zoned(key, expect_of(key, l, dis), lambda: x.replace(tz=key, disambiguate=dis), f"{x!r}.replace(tz={key}, {dis})")


def other_object(key, n, how):
    """a value whose zone is not the object that the zone's name gives now"""
    x = W.Instant.from_timestamp_nanos(n).to_tz(key)
    if how == 0:
        p = x.py_datetime().replace(microsecond=0)
        y = W.ZonedDateTime.from_py_datetime(p.replace(tzinfo=zoneinfo.ZoneInfo.no_cache(key)))
        return y.add(nanoseconds=n % NS)
    if how == 1:
        zoneinfo.ZoneInfo.clear_cache()
        return x
    if how == 2:
        zoneinfo.ZoneInfo.clear_cache(only_keys=[key])
        return x
    return x


@check("C03", lambda: st.tuples(gen.zoned, ints(0, 3), dis_opt, ints(0, 59), gen.nanos, ints(0, 3)), quick=8000,
       rule="the value or the result lies in a repeated or skipped time")
def same_zone_given_again(ctx, case):
    """tz= with the name of the zone the value is in already changes nothing, whichever object it came with"""
    (key, n), how, dis, minute, nanos_, what = case
    x = other_object(key, n, how)
    n, o, _ = obs_zoned(x)
    y, m, d, t = cal.split_local(n + o * NS)
    kw = {} if dis is None else {"disambiguate": dis}
    if what & 1:
        h, mi, s, ns = cal.split_ns(t)
        t = ((h * 60 + minute) * 60 + s) * NS + nanos_
        kw.update(minute=minute, nanosecond=nanos_)
    l = [y, m, d, t]
    classify(ctx, key, l)
    judge_zoned(key, expect_of(key, l, dis, o), lambda: x.replace(tz=key, **kw), f"{x!r}.replace(tz={key!r}, {kw})")
    judge_zoned(key, expect_of(key, l, dis, o), lambda: x.replace(**kw), f"{x!r}.replace({kw})")
    z = W.Instant.from_timestamp_nanos(n).to_tz(key)
    true(x == z and z == x and not x != z and x.exact_eq(z) and z.exact_eq(x) and hash(x) == hash(z), f"{x!r} and {z!r} are not equal")
    true(x <= z and x >= z and not x < z and not x > z, f"order of {x!r} and {z!r}")
    eq(obs_td(x - z), 0, f"{x!r} - {z!r}")
    eq(repr(x), repr(z), "repr()")


@check("C03", lambda: st.tuples(gen.zone_local, pick("foo", "later ", "Earlier", "RAISE", "fold")), quick=300, rule="invalid option")
def bad_option(ctx, case):
    (key, *l), dis = case
    ctx.nontrivial()
    args, kw = local_args(l)
    expect_raises(ValueError, lambda: W.ZonedDateTime(*args, **kw, tz=key, disambiguate=dis), f"disambiguate={dis!r}")
    expect_raises(ValueError, lambda: mk_local(l).assume_tz(key, disambiguate=dis), f"disambiguate={dis!r}")
    x = W.Instant.from_utc(2020, 6, 1).to_tz(key)
    expect_raises(ValueError, lambda: x.replace(hour=4, disambiguate=dis), f"disambiguate={dis!r}")
