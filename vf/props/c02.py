"""C02: conversion chains between exact types."""
from .common import *

step = weighted(
    (2, st.just(["instant"])),
    (2, gen.offset.map(lambda o: ["fixed", o])),
    (1, st.just(["fixed_none"])),
    (3, gen.tzkey.map(lambda k: ["tz", k])),
    (2, gen.tzkey.map(lambda k: ["system", k])),
    (1, st.just(["local_offset"])),
)
start = st.one_of(gen.zoned.map(lambda z: ["ZonedDateTime", *z]), gen.offset_dt.map(lambda z: ["OffsetDateTime", *z]),
                  gen.instant_ns.map(lambda n: ["Instant", n]))


def check_obs(x, n, o, what):
    """fields, offset, timestamp, local(), date(), time(), instant() of a value with a clock"""
    eq(x.timestamp_nanos(), n, f"{what}: instant")
    loc = n + o * NS
    eq(local_ns_of(x), loc, f"{what}: local clock")
    eq(off_of(x), o, f"{what}: offset")
    y, m, d, t = cal.split_local(loc)
    eq(obs_local(x.local()), (y, m, d, t), f"{what}: local()")
    eq(obs_date(x.date()), (y, m, d), f"{what}: date()")
    eq(obs_time(x.time()), t, f"{what}: time()")
    eq(obs_instant(x.instant()), n, f"{what}: instant()")


@check("C02", lambda: st.tuples(start, st.lists(step, min_size=1, max_size=6)), quick=12000,
       rule="the chain changes the clock (a zone/offset conversion) at a transition-biased or extreme instant")
def chain(ctx, case):
    v, steps = case
    cur_o = None
    if v[0] == "Instant":
        n = v[1]
    else:
        n = v[2]
        cur_o = v[1] if v[0] == "OffsetDateTime" else tz.zone(v[1]).offset_at(n // NS)
    x = build(v)
    if cur_o is not None:
        check_obs(x, n, cur_o, f"start {v}")
    kind = v[0]
    for s in steps:
        op = s[0]
        if op == "instant":
            if kind == "Instant":
                continue
            x, cur_o, kind = x.instant(), None, "Instant"
            eq(obs_instant(x), n, f"{s}")
            continue
        if op == "fixed_none":
            if kind == "Instant":
                x = x.to_fixed_offset()
                cur_o = 0
            else:
                x = x.to_fixed_offset()
            kind = "OffsetDateTime"
            eq(type(x).__name__, kind, "result type")
            check_obs(x, n, cur_o, "to_fixed_offset()")
            continue
        if op == "local_offset":
            if kind == "Instant":
                continue
            x = x.local().assume_fixed_offset(tdns(cur_o * NS))
            kind = "OffsetDateTime"
            check_obs(x, n, cur_o, "local().assume_fixed_offset(offset)")
            continue
        if op == "fixed":
            o = s[1]
            arg = o // 3600 if o % 3600 == 0 else tdns(o * NS)
            f = lambda: x.to_fixed_offset(arg)
            name = "OffsetDateTime"
        elif op == "tz":
            o = tz.zone(s[1]).offset_at(n // NS)
            f = lambda: x.to_tz(s[1])
            name = "ZonedDateTime"
        else:
            o = tz.zone(s[1]).offset_at(n // NS)
            if not (SYS_LO < n < SYS_HI):
                continue
            name = "SystemDateTime"

            def f():
                with system_tz(s[1]):
                    return x.to_system_tz()
        if not cal.in_range(n + o * NS):
            expect_raises(RANGE, f, f"{s} of {x!r}")
            ctx.nontrivial(label="out of range")
            continue
        x = f()
        eq(type(x).__name__, name, f"type of {s}")
        check_obs(x, n, o, f"{s}")
        if op == "tz":
            eq(x.tz, s[1], "timezone id")
        if cur_o is not None and o != cur_o:
            ctx.nontrivial()
        cur_o, kind = o, name


@check("C02", lambda: st.tuples(gen.local, gen.offset), quick=8000, rule="the UTC value leaves the day of the local value")
def assume(ctx, case):
    """attaching UTC or a fixed offset to a local datetime"""
    l, o = case
    x = mk_local(l)
    n = cal.local_ns(*l)
    eq(obs_instant(x.assume_utc()), n, f"{x!r}.assume_utc()")
    f = lambda: x.assume_fixed_offset(tdns(o * NS))
    g = lambda: W.OffsetDateTime(*local_args(l)[0], nanosecond=cal.split_ns(l[3])[3], offset=tdns(o * NS))
    u = n - o * NS
    ctx.nontrivial(u // DAY_NS != n // DAY_NS)
    if cal.in_range(u):
        eq(obs_offset(f()), (u, o), f"{x!r}.assume_fixed_offset({o}s)")
        eq(obs_offset(g()), (u, o), f"OffsetDateTime({l}, offset={o}s)")
    else:
        ctx.label("utc out of range")
        expect_raises(RANGE, g, f"OffsetDateTime({l}, offset={o}s)")
        expect_raises(RANGE, f, f"{x!r}.assume_fixed_offset({o}s)")


@check("C02", lambda: st.tuples(gen.local, pick("sub", "big", "neg", "intbig")), quick=600, rule="unusable offset")
def bad_offset(ctx, case):
    l, k = case
    arg = {"sub": tdns(1), "big": tdns(86400 * NS), "neg": tdns(-86400 * NS), "intbig": 24}[k]
    l[0] = min(max(l[0], 2), 9998)
    l[2] = min(l[2], 28)
    ctx.nontrivial()
    expect_raises(ValueError, lambda: mk_local(l).assume_fixed_offset(arg), f"offset {arg!r}")
    expect_raises(ValueError, lambda: W.Instant.from_utc(2020, 1, 1).to_fixed_offset(arg), f"offset {arg!r}")


@st.composite
def _fold_case(draw):
    """an instant around an offset change of the target zone, seen through any type and system zone"""
    key, n = draw(gen.zoned_mid)
    pts = [p for p in tz.aim_points(key) if p[2] < p[1]]
    if pts and draw(ints(0, 3)):
        u, a, b = pts[draw(ints(0, len(pts) - 1))]
        n = (u + draw(ints(-1, a - b + 1))) * NS + draw(gen.nanos)
    return [draw(gen.tzkey) if draw(ints(0, 2)) else key, clampn(n, 10 * DAY_NS), key, draw(gen.tzkey), draw(gen.offset)]


@check("C02", _fold_case, quick=8000, rule="the local time in the target zone occurs twice")
def into_repeated_hours(ctx, case):
    """every exact type converts into either occurrence of a repeated local time"""
    sysk, n, key, other, off = case
    z = tz.zone(key)
    o = z.offset_at(n // NS)
    ctx.nontrivial(z.resolve(n // NS + o)[0] == "repeated", "second" if z.resolve(n // NS + o)[0] == "repeated" and z.resolve(n // NS + o)[2] == o else "")
    i = mk_instant(n)
    with system_tz(sysk):
        s = i.to_system_tz()
        xs = [i, s, i.to_fixed_offset(W.seconds(off)), i.to_tz(other), i.to_tz(key), W.SystemDateTime.from_timestamp_nanos(n), W.ZonedDateTime.from_timestamp_nanos(n, tz=other)]
        for x in xs:
            check_obs(x.to_tz(key), n, o, f"{x!r}.to_tz({key!r})")
            check_obs(x.to_tz(key).to_fixed_offset(), n, o, f"{x!r}.to_tz({key!r}).to_fixed_offset()")
            check_obs(x.to_tz(other).to_tz(key), n, o, f"{x!r}.to_tz({other!r}).to_tz({key!r})")
    with system_tz(key):
        for x in xs:
            y = x.to_system_tz()
            check_obs(y, n, o, f"{x!r}.to_system_tz() ({key})")
            check_obs(y.to_tz(key), n, o, f"{x!r}.to_system_tz().to_tz({key!r})")
            check_obs(y.to_fixed_offset(), n, o, f"{x!r}.to_system_tz().to_fixed_offset() ({key})")
            check_obs(y.to_fixed_offset(W.seconds(off)), n, off, f"{x!r}.to_system_tz().to_fixed_offset({off}) ({key})")


both_sides("C02", chain, lambda key, n, s: (["ZonedDateTime", key, n], s), st.lists(step, min_size=1, max_size=3), quick=3000)
