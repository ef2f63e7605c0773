"""C10: rounding picks the right multiple."""
from .common import *

U = gen.UNITS_NS
KINDS = ["Time", "TimeDelta", "Instant", "LocalDateTime", "OffsetDateTime"]


@st.composite
def _near(draw, inc, lo, hi):
    """an integer in [lo, hi], biased to multiples and ties of inc"""
    n = draw(ints(lo, hi))
    j = draw(ints(0, 6))
    if j == 0:
        return n
    k = n // inc if j > 1 else draw(pick(lo, hi)) // inc
    r = draw(pick(0, 0, 1, -1, inc // 2, inc // 2 + 1, inc // 2 - 1, (inc + 1) // 2, inc - 1, inc // 3, inc // 4, (3 * inc) // 4))
    return min(max(k * inc + r, lo), hi)


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind in ("LocalDateTime", "OffsetDateTime") and draw(ints(0, 7)) == 0:
        u, i = "day", 1
        inc = DAY_NS
    else:
        u, i = draw(gen.unit_inc_td if kind == "TimeDelta" else gen.unit_inc)
        inc = U[u] * i
    m = draw(gen.mode)
    how = draw(ints(0, 3))
    if kind == "Time":
        v = [kind, draw(_near(inc, 0, DAY_NS - 1))]
    elif kind == "TimeDelta":
        j = draw(ints(0, 4))
        lim = [10**4, 10**12, 40 * DAY_NS, 10**6 * NS, gen.MAX_TD][j]
        v = [kind, draw(_near(inc, -lim, lim))]
    elif kind == "Instant":
        v = [kind, draw(_near(inc, *draw(ranges)))]
    elif kind == "LocalDateTime":
        v = [kind, *cal.split_local(draw(_near(inc, *draw(ranges))))]
    else:
        o = draw(gen.offset)
        n = draw(_near(inc, *draw(ranges))) - o * NS  # the local clock is near the tie
        n = min(max(n, cal.MIN_NS_TS + max(0, -o) * NS), cal.MAX_NS_TS - max(0, o) * NS)
        v = [kind, o, n]
    return [v, u, i, m, how]


ranges = weighted((3, st.just((cal.MIN_NS_TS, cal.MAX_NS_TS))), (5, st.just((-2**31 * NS, 2**32 * NS))),
                  (2, ints(-20000, 40000).map(lambda d: (d * DAY_NS, d * DAY_NS + DAY_NS - 1))),
                  (1, st.just((cal.MAX_NS_TS - 2 * DAY_NS, cal.MAX_NS_TS))), (1, st.just((cal.MIN_NS_TS, cal.MIN_NS_TS + 2 * DAY_NS))))


def round_clock(n, inc, m):
    """multiples (and their parity) are counted from midnight"""
    t = n % DAY_NS
    return n - t + cal.round_int(t, inc, m)


@check("C10", _case, quick=60000, rule="the value is not already a multiple of the increment")
def rounding(ctx, case):
    v, u, i, m, how = case
    inc = DAY_NS if u == "day" else U[u] * i
    kind = v[0]
    x = build(v)
    what = f"{x!r}.round({u!r}, {i}, {m!r})"
    if kind == "Time":
        n = v[1]
        want = ("Time", cal.round_int(n, inc, m) % DAY_NS)
        if cal.round_int(n, inc, m) == DAY_NS:
            ctx.label("wraps midnight")
        f = lambda: obs(do_round(x, u, i, m, how))
    elif kind == "TimeDelta":
        n = v[1]
        r = cal.round_int(n, inc, m)
        want = ("TimeDelta", r) if abs(r) <= gen.MAX_TD else None
        f = lambda: obs(do_round(x, u, i, m, how))
    elif kind == "Instant":
        n = v[1]
        r = round_clock(n, inc, m)
        want = ("Instant", r) if cal.in_range(r) else None
        f = lambda: obs(do_round(x, u, i, m, how))
    elif kind == "LocalDateTime":
        n = cal.local_ns(*v[1:])
        r = round_clock(n, inc, m)
        want = ("LocalDateTime", *cal.split_local(r)) if cal.in_range(r) else None
        f = lambda: obs(do_round(x, u, i, m, how))
    else:
        o = v[1]
        n = v[2] + o * NS
        r = round_clock(n, inc, m)
        want = ("OffsetDateTime", r - o * NS, o) if cal.in_range(r) and cal.in_range(r - o * NS) else None
        f = lambda: obs(do_round(x, u, i, m, how, ignore_dst=True))
    ctx.nontrivial(n % inc != 0, kind)
    if 2 * (n % inc) == inc:
        ctx.label("tie")
    if kind != "Time" and n % inc and r % DAY_NS == 0 and r > n:
        ctx.label("carries past midnight")
    if want is None:
        ctx.label("out of range")
        expect_raises(RANGE, f, what)
    else:
        eq(f(), want, what)


BAD_UNIT = ["days", "week", "hours", "", "Second", "year", "month", "ns", "DAY", "hour "]
BAD_MODE = ["foo", "", "Ceil", "half", "up", "half_up", "half-even", "trunc", "floor "]


@st.composite
def _invalid(draw):
    kind = draw(st.sampled_from(KINDS))
    v = draw(any_value([kind]))
    j = draw(ints(0, 4))
    u, i = draw(gen.unit_inc)
    m = draw(gen.mode)
    if j == 0:
        u = draw(st.sampled_from(BAD_UNIT))
        i = 1
    elif j == 1:
        m = draw(st.sampled_from(BAD_MODE))
    elif j == 2:
        u = draw(st.sampled_from(sorted(gen.UNIT_MAX)))
        i = draw(weighted((2, ints(-1000, 0)), (1, ints(1001, 10**6)), (1, pick(-1, 0, 1001, 2000, 10**12))))
    elif j == 3:
        us = sorted(gen.UNIT_MAX)
        if kind == "TimeDelta":
            us.remove("hour")
        u = draw(st.sampled_from(us))
        i = draw(ints(2, 1000).filter(lambda k: gen.UNIT_MAX[u] % k != 0))
    else:
        u = "day"
        i = 1 if kind in ("Time", "Instant", "TimeDelta") else draw(ints(2, 40))
    return [v, u, i, m, j]


@check("C10", _invalid, quick=8000, rule="all cases (each has one invalid argument)")
def invalid_arguments(ctx, case):
    v, u, i, m, j = case
    x = build(v)
    ctx.nontrivial(label=["unit", "mode", "increment range", "increment divisor", "day"][j])
    kw = {"ignore_dst": True} if v[0] == "OffsetDateTime" else {}
    expect_raises(ValueError, lambda: x.round(u, i, m, **kw), f"{x!r}.round({u!r}, {i}, {m!r})")


@check("C10", lambda: st.tuples(any_value(KINDS), st.lists(st.tuples(gen.unit_inc, gen.mode), min_size=2, max_size=4)), quick=6000,
       rule="the first rounding changes the value")
def idempotent(ctx, case):
    """rounding twice is rounding once; floor <= value <= ceil; the nearest modes give one of both"""
    v, steps = case
    x = build(v)
    kw = {"ignore_dst": True} if v[0] == "OffsetDateTime" else {}
    for (u, i), m in steps:
        k, y = outcome(lambda: x.round(u, i, m, **kw))
        if k == "err":
            true(isinstance(y, RANGE), f"{x!r}.round: {y!r}")
            continue
        ctx.nontrivial(y != x)
        for m2 in ("floor", "ceil", "half_even", "half_floor", "half_ceil"):
            eq(obs(y.round(u, i, m2, **kw)), obs(y), f"{x!r} rounded to {u} {i} {m}, and again by {m2}")
        k, lo = outcome(lambda: x.round(u, i, "floor", **kw))
        k2, hi = outcome(lambda: x.round(u, i, "ceil", **kw))
        if k == "ok" and v[0] != "Time":
            true(lo <= x, f"floor of {x!r} is {lo!r}")
            if k2 == "ok":
                true(x <= hi, f"ceil of {x!r} is {hi!r}")
                true(y == lo or y == hi, f"{x!r} rounded by {m} is neither floor nor ceil")
        x = y
