"""C11: day boundaries and rounding of zoned times."""
from .common import *


def big_jump(key, n):
    """a change of a day or more nearby: outside what the standard library's local time supports"""
    s = n // NS
    return any(abs(a - b) >= 20 * 3600 for _, a, b in tz.zone(key).transitions(s - 4 * DAY_S, s + 4 * DAY_S))


@st.composite
def _case(draw):
    """[key, utc ns]: days with a transition, clock times near half of the day, its ends, or anywhere"""
    key, n = draw(gen.zoned)
    pts = tz.aim_points(key)
    if pts and draw(ints(0, 3)):
        u, a, b = pts[draw(ints(0, len(pts) - 1))]
        loc = u + draw(pick(a, b)) + draw(pick(0, 0, 0, -1, DAY_S, -DAY_S))
        if cal.MIN_S < loc < cal.MAX_S:
            day = loc // DAY_S
            try:
                l = day_len(key, *cal.from_day_number(day))
            except model.Refused:
                l = DAY_NS
            j = draw(ints(0, 6))
            if j <= 1:
                t = l // 2 + draw(pick(0, 1, -1, NS, -NS, 60 * NS, -60 * NS))
            elif j == 2:
                t = l + draw(pick(0, -1, 1, NS, -NS, 1800 * NS, -1800 * NS))
            elif j == 3:
                t = draw(pick(0, 1, NS, DAY_NS - 1, DAY_NS - NS, DAY_NS // 2))
            elif j == 4:
                t = (loc % DAY_S) * NS + draw(ints(-7200, 7200)) * NS
            elif j == 5:
                t = draw(ints(0, 47)) * 1800 * NS
            else:
                t = draw(gen.tod)
            t = min(max(t, 0), DAY_NS - 1)
            try:
                n, _ = model.resolve(key, day * DAY_NS + t, draw(pick("earlier", "later")))
            except model.Refused:
                pass
    return [key, n]


def day_len(key, y, m, d):
    a, _ = model.start_of_day(key, y, m, d)
    nx = cal.day_number(y, m, d) + 1
    if nx > cal.MAX_DAY:
        raise model.Refused("range")
    b, _ = model.start_of_day(key, *cal.from_day_number(nx))
    return b - a


def in_system(key, n):
    """the system-timezone value and its observer, or None where the platform is out of its depth"""
    return system_value(n)


def both(case):
    """run the check for the zoned value and, with the system timezone set, the system value"""
    key, n = case[0], case[1]
    yield "zoned", mk_zoned(key, n), obs_zoned
    if not big_jump(key, n) and SYS_LO < n < SYS_HI:
        with system_tz(key):
            yield "system", system_value(n), obs_system


@check("C11", _case, quick=24000, rule="the day is not 24 hours long, or starts after 00:00, or the time is ambiguous")
def day_facts(ctx, case):
    key, n = case
    o = tz.zone(key).offset_at(n // NS)
    y, m, d, t = cal.split_local(n + o * NS)
    kind = tz.zone(key).resolve((n + o * NS) // NS)[0]
    try:
        start = model.start_of_day(key, y, m, d)
    except model.Refused as r:
        start = r.kind
    try:
        length = day_len(key, y, m, d)
    except model.Refused as r:
        length = r.kind
    ctx.nontrivial(length != DAY_NS, "odd length")
    ctx.nontrivial(kind == "repeated", "ambiguous")
    ctx.nontrivial(start not in ("range", "weird") and (start[0] + start[1] * NS) % DAY_NS != 0, "no midnight")
    for nm, x, ob in both(case):
        what = f"{nm} {x!r} ({key})"
        if kind != "weird":
            eq(x.is_ambiguous(), kind == "repeated", what + ".is_ambiguous()")
        if start == "range":
            expect_raises(RANGE, lambda: x.start_of_day(), what + ".start_of_day()")
        elif start != "weird":
            s = x.start_of_day()
            eq(ob(s)[:2], start, what + ".start_of_day()")
            if nm == "zoned":
                eq(s.tz, key, "timezone of the start of day")
            eq(ob(s.start_of_day())[:2], start, what + ".start_of_day() twice")
        if length == "range":
            expect_raises(RANGE, lambda: x.day_length(), what + ".day_length()")
        elif length != "weird":
            eq(obs_td(x.day_length()), length, what + ".day_length()")


def form(n, i):
    """which of the call forms of do_round: positional, keywords, mixed, defaults left out"""
    return (n // NS + n // DAY_NS + i) % 4


@check("C11", lambda: st.tuples(_case(), gen.unit_inc, gen.mode), quick=24000,
       rule="the rounded local time is repeated or skipped, or its offset differs")
def round_sub_day(ctx, case):
    (key, n), (u, i), m = case
    inc = gen.UNITS_NS[u] * i
    o = tz.zone(key).offset_at(n // NS)
    loc = n + o * NS
    t = loc % DAY_NS
    r = loc - t + cal.round_int(t, inc, m)
    kind = tz.zone(key).resolve(r // NS)[0]

    def expect():
        if not cal.in_range(r):
            raise model.Refused("range")
        # repeated times keep the offset if they can; skipped ones move forward
        return model.resolve(key, r, "compatible" if kind == "skipped" else None, prev=o)

    ctx.nontrivial(kind != "unique", kind)
    for nm, x, ob in both(case[0]):
        res = judge_zoned(key, expect, lambda: do_round(x, u, i, m, form(n, i)), f"{nm} {x!r}.round({u!r}, {i}, {m!r})", obs_f=ob)
        if res == "ok":
            ctx.nontrivial(expect()[1] != o, "offset changes")


@check("C11", lambda: st.tuples(_case(), gen.mode), quick=30000, rule="the day is not 24 hours long or a boundary is not a unique midnight")
def round_day(ctx, case):
    (key, n), m = case
    o = tz.zone(key).offset_at(n // NS)
    loc = n + o * NS
    t = loc % DAY_NS
    y, mo, d, _ = cal.split_local(loc)

    def targets(dn):
        """start of that day; or, when midnight is repeated, the one with the present offset"""
        if not cal.MIN_DAY <= dn <= cal.MAX_DAY:
            raise model.Refused("range")
        out = {model.resolve(key, dn * DAY_NS, "compatible")}
        if tz.zone(key).resolve(dn * DAY_S)[0] == "repeated":
            out.add(model.resolve(key, dn * DAY_NS, None, prev=o))
        return out

    dn = loc // DAY_NS
    try:
        lo = targets(dn)
    except model.Refused as r:
        if r.kind == "weird":
            return
        lo = None
    try:
        hi = targets(dn + 1)
        length = day_len(key, y, mo, d)
    except model.Refused as r:
        if r.kind == "weird":
            return
        hi = length = None
    if lo is None or hi is None:
        # at the ends of the supported range, a refusal is fine; a result must be a boundary
        for nm, x, ob in both(case[0]):
            k, v = outcome(lambda: do_round(x, "day", 1, m, form(n, 0)))
            if k == "err":
                true(isinstance(v, RANGE), f"{nm} {x!r}.round('day'): {v!r}")
            else:
                true(ob(v)[:2] in (lo or set()) | (hi or set()), f"{nm} {x!r}.round('day', mode={m!r}) = {v!r}")
        return
    if m == "floor" or t == 0:
        want = lo
    elif m == "ceil":
        want = hi
        if (n, o) in lo:  # already at the start of the day, though not at 00:00
            want = lo | hi
    elif 2 * t > length or (2 * t == length and m == "half_ceil"):
        want = hi
    else:
        want = lo
    ctx.nontrivial(length != DAY_NS, "odd length")
    ctx.nontrivial(any((a + b * NS) % DAY_NS for a, b in lo | hi), "no midnight")
    ctx.nontrivial(len(lo) > 1 or len(hi) > 1, "repeated midnight")
    if 2 * t == length:
        ctx.label("tie")
    if t >= length:
        ctx.label("clock past the day length")
    for nm, x, ob in both(case[0]):
        got = ob(do_round(x, "day", 1, m, form(n, 0)))
        if got[:2] not in want:
            fail(f"{nm} {x!r}.round('day', mode={m!r}) = {got}, expected one of {sorted(want)}")
        if nm == "zoned":
            eq(got[2], key, "timezone of the rounded value")


BAD_UNIT = ["days", "week", "hours", "", "Second", "year", "ns", "DAY"]
BAD_MODE = ["foo", "", "Ceil", "half", "up", "half_up"]


@check("C11", lambda: st.tuples(gen.zoned_mid, ints(0, 3), ints(0, 10**6), gen.mode, gen.unit_inc), quick=4000,
       rule="all cases (each has one invalid argument)")
def invalid_arguments(ctx, case):
    z, j, k, m, (u, i) = case
    ctx.nontrivial()
    if j == 0:
        u, i = BAD_UNIT[k % len(BAD_UNIT)], 1
    elif j == 1:
        m = BAD_MODE[k % len(BAD_MODE)]
    elif j == 2:
        i = [0, -1, -5, 1001, 7 * 10**4][k % 5]
    else:
        u = "day" if k % 3 == 0 else u
        lim = gen.UNIT_MAX.get(u, 1)
        bad = [b for b in range(2, 1001) if lim % b]
        i = bad[k % len(bad)]
    for nm, x, ob in both(z):
        expect_raises(ValueError, lambda: x.round(u, i, m), f"{nm} {x!r}.round({u!r}, {i}, {m!r})")


def _all_facts(ctx, case):
    z, ui, m = case
    day_facts(ctx, z)
    round_sub_day(ctx, (z, ui, m))
    round_day(ctx, (z, m))


both_sides("C11", _all_facts, lambda key, n, e: ([key, n], *e), st.tuples(gen.unit_inc, gen.mode))
