"""C05: exact shifts and differences."""
import operator
from .common import *
from .c01 import _derived, build_x, derived, ns as ns_of
from .c04 import units_of

exact_start = weighted(
    (3, gen.zoned.map(lambda z: ["ZonedDateTime", *z, 0])),
    (3, gen.instant_ns.map(lambda n: ["Instant", n])),
    (2, gen.offset_dt.map(lambda z: ["OffsetDateTime", *z])),
    (2, gen.instant_ns.map(lambda n: ["SystemDateTime", clampn(n)])),
)


@st.composite
def _case(draw):
    sysk = draw(gen.tzkey)
    v = draw(exact_start)
    n = ns_of(v)
    j = draw(ints(0, 5))
    if j == 0:
        d = draw(weighted((1, pick(cal.MIN_NS_TS - n, cal.MAX_NS_TS - n)), (1, gen.small_td_ns.map(lambda x: cal.MAX_NS_TS - n + x)), (1, gen.small_td_ns.map(lambda x: cal.MIN_NS_TS - n + x))))
    elif j <= 2:
        d = draw(gen.td_ns)
    elif j == 3:
        # exactly across a second / day boundary
        d = -(n % NS) + draw(pick(0, 1, -1)) + draw(ints(-3, 3)) * NS
    else:
        d = draw(gen.small_td_ns)
    d = min(max(d, -gen.MAX_TD), gen.MAX_TD)
    return [sysk, v, d, draw(ints(0, 7))]


@check("C05", _case, quick=24000, rule="non-zero duration; sub-second carry, or result across an offset change or near the range limit")
def shift_exact(ctx, case):
    sysk, v, d, how = case
    with system_tz(sysk):
        n = ns_of(v)
        k = v[0]
        key = v[1] if k == "ZonedDateTime" else sysk
        x = build_x(v)
        m = n + d
        if k == "SystemDateTime" and not SYS_LO < m < SYS_HI and cal.in_range(m):
            return
        sub = how % 2
        td = tdns(-d) if sub else tdns(d)
        au = units_of(-d if sub else d)
        kw = {"ignore_dst": True} if k == "OffsetDateTime" else {}
        meth = x.subtract if sub else x.add
        if k == "OffsetDateTime":
            f = [lambda: meth(td, **kw), lambda: meth(td, **kw), lambda: meth(**au, **kw), lambda: meth(**au, **kw)][how % 4]
        elif k == "Instant" and how in (4, 5):
            f = lambda: meth(**au)
        else:
            f = {0: lambda: x + td, 1: lambda: x - td, 2: lambda: x + td, 3: lambda: x - td,
                 4: lambda: meth(**au), 5: lambda: meth(**au)}.get(how) or (lambda: (meth(nanoseconds=td.in_nanoseconds())))
        if k == "Instant":
            o = 0
        elif k == "OffsetDateTime":
            o = v[1]
        else:
            o = tz.zone(key).offset_at(m // NS) if cal.in_range(m) else 0
        what = f"{x!r} shifted by {d} ns (form {how})"
        ctx.nontrivial(bool(d) and ((n % NS) + (d % NS) >= NS or not cal.in_range(m) or abs(m) > cal.MAX_NS_TS - 3 * DAY_NS))
        if not cal.in_range(m) or not cal.in_range(m + o * NS):
            ctx.label("out of range")
            expect_raises(RANGE, f, what)
            return
        y = f()
        got = obs(y)
        want = {"Instant": (k, m), "OffsetDateTime": (k, m, o), "ZonedDateTime": (k, m, o, key), "SystemDateTime": (k, m, o)}[k]
        eq(got, want, what)
        if k in ("ZonedDateTime", "SystemDateTime") and o != tz.zone(key).offset_at(n // NS):
            ctx.nontrivial(label="crosses offset change")
        # inverse laws
        eq(obs_td(y - x), d, f"({what}) - start")
        eq(obs_td(x.difference(y)), -d, f"start.difference({what})")
        if k != "OffsetDateTime":
            back = y - tdns(d)
            eq(back.timestamp_nanos(), n, f"({what}) shifted back")
            true(back.exact_eq(x), f"({what}) shifted back is not strictly the start")
        else:
            true(y.subtract(tdns(d), ignore_dst=True).exact_eq(x), f"({what}) shifted back is not strictly the start")


@st.composite
def _two(draw):
    sysk = draw(gen.tzkey)
    a, b = draw(exact_start), draw(exact_start)
    if draw(ints(0, 1)):
        n = clampn(ns_of(a) + draw(gen.small_td_ns))
        if b[0] in ("ZonedDateTime", "OffsetDateTime"):
            b = [*b[:2], n, *b[3:]]
        else:
            b = [b[0], n]
    return [sysk, a, b]


@check("C05", _two, quick=12000, rule="different types")
def difference(ctx, case):
    sysk, a, b = case
    with system_tz(sysk):
        x, y = build_x(a), build_x(b)
        d = ns_of(a) - ns_of(b)
        ctx.nontrivial(a[0] != b[0], f"{a[0]}-{b[0]}")
        eq(obs_td(x - y), d, f"{x!r} - {y!r}")
        eq(obs_td(y - x), -d, f"{y!r} - {x!r}")
        eq(obs_td(x.difference(y)), d, f"{x!r}.difference({y!r})")
        i = x.instant() if a[0] != "Instant" else x
        j = y.instant() if b[0] != "Instant" else y
        eq(obs_instant(j + (x - y)), ns_of(a), "b + (a - b)")
        eq(obs_instant(i - (x - y)), ns_of(b), "a - (a - b)")


@check("C05", lambda: st.tuples(gen.zoned_mid, gen.small_td_ns, gen.small_td_ns), quick=6000, rule="both durations non-zero")
def compose(ctx, case):
    """shifting by a then b is shifting by a + b, in any order and in any exact type"""
    (key, n), a, b = case
    n = clampn(n, 3 * 400 * DAY_NS)
    ctx.nontrivial(a != 0 and b != 0)
    x = mk_zoned(key, n)
    A, B = tdns(a), tdns(b)
    want = n + a + b
    eq(((x + A) + B).timestamp_nanos(), want, f"({x!r} + {A!r}) + {B!r}")
    true(((x + B) + A).exact_eq((x + A) + B), "order of exact shifts matters")
    true((x + (A + B)).exact_eq((x + A) + B), "sum of shifts differs from shifting twice")
    eq(obs_instant(x.instant() + A + B), want, "instant route")
    true((x + A).to_tz("UTC").exact_eq(x.to_tz("UTC") + A), "shift and conversion do not commute")


@check("C05", lambda: st.tuples(gen.tzkey, exact_start, frac_amounts, ints(-3000, 3000)), quick=8000,
       rule="some amount is not a whole number of its unit")
def fractional_units(ctx, case):
    """units given as floats shift by their exact value, forward and back"""
    sysk, v, amounts, k = case
    with system_tz(sysk):
        n = clampn(ns_of(v), 500 * 366 * DAY_NS)
        v = [*v[:2], n, *v[3:]] if v[0] in ("ZonedDateTime", "OffsetDateTime") else [v[0], n]
        x = build_x(v)
        kw, d = frac_kwargs(amounts)
        d += k
        ctx.nontrivial(any(a % 1 for a in kw.values()))
        perm = {"ignore_dst": True} if v[0] == "OffsetDateTime" else {}
        what = f"{x!r} and {kw}, {k} ns"
        eq(x.add(**kw, nanoseconds=k, **perm).timestamp_nanos(), n + d, f"add: {what}")
        eq(x.subtract(**kw, nanoseconds=k, **perm).timestamp_nanos(), n - d, f"subtract: {what}")
        td = W.TimeDelta(**kw, nanoseconds=k)
        eq(obs_td(td), d, f"TimeDelta of {kw}, {k} ns")
        if v[0] == "OffsetDateTime":
            eq(x.add(td, **perm).timestamp_nanos(), n + d, f"add(delta): {what}")
            eq(x.subtract(td, **perm).timestamp_nanos(), n - d, f"subtract(delta): {what}")
        else:
            eq((x + td).timestamp_nanos(), n + d, f"+: {what}")
            eq((x - td).timestamp_nanos(), n - d, f"-: {what}")


@check("C05", lambda: st.tuples(gen.zoned_mid, st.sampled_from(sorted(FRAC_UNITS)), st.floats(-10**6, 10**6)), quick=6000,
       rule="the amount is not a whole number")
def float_forms(ctx, case):
    """any float amount: keyword, delta and operator forms agree, on every type, and are within rounding of the amount"""
    (key, n), unit, f = case
    n = clampn(n, 500 * 366 * DAY_NS)
    x = mk_zoned(key, n)
    td = W.TimeDelta(**{unit: f})
    ctx.nontrivial(f % 1 != 0)
    d = td.in_nanoseconds()
    from fractions import Fraction
    true(abs(Fraction(f) * FRAC_UNITS[unit] - d) <= 1 + abs(d) * Fraction(1, 2**52), f"TimeDelta({unit}={f}) is {d} ns")
    for y in (x, x.instant(), x.to_fixed_offset()):
        perm = {"ignore_dst": True} if type(y) is W.OffsetDateTime else {}
        for how, z, w in (("add", y.add(**{unit: f}, **perm), n + d), ("subtract", y.subtract(**{unit: f}, **perm), n - d),
                          ("add of the negative", y.add(**{unit: -f}, **perm), n - d), ("subtract of the negative", y.subtract(**{unit: -f}, **perm), n + d),
                          *([] if perm else [("+", y + td, n + d), ("-", y - td, n - d)]),
                          *([] if type(y) is W.Instant else [("add(delta)", y.add(td, **perm), n + d), ("subtract(delta)", y.subtract(td, **perm), n - d)])):
            eq(z.timestamp_nanos(), w, f"{y!r} {how} {unit}={f}")


@st.composite
def _both_sides(draw):
    """differences of instants astride a transition, as zoned, system, fixed-offset values or instants"""
    key, a, b = draw(gen.astride)
    z = tz.zone(key)

    def v(n):
        return draw(pick(["ZonedDateTime", key, n, 0], ["ZonedDateTime", key, n, 0], ["SystemDateTime", n], ["Instant", n], ["OffsetDateTime", z.offset_at(n // NS), n]))

    return [key, v(a), v(b)]


@check("C05", _both_sides, quick=5000, rule="the values are not of the same type, or show the same local time")
def differences_across_transitions(ctx, case):
    key, a, b = case
    difference(ctx, case)
    difference(ctx, [key, b, a])
    n1, n2 = ns_of(a), ns_of(b)
    for how in (0, 1, 6):
        shift_exact(ctx, [key, a, n2 - n1, how])
        shift_exact(ctx, [key, b, n1 - n2, how])
    z = tz.zone(key)
    ctx.interesting = a[0] != b[0] or n1 + z.offset_at(n1 // NS) * NS == n2 + z.offset_at(n2 // NS) * NS


@check("C05", _derived, quick=6000, rule="two of the values lie within one second of each other and are not equal")
def differences_derived(ctx, case):
    """values made from one another: what each stands for, and the difference of any two"""
    with system_tz(case[0]):
        xs, ms = derived(case)
        ctx.nontrivial(any(0 < abs(ns_of(a) - ns_of(b)) < NS for a in ms for b in ms))
        for x, a in zip(xs, ms):
            eq(x.timestamp_nanos(), ns_of(a), f"timestamp of {x!r}")
            for y, b in zip(xs, ms):
                d = ns_of(a) - ns_of(b)
                eq((x - y).in_nanoseconds(), d, f"{x!r} - {y!r}")
                eq(x.difference(y), tdns(d), f"{x!r}.difference({y!r})")
