"""C01: equality, order, hash of exact types follow the instant."""
import operator
from .common import *

deltas = weighted((3, pick(0)), (3, pick(1, -1, 2, 999, -999, 1000, -1000, 1001, NS, -NS, NS - 1)),
                  (2, pick(3600 * NS, -3600 * NS, 1800 * NS, -1800 * NS)), (1, gen.small_td_ns))


@st.composite
def _pair(draw, count=2):
    """values near one instant: [systz, [kind, ..., route], ...]"""
    sysk = draw(gen.tzkey)
    key, n0 = draw(gen.zoned)
    out = [sysk]
    for i in range(count):
        n = clampn(n0 + (draw(deltas) if i else 0))
        k = draw(exact_kind)
        if k == "ZonedDateTime":
            key2 = key if draw(ints(0, 2)) else draw(gen.tzkey)
            out.append([k, key2, n, draw(ints(0, ROUTES - 1))])
        elif k == "OffsetDateTime":
            o = draw(gen.offset)
            prev = [v for v in out[1:] if v[0] == "OffsetDateTime"]
            if prev and draw(st.booleans()):
                # the same or nearly the same local time at a slightly different offset
                o = min(max(prev[-1][1] + draw(pick(0, 1, -1, 59, 60, -60, 3600, -3600)), -86399), 86399)
                n = clampn(prev[-1][2] + (prev[-1][1] - o) * NS + draw(pick(0, 0, 0, 1, -1)))
            out.append([k, o, n])
        else:
            out.append([k, n])
    return out


def build_x(v):
    if v[0] == "ZonedDateTime":
        return zoned_via(v[1], v[2], v[3])
    return build(v)


def ns(v):
    return v[2] if v[0] in ("ZonedDateTime", "OffsetDateTime") else v[1]


OPS = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]


def visible(v, sysk):
    k = v[0]
    if k == "Instant":
        return (v[1],)
    if k == "OffsetDateTime":
        return (v[2], v[1])
    if k == "ZonedDateTime":
        return (v[2], tz.zone(v[1]).offset_at(v[2] // NS), v[1])
    return (v[1], tz.zone(sysk).offset_at(v[1] // NS))


@check("C01", _pair, quick=24000, rule="the two instants are at most a day apart and not the same object")
def compare_pair(ctx, case):
    na, nb = ns(case[1]), ns(case[2])
    ctx.nontrivial(abs(na - nb) <= DAY_NS, f"{'eq' if na == nb else 'near' if abs(na - nb) < 1000 else 'apart'}")
    compare(ctx, case)


def compare(ctx, case):
    sysk, a, b = case
    with system_tz(sysk):
        x, y = build_x(a), build_x(b)
        na, nb = ns(a), ns(b)
        for sym, op in OPS:
            want = op(na, nb)
            eq(op(x, y), want, f"{x!r} {sym} {y!r}")
            eq(op(y, x), op(nb, na), f"{y!r} {sym} {x!r}")
        if na == nb:
            true(hash(x) == hash(y), f"equal values {x!r} and {y!r} have different hashes")
            true(len({x, y}) == 1, "set of two equal values has two members")
            true({x: 1}.get(y) == 1, "dict lookup with an equal key failed")
        else:
            true(len({x, y}) == 2, "set of two different values has one member")
        if a[0] == b[0]:
            same = visible(a, sysk) == visible(b, sysk)
            eq(x.exact_eq(y), same, f"{x!r}.exact_eq({y!r})")
            eq(y.exact_eq(x), same, f"{y!r}.exact_eq({x!r})")
            ctx.label(f"exact_eq={same}")
        else:
            expect_raises(TypeError, lambda: x.exact_eq(y), f"{x!r}.exact_eq({y!r})")
        eq(x == x and not x != x and x <= x and not x < x, True, "reflexivity")


@st.composite
def _near(draw):
    """like _pair, around a transition"""
    key, n1, n2 = draw(gen.astride)
    out = [key]
    for n in draw(pick((n1, n2), (n2, n1))):
        k = draw(weighted((3, st.just("ZonedDateTime")), (1, exact_kind)))
        out.append([k, key, n, draw(ints(0, ROUTES - 1))] if k == "ZonedDateTime" else
                   [k, tz.zone(key).offset_at(n // NS), n] if k == "OffsetDateTime" else [k, n])
    return out


@check("C01", _near, quick=12000, rule="the order of the local times is not the order of the instants")
def across_transitions(ctx, case):
    """both sides of one transition, in the zone itself: repeated times, reversed local order"""
    key, a, b = case
    la, lb = (ns(v) + tz.zone(key).offset_at(ns(v) // NS) * NS for v in (a, b))
    ctx.nontrivial((la > lb) - (la < lb) != (ns(a) > ns(b)) - (ns(a) < ns(b)))
    compare(ctx, case)


@check("C01", lambda: st.tuples(_pair(2), pick("float", "str", "none", "date", "local", "int")), quick=2000,
       rule="comparison with a value that is no exact time")
def compare_foreign(ctx, case):
    (sysk, a, b), other = case
    with system_tz(sysk):
        x = build_x(a)
        o = {"float": 1.5, "str": "x", "none": None, "int": ns(a), "date": W.Date(2020, 1, 1),
             "local": W.LocalDateTime(2020, 1, 1)}[other]
        ctx.nontrivial()
        eq(x == o, False, f"{x!r} == {o!r}")
        eq(o == x, False, f"{o!r} == {x!r}")
        eq(x != o, True, f"{x!r} != {o!r}")
        for sym, op in OPS[2:]:
            expect_raises(TypeError, lambda: op(x, o), f"{x!r} {sym} {o!r}")
            expect_raises(TypeError, lambda: op(o, x), f"{o!r} {sym} {x!r}")


@check("C01", lambda: _pair(6), quick=4000, rule="at least two kinds in the list")
def sort_list(ctx, case):
    sysk, vs = case[0], case[1:]
    with system_tz(sysk):
        xs = [build_x(v) for v in vs]
        ctx.nontrivial(len({v[0] for v in vs}) > 1)
        got = [x.timestamp_nanos() for x in sorted(xs)]
        eq(got, sorted(ns(v) for v in vs), "sorted list is chronological")
        eq(max(xs).timestamp_nanos(), max(map(ns, vs)), "max")
        eq(min(xs).timestamp_nanos(), min(map(ns, vs)), "min")
        eq(len(set(xs)), len({ns(v) for v in vs}), "number of distinct values in a set")


STEPS = ("ns", "ns", "ns", "sub-second", "second", "zero", "same-zone", "instant", "offset", "system", "zone", "copy", "pickle", "text", "round")


@st.composite
def _derived(draw):
    """one value and the values made from it, step by step"""
    sysk = draw(gen.tzkey)
    key, n0 = draw(gen.zoned)
    n0 = clampn(n0, 5 * DAY_NS)
    k = draw(exact_kind)
    start = [k, key, n0] if k == "ZonedDateTime" else [k, draw(gen.offset), n0] if k == "OffsetDateTime" else [k, n0]
    steps = []
    for _ in range(draw(ints(2, 6))):
        s = draw(pick(*STEPS))
        arg = (draw(pick(1, -1, 2, -2, 10, 999, -1000, 1000)) if s == "ns" else draw(ints(1, NS - 1)) if s == "sub-second"
               else draw(pick(NS, -NS, 60 * NS, -3600 * NS)) if s == "second" else key if s == "zone" and draw(st.booleans())
               else draw(gen.tzkey) if s == "zone" else draw(gen.offset) if s == "offset" and draw(st.booleans()) else None)
        # each step starts from any of the values made so far, mostly the last
        steps.append([s, draw(ints(0, 2)), arg])
    return [sysk, start, steps]


def derived(case):
    """the values of a _derived case and what they are"""
    import copy
    import pickle

    sysk, start, steps = case
    xs, ms = [build(start)], [start]
    for s, back, arg in steps:
        i = max(len(xs) - 1 - back, 0)
        x, m = xs[i], ms[i]
        n, k = ns(m), m[0]

        def at(n, m=m):
            return [m[0], m[1], n] if m[0] in ("ZonedDateTime", "OffsetDateTime") else [m[0], n]

        if s in ("ns", "sub-second", "second"):
            y, v = x.add(nanoseconds=arg) if k != "OffsetDateTime" else x.add(nanoseconds=arg, ignore_dst=True), at(n + arg)
        elif s == "zero":
            y, v = (x.subtract(seconds=0) if k != "OffsetDateTime" else x.subtract(seconds=0, ignore_dst=True)), m
        elif s == "same-zone":
            y, v = (x.to_tz(m[1]) if k == "ZonedDateTime" else x.to_system_tz() if k == "SystemDateTime" else
                    x.to_fixed_offset(x.offset) if k == "OffsetDateTime" else x.to_fixed_offset().instant()), m
        elif s == "instant":
            if k == "Instant":
                continue
            y, v = x.instant(), ["Instant", n]
        elif s == "offset":
            if arg is None:
                off = visible(m, sysk)[1] if k != "Instant" else 0
                y = x.to_fixed_offset()
            else:
                off, y = arg, x.to_fixed_offset(W.seconds(arg))
            v = ["OffsetDateTime", off, n]
        elif s == "system":
            y, v = x.to_system_tz(), ["SystemDateTime", n]
        elif s == "zone":
            y, v = x.to_tz(arg), ["ZonedDateTime", arg, n]
        elif s == "copy":
            y, v = copy.deepcopy(copy.copy(x)), m
        elif s == "pickle":
            y, v = pickle.loads(pickle.dumps(x)), m
        elif s == "text":
            if k == "SystemDateTime" or (k != "Instant" and visible(m, sysk)[1] % 60):
                continue  # an offset with seconds may not come back (C04)
            y, v = type(x).parse_common_iso(x.format_common_iso()), m
        else:
            if k == "OffsetDateTime":
                continue
            # (rounding up is another matter: 24:00 may be an hour earlier, see C11)
            y, v = x.round("second", mode="floor"), at(n // NS * NS)
        xs.append(y)
        ms.append(v)
    return xs, ms


@check("C01", _derived, quick=6000, rule="two of the values lie within one second of each other and are not equal")
def compare_derived(ctx, case):
    """values made from one another (shifted a little, converted there and back, copied) compare by their instants too"""
    sysk = case[0]
    with system_tz(sysk):
        xs, ms = derived(case)
        ctx.nontrivial(any(0 < abs(ns(a) - ns(b)) < NS for a in ms for b in ms))
        for i, (x, a) in enumerate(zip(xs, ms)):
            for y, b in zip(xs[i:], ms[i:]):
                for sym, op in OPS:
                    eq(op(x, y), op(ns(a), ns(b)), f"{x!r} {sym} {y!r}")
                    eq(op(y, x), op(ns(b), ns(a)), f"{y!r} {sym} {x!r}")
                if ns(a) == ns(b):
                    eq(hash(x), hash(y), f"hash of {x!r} and {y!r}")
                if a[0] == b[0]:
                    eq(x.exact_eq(y), visible(a, sysk) == visible(b, sysk), f"{x!r}.exact_eq({y!r})")
                    eq(y.exact_eq(x), visible(a, sysk) == visible(b, sysk), f"{y!r}.exact_eq({x!r})")
        eq(len(set(xs)), len({ns(m) for m in ms}), "number of distinct values in a set")
