"""C08: exact durations are integers of nanoseconds."""
from fractions import Fraction

from .common import *

MAXN = gen.MAX_TD
UN = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}
FN = {"hours": W.hours, "minutes": W.minutes, "seconds": W.seconds, "milliseconds": W.milliseconds,
      "microseconds": W.microseconds, "nanoseconds": W.nanoseconds}


def in_rng(n):
    return abs(n) <= MAXN


def judge(want, f, what):
    """f() gives exactly the duration of `want` ns, or raises when that is out of range"""
    if in_rng(want):
        eq(obs_td(f()), want, what)
    else:
        expect_raises(RANGE, f, what)


# amounts per unit: small, large relative to the range, or just around the limit
def amount(u):
    lim = MAXN // UN[u]
    return weighted((4, st.just(0)), (4, ints(-100, 100)), (2, ints(-10**7, 10**7)), (2, ints(-lim, lim)),
                    (1, pick(lim, -lim, lim + 1, -lim - 1, lim - 1, 2 * lim, -2 * lim)), (1, ints(-10 * lim, 10 * lim)))


units_st = st.tuples(*[amount(u) for u in UN])


@check("C08", lambda: units_st, quick=16000, rule="at least two units are non-zero, or the total is out of range")
def construct(ctx, case):
    total = sum(a * s for a, s in zip(case, UN.values()))
    kw = {u: a for u, a in zip(UN, case) if a}
    ctx.nontrivial(len(kw) >= 2)
    ctx.nontrivial(not in_rng(total), "out of range")
    judge(total, lambda: W.TimeDelta(**kw), f"TimeDelta({kw})")
    for u, a in kw.items():
        judge(a * UN[u], lambda: FN[u](a), f"{u}({a})")


@check("C08", lambda: st.tuples(st.sampled_from(sorted(UN)[:]), ints(-2**40, 2**40), ints(0, 24), st.integers(0, 2**53 - 1), ints(-30, 60)), quick=8000,
       rule="the amount has a fractional part")
def construct_float(ctx, case):
    """a float amount of a unit is that amount to the nanosecond"""
    u, k, sh, mant, ex = case
    if u == "nanoseconds":
        u = "seconds"
    if sh < 20:
        x = k / 2**sh  # binary fractions: product with the unit is exact for moderate sizes
    else:
        x = mant * 2.0 ** (ex - 53)
    ex_ns = Fraction(x) * UN[u]
    ctx.nontrivial(x != int(x))
    what = f"TimeDelta({u}={x!r})"
    if abs(ex_ns) > MAXN + 10**6:
        expect_raises(RANGE, lambda: W.TimeDelta(**{u: x}), what)
        return
    kind, v = outcome(lambda: W.TimeDelta(**{u: x}))
    if kind == "err":
        true(isinstance(v, RANGE) and abs(ex_ns) >= MAXN - 10**6, f"{what}: {v!r}")
        return
    got = obs_td(v)
    if ex_ns.denominator == 1 and abs(ex_ns) < 2**53:
        eq(got, int(ex_ns), what)
    tol = 1 + abs(ex_ns) / 2**52
    true(abs(got - ex_ns) <= tol, f"{what}: {got} ns, exact {ex_ns}")
    eq(FN[u](x).in_nanoseconds(), got, f"{u}({x!r})")


two = st.tuples(gen.td_ns, weighted((4, gen.td_ns), (1, st.just(None)), (1, st.just("neg")), (1, ints(-1, 1))))


def second(a, b):
    if b is None:
        return a
    if b == "neg":
        return -a
    if abs(b) <= 1:
        return max(-MAXN, min(MAXN, a + b))
    return b


@check("C08", lambda: two, quick=24000, rule="both operands are non-zero with a sub-second part, or the result is out of range")
def algebra(ctx, case):
    a, b = case
    b = second(a, b)
    x, y = tdns(a), tdns(b)
    ctx.nontrivial(bool(a % NS and b % NS))
    ctx.nontrivial(not in_rng(a + b) or not in_rng(a - b), "out of range")
    judge(a + b, lambda: x + y, f"{x!r} + {y!r}")
    judge(a - b, lambda: x - y, f"{x!r} - {y!r}")
    eq(obs_td(-x), -a, f"-{x!r}")
    eq(obs_td(+x), a, f"+{x!r}")
    eq(obs_td(abs(x)), abs(a), f"abs({x!r})")
    eq(bool(x), a != 0, f"bool({x!r})")
    for op, got, want in (("==", x == y, a == b), ("!=", x != y, a != b), ("<", x < y, a < b), ("<=", x <= y, a <= b),
                          (">", x > y, a > b), (">=", x >= y, a >= b)):
        eq(got, want, f"{x!r} {op} {y!r}")
    z = W.TimeDelta(seconds=b // NS, nanoseconds=b % NS)
    eq(z == y, True, f"{z!r} == {y!r}")
    eq(hash(z), hash(y), "hash of equal durations")
    if b:
        eq(x // y, a // b, f"{x!r} // {y!r}")
        eq(obs_td(x % y), a % b, f"{x!r} % {y!r}")
        q = Fraction(a, b)
        got = x / y
        true(type(got) is float and abs(Fraction(got) - q) <= abs(q) / 2**50 + Fraction(1, 10**300), f"{x!r} / {y!r}: {got!r}")
    else:
        for f in (lambda: x // y, lambda: x % y, lambda: x / y):
            expect_raises(ZeroDivisionError, f, f"{x!r} divided by zero")


factor = weighted((4, ints(-20, 20)), (2, ints(-10**6, 10**6)), (1, ints(-2**70, 2**70)), (1, ints(-10**4, 10**4)))


@check("C08", lambda: st.tuples(gen.td_ns, factor, st.floats(-1e6, 1e6, allow_nan=False)), quick=12000,
       rule="the factor is not -1, 0 or 1")
def scaling(ctx, case):
    a, k, f = case
    x = tdns(a)
    ctx.nontrivial(abs(k) > 1)
    ctx.nontrivial(not in_rng(a * k), "out of range")
    judge(a * k, lambda: x * k, f"{x!r} * {k}")
    judge(a * k, lambda: k * x, f"{k} * {x!r}")
    if k:
        q = Fraction(a, k)
        got = obs_td(x / k)
        if a % k == 0 and abs(a // k) < 2**53:
            eq(got, a // k, f"{x!r} / {k}")
        true(abs(got - q) <= 1 + abs(q) / 2**52, f"{x!r} / {k}: {got} ns, exact {q}")
    else:
        expect_raises(ZeroDivisionError, lambda: x / k, f"{x!r} / 0")
    w = Fraction(f) * a
    kind, v = outcome(lambda: x * f)
    if kind == "err":
        true(isinstance(v, RANGE) and abs(w) >= MAXN - 10**6, f"{x!r} * {f!r}: {v!r}")
    else:
        true(abs(obs_td(v) - w) <= 1 + abs(w) / 2**51, f"{x!r} * {f!r}: {obs_td(v)}, exact {w}")
        true(abs(w) <= MAXN + 10**6, "out of range product accepted")


@check("C08", lambda: gen.td_ns, quick=12000, rule="negative, or with a sub-second part")
def accessors(ctx, a):
    x = tdns(a)
    ctx.nontrivial(a < 0 or a % NS != 0)
    eq(x.in_nanoseconds(), a, "in_nanoseconds")
    parts = x.in_hrs_mins_secs_nanos()
    true(type(parts) is tuple and len(parts) == 4 and all(type(p) is int for p in parts), f"{x!r} parts {parts!r}")
    h, m, s, ns = parts
    eq(((h * 60 + m) * 60 + s) * NS + ns, a, f"{x!r}.in_hrs_mins_secs_nanos() total")
    true(all(p >= 0 for p in parts) if a >= 0 else all(p <= 0 for p in parts), f"{x!r}.in_hrs_mins_secs_nanos() signs {parts}")
    true(abs(m) < 60 and abs(s) < 60 and abs(ns) < NS, f"{x!r}.in_hrs_mins_secs_nanos() ranges {parts}")
    for f, u in ((x.in_days_of_24h, DAY_NS), (x.in_hours, 3600 * NS), (x.in_minutes, 60 * NS), (x.in_seconds, NS),
                 (x.in_milliseconds, 10**6), (x.in_microseconds, 1000)):
        got = f()
        w = Fraction(a, u)
        true(type(got) is float and abs(Fraction(got) - w) <= abs(w) / 2**50, f"{x!r}.{f.__name__}() = {got!r}")
        if w.denominator == 1 and abs(w) < 2**53:
            true(got == w, f"{x!r}.{f.__name__}() = {got!r}, exact {w}")
    y = W.TimeDelta(hours=h, minutes=m, seconds=s, nanoseconds=ns)
    true(y == x and hash(y) == hash(x), "rebuilt from parts")


@check("C08", lambda: st.lists(gen.small_td_ns, min_size=3, max_size=8), quick=4000, rule="contains both signs")
def history(ctx, case):
    """sums of many durations, accumulated in different ways, and sorting"""
    ctx.nontrivial(any(a < 0 for a in case) and any(a > 0 for a in case))
    xs = [tdns(a) for a in case]
    acc = W.TimeDelta.ZERO
    for x in xs:
        acc = acc + x
    eq(obs_td(acc), sum(case), "running sum")
    acc2 = xs[0]
    for x in xs[1:]:
        acc2 = x - (-acc2)
    eq(obs_td(acc2), sum(case), "running sum by subtraction of negatives")
    eq([obs_td(x) for x in sorted(xs)], sorted(case), "sorted")
    eq(obs_td(max(xs)), max(case), "max")
    eq(len(set(xs)), len(set(case)), "number of distinct values")
    for other in (1, 1.0, "x", None, W.DateDelta(), W.DateTimeDelta()):
        if other == 1 or other is None or isinstance(other, str):
            true((xs[0] == other) is False, f"duration equal to {other!r}")
        expect_raises(TypeError, lambda: xs[0] < other, f"ordering against {other!r}")
