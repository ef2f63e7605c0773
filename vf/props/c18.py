"""C18: timestamps."""
from fractions import Fraction

from .common import *

SCALE = {"": NS, "_millis": 10**6, "_nanos": 1}


@check("C18", lambda: st.tuples(any_value(["Instant", "OffsetDateTime", "ZonedDateTime"]), gen.tzkey), quick=16000,
       rule="the instant is before 1970 with a sub-second part, or at the ends of the range")
def timestamps_of_values(ctx, case):
    case, sysz = case
    n = case[-1]
    x = build(case)
    xs = [x]
    with system_tz(sysz):
        if SYS_LO <= n <= SYS_HI:
            xs.append(system_value(n))
    for x in xs:
        for nm, sc in SCALE.items():
            v = getattr(x, "timestamp" + nm)()
            eq(v, n // sc, f"{type(x).__name__}.timestamp{nm}()")
    ctx.label(case[0])
    ctx.nontrivial(n < 0 and n % NS != 0, "negative with a fraction")
    ctx.nontrivial(min(n - cal.MIN_NS_TS, cal.MAX_NS_TS - n) < 2 * DAY_NS, "range end")


@st.composite
def _ts(draw):
    nm = draw(pick(*SCALE))
    sc = SCALE[nm]
    j = draw(ints(0, 9))
    if j <= 5:
        key, n = draw(gen.zoned)
        i = n // sc
    elif j <= 7:
        key = draw(gen.tzkey)
        i = draw(gen.instant_ns) // sc
    elif j == 8:
        key = draw(gen.tzkey)
        i = draw(pick(cal.MIN_NS_TS, cal.MAX_NS_TS)) // sc + draw(st.one_of(ints(-3, 3), ints(-2 * DAY_S, 2 * DAY_S), ints(-2 * DAY_NS // sc, 2 * DAY_NS // sc)))
    else:
        key = draw(gen.tzkey)
        i = draw(st.one_of(ints(-10**30, 10**30), ints(0, 70).map(lambda k: 2**k), ints(0, 70).map(lambda k: -2**k)))
    return [nm, i, key, draw(gen.offset)]


@check("C18", lambda: _ts(), quick=30000,
       rule="negative with a remainder, out of range, or the offset moves the local date")
def values_of_timestamps(ctx, case):
    nm, i, key, off = case
    n = i * SCALE[nm]
    f = "from_timestamp" + nm
    ok = cal.in_range(n)
    what = f"{f}({i}) "

    def judge(cls, kw, off, obs_f, want):
        fn = lambda: getattr(cls, f)(i, **kw)  # noqa
        if not ok or (off is not None and not cal.in_range(n + off * NS)):
            expect_raises(RANGE, fn, what + cls.__name__)
            ctx.nontrivial(label="out of range")
        else:
            y = fn()
            eq(obs_f(y), want, what + cls.__name__)
            eq(getattr(y, "timestamp" + nm)(), i, "timestamp of the result")

    judge(W.Instant, {}, None, obs_instant, n)
    judge(W.OffsetDateTime, {"offset": W.seconds(off), "ignore_dst": True}, off, obs_offset, (n, off))
    if off % 3600 == 0:
        judge(W.OffsetDateTime, {"offset": off // 3600, "ignore_dst": True}, off, obs_offset, (n, off))
    zo = tz.zone(key).offset_at(n // NS) if ok else None
    judge(W.ZonedDateTime, {"tz": key}, zo, obs_zoned, (n, zo, key))
    if ok and not SYS_LO <= n <= SYS_HI:
        return
    with system_tz(key):
        judge(W.SystemDateTime, {}, zo, obs_system, (n, zo))
    ctx.nontrivial(n < 0 and n % NS != 0, "negative with a fraction")
    ctx.nontrivial(ok and n // DAY_NS != (n + off * NS) // DAY_NS, "other local date")


floats = st.one_of(
    ints(-2**34, 2**34).map(lambda k: k / 8), st.floats(-2.0**35, 2.0**35), st.floats(-3, 3),
    st.floats(allow_nan=True, allow_infinity=True), ints(-2**34, 2**34).map(float),
    ints(0, 400).map(lambda k: -2.0**-k), ints(0, 60).map(lambda k: 1 - 2.0**-k), ints(0, 60).map(lambda k: -1 + 2.0**-k))


@check("C18", lambda: st.tuples(floats, gen.offset, gen.tzkey), quick=8000,
       rule="the float has a fraction, or is out of range")
def float_seconds(ctx, case):
    x, off, key = case
    fin = x == x and abs(x) != float("inf")
    exact = Fraction(x) * NS if fin else None
    made = []
    calls = [(lambda: W.Instant.from_timestamp(x), obs_instant),
             (lambda: W.OffsetDateTime.from_timestamp(x, offset=W.seconds(off), ignore_dst=True), lambda v: obs_offset(v)[0]),
             (lambda: W.ZonedDateTime.from_timestamp(x, tz=key), lambda v: obs_zoned(v)[0])]
    if not fin or not -2.0**36 < x < 2.0**37:
        for f, _ in calls:
            expect_raises(RANGE, f, f"from_timestamp({x!r})") if not fin or not cal.in_range(int(exact)) else None
        ctx.nontrivial(not fin or not cal.in_range(int(exact)))
        return
    for f, ob in calls:
        made.append(ob(f()))
    for m in made:
        true(abs(m - exact) <= 1, f"from_timestamp({x!r}) is {m} ns since the epoch")
        eq(m, made[0], "different types disagree")
        if exact.denominator == 1:
            eq(m, int(exact), f"from_timestamp({x!r})")
    ctx.nontrivial(x != int(x))


both_sides("C18", timestamps_of_values, lambda key, n, e: (["ZonedDateTime", key, n], key), quick=3000)
