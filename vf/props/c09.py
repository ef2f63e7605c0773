"""C09: calendar and mixed durations."""
from .common import *

MAXN = gen.MAX_TD


def sgn(*xs):
    """common sign, or None when mixed"""
    pos, neg = any(x > 0 for x in xs), any(x < 0 for x in xs)
    if pos and neg:
        return None
    return 1 if pos else -1 if neg else 0


def valid(mo, d, ns=0):
    return sgn(mo, d, ns) is not None and abs(mo) <= MAX_MONTHS and abs(d) <= MAX_DAYS and abs(ns) <= MAXN


def judge(want, f, observe, what):
    if valid(*want):
        eq(observe(f()), tuple(want), what)
    else:
        expect_raises(RANGE, f, what)


def check_shape(x):
    """no value has opposite signs or leaves the range"""
    if type(x) is W.DateDelta:
        t = (*obs_dd(x), 0)
    elif type(x) is W.DateTimeDelta:
        t = obs_dtd(x)
    else:
        t = (0, 0, obs_td(x))
    true(valid(*t), f"ill-formed duration {t}")
    return t


amt = {
    "years": weighted((4, st.just(0)), (3, ints(-20, 20)), (1, pick(9999, -9999, 10000, -10000)), (1, ints(-20000, 20000))),
    "months": weighted((3, st.just(0)), (3, ints(-30, 30)), (1, pick(MAX_MONTHS, -MAX_MONTHS, MAX_MONTHS + 1, 1 - MAX_MONTHS)), (1, ints(-10**6, 10**6))),
    "weeks": weighted((4, st.just(0)), (3, ints(-20, 20)), (1, pick(MAX_DAYS // 7, MAX_DAYS // 7 + 1, -MAX_DAYS // 7)), (1, ints(-10**6, 10**6))),
    "days": weighted((3, st.just(0)), (3, ints(-40, 40)), (1, pick(MAX_DAYS, -MAX_DAYS, MAX_DAYS + 1, -MAX_DAYS - 1)), (1, ints(-10**7, 10**7))),
}
FNS = {"years": W.years, "months": W.months, "weeks": W.weeks, "days": W.days}


@st.composite
def _kw(draw):
    v = [draw(amt[k]) for k in amt]
    if draw(ints(0, 2)):
        s = draw(pick(1, -1))
        v = [abs(x) * s for x in v]
    return v


ns_st = weighted((2, st.just(0)), (4, gen.small_td_ns), (2, gen.td_ns), (1, pick(MAXN, -MAXN, MAXN + 1, -MAXN - 1)))


@check("C09", lambda: st.tuples(_kw(), ns_st, st.booleans()), quick=20000,
       rule="at least two units are non-zero, or the parts have opposite signs, or are out of range")
def construct(ctx, case):
    kwv, ns, same = case
    if same:
        s = sgn(*kwv)
        ns = abs(ns) * (s or 1) if s is not None else ns
    yy, mm, ww, dd_ = kwv
    mo, d = yy * 12 + mm, ww * 7 + dd_
    kw = {k: v for k, v in zip(amt, kwv) if v}
    ctx.nontrivial(len(kw) + bool(ns) >= 2)
    ctx.nontrivial(sgn(mo, d, ns) is None, "mixed")
    ctx.nontrivial(sgn(mo, d, ns) is not None and not valid(mo, d, ns), "out of range")
    judge((mo, d), lambda: W.DateDelta(**kw), obs_dd, f"DateDelta({kw})")
    judge((mo, d, ns), lambda: W.DateTimeDelta(**kw, nanoseconds=ns), obs_dtd, f"DateTimeDelta({kw}, {ns} ns)")
    s, r = divmod(ns, NS)
    h, s2 = divmod(s, 3600)
    if valid(mo, d, ns) or sgn(mo, d, ns) is None:
        judge((mo, d, ns), lambda: W.DateTimeDelta(**kw, hours=h, seconds=s2, nanoseconds=r), obs_dtd, f"DateTimeDelta({kw}, {ns} ns)")
    for k, v in kw.items():
        w = (v * 12, 0) if k == "years" else (v, 0) if k == "months" else (0, v * 7) if k == "weeks" else (0, v)
        judge(w, lambda: FNS[k](v), obs_dd, f"{k}({v})")
    # combining the parts is the same as constructing
    if valid(mo, d) and abs(ns) <= MAXN:
        D, T = W.DateDelta(**kw), tdns(ns)
        for f in (lambda: D + T, lambda: T + D, lambda: W.DateTimeDelta() + D + T, lambda: (T + W.DateDelta()) + D):
            judge((mo, d, ns), f, obs_dtd, f"combining {D!r} and {T!r}")
        for f in (lambda: D - (-T), lambda: T - (-D)):
            judge((mo, d, ns), f, obs_dtd, f"combining {D!r} and -{T!r} by subtraction")


delta = st.one_of(dd.map(lambda x: ["DateDelta", *x]), dtd.map(lambda x: ["DateTimeDelta", *x]),
                  gen.td_ns.map(lambda n: ["TimeDelta", n]))


def parts(v):
    return {"DateDelta": lambda: (v[1], v[2], 0), "TimeDelta": lambda: (0, 0, v[1]), "DateTimeDelta": lambda: tuple(v[1:])}[v[0]]()


@st.composite
def _pair(draw):
    a = draw(delta)
    j = draw(ints(0, 5))
    if j <= 2:
        b = draw(delta)
    else:
        b = list(a) if j < 5 else draw(delta)
        if j == 4:
            b = [b[0]] + [x + draw(ints(-1, 1)) for x in b[1:]]
            if not valid(*parts(b)):
                b = list(a)
        if j == 5:
            # same parts, other type if they fit
            mo, d, n = parts(a)
            b = ["DateTimeDelta", mo, d, n] if a[0] != "DateTimeDelta" else a
    return [a, b]


@check("C09", _pair, quick=24000, rule="the operands have different types, or the result mixes signs or leaves the range")
def algebra(ctx, case):
    a, b = case
    x, y = build(a), build(b)
    p, q = parts(a), parts(b)
    ka, kb = a[0], b[0]
    ctx.nontrivial(ka != kb, f"{ka}/{kb}")
    s = tuple(i + j for i, j in zip(p, q))
    t = tuple(i - j for i, j in zip(p, q))
    ctx.nontrivial(not valid(*s) or not valid(*t), "refused")
    if ka == kb != "DateTimeDelta":
        def res(w):
            return check_shape(w)
        tp = type(x)
    else:
        tp = W.DateTimeDelta
        res = check_shape
    for w, f, op in ((s, lambda: x + y, "+"), (t, lambda: x - y, "-")):
        judge(w, f, res, f"{x!r} {op} {y!r}")
        if valid(*w):
            true(type(f()) is tp, f"type of {x!r} {op} {y!r}")
    # augmented assignment and the reverse
    judge(s, lambda: y + x, res, f"{y!r} + {x!r}")
    judge(tuple(-i for i in t), lambda: y - x, res, f"{y!r} - {x!r}")
    same = ka == kb and p == q
    eq(x == y, same, f"{x!r} == {y!r}")
    eq(x != y, not same, f"{x!r} != {y!r}")
    if same:
        eq(hash(x), hash(y), "hash of equal durations")
    if not (ka == kb == "TimeDelta"):
        for f in (lambda: x < y, lambda: x >= y):
            expect_raises(TypeError, f, f"ordering {x!r} and {y!r}")


@check("C09", lambda: st.tuples(st.one_of(dd.map(lambda x: ["DateDelta", *x]), dtd.map(lambda x: ["DateTimeDelta", *x])),
                                weighted((4, ints(-12, 12)), (1, ints(-10**7, 10**7)))),
       quick=16000, rule="more than one part is non-zero")
def unary_and_scaling(ctx, case):
    a, k = case
    x = build(a)
    p = parts(a)
    ctx.nontrivial(sum(i != 0 for i in p) > 1)
    obsf = obs_dd if a[0] == "DateDelta" else obs_dtd
    cut = (lambda t: tuple(t[:2])) if a[0] == "DateDelta" else tuple
    eq(obsf(-x), cut([-i for i in p]), f"-{x!r}")
    eq(obsf(+x), cut(p), f"+{x!r}")
    eq(obsf(abs(x)), cut([abs(i) for i in p]), f"abs({x!r})")
    eq(obsf(-(-x)), cut(p), f"--{x!r}")
    eq(bool(x), any(p), f"bool({x!r})")
    judge(cut([i * k for i in p]), lambda: x * k, obsf, f"{x!r} * {k}")
    judge(cut([i * k for i in p]), lambda: k * x, obsf, f"{k} * {x!r}")
    expect_raises(TypeError, lambda: x * 1.5, f"{x!r} * 1.5")
    twin = build(a)
    true(twin == x and hash(twin) == hash(x), f"two equal durations {x!r}")
    if a[0] == "DateDelta":
        y, m, d = x.in_years_months_days()
        eq((y * 12 + m, d), tuple(p[:2]), f"{x!r}.in_years_months_days()")
        true(abs(m) < 12 and sgn(y, m) is not None, f"{x!r}.in_years_months_days() = {(y, m, d)}")
        eq(tuple(map(type, (y, m, d))), (int, int, int), "types of parts")
        eq(tuple(x.in_months_days()), tuple(p[:2]), f"{x!r}.in_months_days()")
        eq(obs_dd(W.DateDelta(years=y, months=m, days=d)), tuple(p[:2]), "rebuilt")
    else:
        mo, d, s, n = x.in_months_days_secs_nanos()
        eq((mo, d, s * NS + n), p, f"{x!r}.in_months_days_secs_nanos() = {(mo, d, s, n)}")
        true(abs(n) < NS and sgn(s, n) is not None, f"{x!r}.in_months_days_secs_nanos() = {(mo, d, s, n)}")
        eq(obs_dd(x.date_part()), p[:2], "date_part")
        eq(obs_td(x.time_part()), p[2], "time_part")
        eq(obs_dtd(x.date_part() + x.time_part()), p, "sum of the parts")
        eq(x.date_part() + x.time_part() == x, True, "sum of the parts == the whole")


@check("C09", lambda: st.tuples(delta, st.lists(st.tuples(pick("+", "-", "r-", "*", "neg", "abs", "r+"), delta, ints(-3, 3)), min_size=1, max_size=8)),
       quick=8000, rule="at least one operation of the history is refused and a later one succeeds")
def history(ctx, case):
    """sequences of operations follow the componentwise model; refused steps leave the value alone"""
    a, steps = case
    x, p = build(a), parts(a)
    refused = False
    for op, b, k in steps:
        y, q = build(b), parts(b)
        if op in "+r+":
            w, f = tuple(i + j for i, j in zip(p, q)), (lambda: x + y) if op == "+" else (lambda: y + x)
        elif op == "-":
            w, f = tuple(i - j for i, j in zip(p, q)), lambda: x - y
        elif op == "r-":
            w, f = tuple(j - i for i, j in zip(p, q)), lambda: y - x
        elif op == "*":
            w, f = tuple(i * k for i in p), lambda: x * k
        elif op == "neg":
            w, f = tuple(-i for i in p), lambda: -x
        else:
            w, f = tuple(abs(i) for i in p), lambda: abs(x)
        if valid(*w):
            ctx.nontrivial(refused)
            z = f()
            eq(check_shape(z), w, f"{op} on {x!r} with {y!r} / {k}")
            x, p = z, w
        else:
            refused = True
            expect_raises(RANGE, f, f"{op} on {x!r} with {y!r} / {k}")
            eq(check_shape(x), p, "operand after a refused operation")
