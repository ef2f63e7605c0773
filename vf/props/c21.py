"""C21: order, equality and hash of the local value types."""
import datetime as _dt
import operator

from .common import *

LOCAL_KINDS = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime"]
COMPARE = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def fields(v):
    k = v[0]
    if k == "Time":
        return cal.split_ns(v[1])
    if k == "LocalDateTime":
        return (*v[1:4], *cal.split_ns(v[4]))
    return tuple(v[1:])


def clampday(y, m, d):
    return min(d, cal.dim(y, m))


@st.composite
def _related(draw, kind):
    """a value and another that differs in few fields"""
    a = draw(any_value([kind]))
    if draw(ints(0, 4)) == 0:
        return [a, draw(any_value([kind]))]
    f = list(fields(a))
    for _ in range(draw(weighted((1, st.just(0)), (3, st.just(1)), (3, st.just(2)), (1, st.just(3))))):
        i = draw(ints(0, len(f) - 1))
        f[i] += draw(pick(1, -1, 1, -1, 2, -5, 999, -999, 1000, 1001, 10**6, -10**6))
    if kind in ("Date", "LocalDateTime"):
        f[0] = min(max(f[0], 1), 9999)
        f[1] = min(max(f[1], 1), 12)
        f[2] = min(max(f[2], 1), cal.dim(f[0], f[1]))
    elif kind == "YearMonth":
        f = [min(max(f[0], 1), 9999), min(max(f[1], 1), 12)]
    elif kind == "MonthDay":
        m = min(max(f[0], 1), 12)
        f = [m, min(max(f[1], 1), cal.dim(2000, m))]
    if kind in ("Time", "LocalDateTime"):
        t = f[-4:]
        t = [min(max(x, 0), hi) for x, hi in zip(t, (23, 59, 59, NS - 1))]
        t = ((t[0] * 60 + t[1]) * 60 + t[2]) * NS + t[3]
        f = [t] if kind == "Time" else [*f[:3], t]
    return [a, [kind, *f]]


def routed(v, route):
    """the value obtained along different public ways"""
    k = v[0]
    x = build(v)
    if k == "Date":
        return (x, W.Date.from_py_date(_dt.date(*v[1:])), W.LocalDateTime(*v[1:], 5).date(), W.YearMonth(v[1], v[2]).on_day(v[3]),
                W.Instant.from_utc(2020, 1, 1).to_fixed_offset(3).replace_date(x, ignore_dst=True).date() if 1 < v[1] < 9999 else x)[route % 5]
    if k == "YearMonth":
        return (x, W.Date(v[1], v[2], 28).year_month(), W.YearMonth.parse_common_iso(str(x)), W.Date(v[1], v[2], 1).year_month(), x)[route % 5]
    if k == "MonthDay":
        return (x, W.Date(2000, *v[1:]).month_day(), W.MonthDay.parse_common_iso(str(x)),
                W.Date(1904, *v[1:]).month_day(), x)[route % 5]
    l = v[1:] if k == "LocalDateTime" else [2021, 3, 4, v[1]]
    a, kw = local_args(l)
    us, sub = divmod(kw["nanosecond"], 1000)
    base = W.LocalDateTime.from_py_datetime(_dt.datetime(*a, us, fold=1)).add(nanoseconds=sub, ignore_dst=True)
    full = W.LocalDateTime(*a, **kw)
    d = (full, base, full.assume_utc().to_fixed_offset().local(), W.LocalDateTime.parse_common_iso(full.format_common_iso()),
         full.assume_tz("Europe/Amsterdam", disambiguate="later").local() if 1 < l[0] < 9999 else full)[route % 5]
    if obs_local(d) != tuple(l):
        d = full   # skipped in that zone
    if k == "LocalDateTime":
        return d
    if route == 5 and not sub:
        h, mi, s, _ = cal.split_ns(v[1])
        return W.Time.from_py_time(_dt.time(h, mi, s, us, fold=1))
    return d.time()


def judge(x, y, fx, fy, ctx):
    what = f"{x!r} and {y!r}"
    for nm, op in COMPARE.items():
        got = op(x, y)
        true(got is op(fx, fy), f"{what}: {nm} gave {got!r}")
        if nm != "!=":  # operands swapped
            true(op(y, x) is op(fy, fx), f"{what} swapped: {nm}")
    if fx == fy:
        eq(hash(x), hash(y), f"{what}: hash")
        true({x: 1}.get(y) == 1 and y in {x}, f"{what}: lookup")
    else:
        true({x: 1}.get(y) is None, f"{what}: lookup")


def pair_check(kind):
    def strategy():
        return st.tuples(_related(kind), ints(0, 5), ints(0, 5))

    def fn(ctx, case):
        (a, b), r1, r2 = case
        fx, fy = fields(a), fields(b)
        judge(routed(a, r1), routed(b, r2), fx, fy, ctx)
        ctx.nontrivial(sum(p != q for p, q in zip(fx, fy)) <= 2, "at most two fields differ")
        if kind in ("Time", "LocalDateTime"):
            ctx.nontrivial(fx[:-1] == fy[:-1] and fx != fy, "only the nanosecond differs")
    fn.__name__ = "pairs_" + kind
    return check("C21", strategy, quick=8000 if kind in ("Time", "LocalDateTime") else 4000,
                 rule="the values differ in at most two fields")(fn)


for _k in LOCAL_KINDS:
    pair_check(_k)


@st.composite
def _many(draw):
    kind = draw(st.sampled_from(LOCAL_KINDS))
    a, b = draw(_related(kind))
    out = [a, b]
    for _ in range(draw(ints(1, 6))):
        out += draw(_related(kind))
    return draw(st.permutations(out))


@check("C21", _many, quick=6000, rule="the list has at least four distinct values")
def sorting(ctx, case):
    xs = [build(v) for v in case]
    want = sorted(range(len(case)), key=lambda i: fields(case[i]))
    got = sorted(xs)
    for i, x in zip(want, got):
        eq(obs(x), obs(build(case[i])), "sorted order")
    eq(obs(max(xs)), obs(build(case[want[-1]])), "max()")
    eq(obs(min(xs)), obs(build(case[want[0]])), "min()")
    eq(len(set(xs)), len({fields(v) for v in case}), "number of distinct values in a set")
    cls = type(xs[0])
    lo = W.Time.MIDNIGHT if cls is W.Time else cls.MIN
    true(all(lo <= x <= cls.MAX for x in xs), "MIN <= x <= MAX")
    ctx.nontrivial(len({fields(v) for v in case}) >= 4, case[0][0])


def lookalikes(v, x):
    """values of other types that share their fields with x"""
    k = v[0]
    if k == "Date":
        y, m, d = v[1:]
        return [x.year_month(), x.month_day(), x.at(W.Time()), x.py_date(), (y, m, d), str(x), x.at(W.Time()).py_datetime(),
                W.YearMonth(y, m), W.MonthDay(m, d), x.at(W.Time()).assume_utc()]
    if k == "YearMonth":
        d = W.Date(v[1], v[2], 1)
        return [d, d.py_date(), str(x), tuple(v[1:]), d.at(W.Time()), d.month_day(), W.YearMonth(v[1], v[2]).on_day(28)]
    if k == "MonthDay":
        out = [str(x), tuple(v[1:]), (4, v[1], v[2])]
        for y in (4, 2000, 1904, 1, 1900, 1970):
            if v[2] <= cal.dim(y, v[1]):
                out += [W.Date(y, v[1], v[2]), _dt.date(y, v[1], v[2])]
        if v[2] == 1:
            out += [W.YearMonth(4, v[1]), W.YearMonth(2000, v[1])]
        return out
    if k == "Time":
        ns = v[1]
        return [x.py_time(), x.on(W.Date(1970, 1, 1)), tdns(ns), str(x), cal.split_ns(ns), x.on(W.Date(1, 1, 1)), x.on(W.Date(1, 1, 1)).py_datetime()]
    l = v[1:]
    out = [x.date(), x.time(), x.py_datetime(), x.assume_utc(), x.assume_utc().to_fixed_offset(), str(x), x.py_datetime().date()]
    if 1 < l[0] < 9999:
        out += [x.assume_tz("Etc/UTC"), x.assume_system_tz(), x.assume_fixed_offset(0)]
    return out


@check("C21", lambda: st.tuples(weighted((4, any_value(LOCAL_KINDS)), (1, ints(1, 12).map(lambda m: ["MonthDay", m, 1])),
                                         (1, md.map(lambda x: ["Date", 4, *x])), (1, ym.map(lambda x: ["Date", *x, 1])),
                                         (1, gen.date.map(lambda d: ["LocalDateTime", *d, 0]))),
                                any_value(ALL_KINDS), ints(0, 5)), quick=5000,
       rule="values of other types with the same fields, and a value of a random other type")
def other_types(ctx, case):
    a, b, route = case
    x = routed(a, route)
    ys = lookalikes(a, x)
    if b[0] != a[0]:
        ys.append(build(b))
    for y in ys:
        if type(y) is type(x):
            continue
        ctx.nontrivial(True, f"{a[0]}/{type(y).__name__}")
        what = f"{x!r} and {y!r}"
        true((x == y) is False and (x != y) is True, f"equality of {what}")
        true((y == x) is False and (y != x) is True, f"equality of {what} swapped")
        true(x not in {y: 1} and y not in {x: 1}, f"lookup of {what}")
        for nm in ("<", "<=", ">", ">="):
            expect_raises((TypeError,), lambda: COMPARE[nm](x, y), f"{nm} of {what}")
            expect_raises((TypeError,), lambda: COMPARE[nm](y, x), f"{nm} of {what} swapped")
