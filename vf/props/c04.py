"""C04: zoned arithmetic."""
from .common import *

small = weighted((3, st.just(0)), (4, ints(-15, 15)), (1, ints(-500, 500)))
big_y = weighted((4, st.just(0)), (3, ints(-5, 5)), (1, ints(-10000, 10000)))
exact_part = weighted((3, st.just(0)), (3, ints(-50, 50).map(lambda h: h * 1800 * NS)), (2, gen.small_td_ns), (1, gen.td_ns))


@st.composite
def _shift(draw):
    """zoned start and [years, months, weeks, days, exact ns], aimed so that the result of the
    calendar part lands near a transition"""
    key, n = draw(gen.zoned)
    amounts = [draw(big_y), draw(small), draw(small), draw(small)]
    if draw(ints(0, 2)):
        # choose the start so that the calendar shift ends at this transition-biased value
        o = tz.zone(key).offset_at(n // NS)
        y, m, d, t = cal.split_local(n + o * NS)
        j = draw(ints(0, 3))
        if j:
            # pick a target local time in or around the transition instead
            k2, y, m, d, t = draw(gen.zone_local)
            key = k2
        r = cal.shift_date(y, m, d, 0, -(amounts[2] * 7 + amounts[3]))
        if r:
            r = cal.shift_date(*r, -(amounts[0] * 12 + amounts[1]), 0)
        if r:
            try:
                n, _ = model.resolve(key, cal.local_ns(*r, t), draw(pick("earlier", "later")))
            except model.Refused:
                pass
        try:
            n, _ = model.at(key, n)
        except model.Refused:
            n = 0
    return [key, n, amounts, draw(exact_part), draw(weighted((2, st.just(None)), (3, gen.disambig))), draw(ints(0, 9))]


@st.composite
def _month_end(draw):
    """a start on one of the last days of a month and a number of months to a shorter one"""
    key, n = draw(gen.zoned_mid)
    o = tz.zone(key).offset_at(n // NS)
    y, m, d, t = cal.split_local(n + o * NS)
    m0 = draw(pick(1, 3, 5, 7, 8, 10, 12, 1, 3, 2))
    y = min(max(y, 2), 9998)
    r = [y, m0, cal.dim(y, m0) - draw(weighted((4, st.just(0)), (1, ints(0, 2)))), t]
    k = draw(pick(2, 2, 4, 6, 9, 11)) - m0 + 12 * draw(weighted((3, ints(-3, 3)), (1, ints(-60, 60))))
    yy = draw(weighted((2, st.just(0)), (1, ints(-5, 5))))
    try:
        n, _ = model.resolve(key, cal.local_ns(*r), draw(pick("earlier", "later")))
    except model.Refused:
        n = 0
    return [key, n, [yy, k - 12 * yy, draw(weighted((3, st.just(0)), (1, ints(-2, 2)))), draw(small)], draw(exact_part),
            draw(weighted((2, st.just(None)), (3, gen.disambig))), draw(ints(0, 9))]


def units_of(ns):
    """split exact ns over keyword units (same sum)"""
    h, r = divmod(ns, 3600 * NS)
    mi, r = divmod(r, 60 * NS)
    s, r = divmod(r, NS)
    ms, r = divmod(r, 10**6)
    us, r = divmod(r, 1000)
    return {"hours": h, "minutes": mi, "seconds": s, "milliseconds": ms, "microseconds": us, "nanoseconds": r}


@check("C04", _shift, quick=32000, rule="the date part of the result is shifted and the shifted local time is repeated or skipped, or an exact part crosses an offset change")
def shift(ctx, case):
    key, n, (yy, mm, ww, dd_), ns, dis, how = case
    x = zoned_via(key, n, how)
    sub = how % 2 == 1
    sg = -1 if sub else 1
    months, days = yy * 12 + mm, ww * 7 + dd_
    kw = {} if dis is None else {"disambiguate": dis}
    # argument signs are flipped for subtract so that the same model applies
    au = {k: sg * v for k, v in units_of(ns).items()} if how < 6 else {"nanoseconds": sg * ns}
    cu = {"years": sg * yy, "months": sg * mm, "weeks": sg * ww, "days": sg * dd_}
    form = "kwargs"
    if how in (4, 5, 6, 7):
        same = (months >= 0 and days >= 0 and ns >= 0) or (months <= 0 and days <= 0 and ns <= 0)
        if same and abs(months) <= MAX_MONTHS and abs(days) <= MAX_DAYS:
            form = "delta"
    elif how in (8, 9):
        form = "operators"
    expect = lambda: model.shift_zoned(key, n, months, days, ns, dis)
    name = "subtract" if sub else "add"
    if form == "kwargs":
        args = {k: v for k, v in {**cu, **au}.items() if v or how == 0}
        f = lambda x=x: getattr(x, name)(**args, **kw)
        what = f"{x!r}.{name}({args}, {dis})"
    elif form == "delta":
        d = W.DateTimeDelta(months=sg * months, days=sg * days, nanoseconds=sg * ns)
        if ns == 0 and how < 6:
            d = d.date_part()
        f = lambda x=x: getattr(x, name)(d, **kw)
        what = f"{x!r}.{name}({d!r}, {dis})"
    else:
        dis = None
        if abs(months) > MAX_MONTHS or abs(days) > MAX_DAYS:
            return
        if not ((months >= 0 and days >= 0) or (months <= 0 and days <= 0)):
            days = 0
        dd2, td = W.DateDelta(months=sg * months, days=sg * days), tdns(sg * ns)
        what = f"{x!r} {'-' if sub else '+'} {dd2!r} then {td!r}"
        f = (lambda x=x: (x - dd2) - td) if sub else (lambda x=x: (x + dd2) + td)
    ctx.label(form)
    prime(x, f)
    res = judge_zoned(key, expect, f, what)
    if res in ("skipped", "repeated"):
        ctx.nontrivial(label=res)
    if res == "ok":
        o = tz.zone(key).offset_at(n // NS)
        n1, o1 = model.shift_zoned(key, n, months, days, 0, dis)
        y, m, d, t = cal.split_local(n + o * NS)
        tgt = cal.local_ns(*cal.shift_date(y, m, d, months, days), t)
        kind = tz.zone(key).resolve(tgt // NS)[0]
        ctx.nontrivial(bool(months or days) and kind != "unique", kind)
        if ns and o1 != expect()[1]:
            ctx.nontrivial(label="exact part crosses a transition")
        if months or days:
            ctx.label("calendar shift")


@check("C04", lambda: st.tuples(gen.zoned, gen.disambig, ints(0, ROUTES - 1), ints(0, 9)), quick=6000,
       rule="the start is a repeated local time or within a day of a transition")
def zero_shift(ctx, case):
    (key, n), dis, route, how = case
    x = zoned_via(key, n, route)
    o = tz.zone(key).offset_at(n // NS)
    ctx.nontrivial(bool(tz.zone(key).transitions(n // NS - DAY_S, n // NS + DAY_S)))
    f = [lambda: x.add(), lambda: x.add(days=0, disambiguate=dis), lambda: x.add(months=12, years=-1, disambiguate=dis),
         lambda: x.add(weeks=1, days=-7), lambda: x + W.days(0), lambda: x - W.years(0), lambda: x.subtract(hours=0),
         lambda: x.add(W.DateTimeDelta.ZERO if hasattr(W.DateTimeDelta, "ZERO") else W.DateTimeDelta(), disambiguate=dis),
         lambda: x.add(hours=1).subtract(hours=1), lambda: x.subtract(W.hours(0))][how]
    try:
        model.at(key, n + 3600 * NS)
    except model.Refused:
        return
    got = f()
    eq(obs_zoned(got), (n, o, key), f"zero shift #{how} of {x!r}")
    true(got.exact_eq(x), f"zero shift of {x!r} is not strictly equal")


@check("C04", lambda: st.tuples(gen.zoned, dd, gen.small_td_ns, gen.disambig), quick=6000, rule="the shift is not zero")
def forms_agree(ctx, case):
    """keywords, delta argument and operators are the same operation"""
    (key, n), (mo, d), ns, dis = case
    x = mk_zoned(key, n)
    if (mo or d) and ns and ((mo > 0 or d > 0) != (ns > 0)):
        ns = -ns
    ctx.nontrivial(bool(mo or d or ns))
    D = W.DateTimeDelta(months=mo, days=d, nanoseconds=ns)

    def res(f):
        k, v = outcome(f)
        return ("ok", obs_zoned(v)) if k == "ok" else ("err", isinstance(v, RANGE), type(v).__name__ in ("SkippedTime", "RepeatedTime"))

    a = res(lambda: x.add(months=mo, days=d, nanoseconds=ns))
    eq(res(lambda: x.add(D)), a, f"{x!r}.add({D!r}) vs keywords")
    eq(res(lambda: x + D), a, f"{x!r} + {D!r} vs keywords")
    eq(res(lambda: x - (-D)), a, f"{x!r} - (-{D!r}) vs keywords")
    eq(res(lambda: x.subtract(-D)), a, f"{x!r}.subtract(-{D!r}) vs keywords")
    eq(res(lambda: x.subtract(months=-mo, days=-d, nanoseconds=-ns)), a, "subtract keywords")
    b = res(lambda: x.add(months=mo, days=d, nanoseconds=ns, disambiguate=dis))
    eq(res(lambda: x.add(D, disambiguate=dis)), b, f"{x!r}.add({D!r}, {dis}) vs keywords")
    eq(res(lambda: x.subtract(-D, disambiguate=dis)), b, f"subtract with {dis}")


small_shift = st.tuples(st.lists(ints(-2, 2), min_size=4, max_size=4), exact_part, weighted((2, st.just(None)), (3, gen.disambig)), ints(0, 9))
both_sides("C04", shift, lambda key, n, e: (key, n, *e), small_shift)


@check("C04", _month_end, quick=8000, rule="as in shift, or month clamping applies")
def month_ends(ctx, case):
    key, n, (yy, mm, ww, dd_), *_ = case
    y, m, d, t = cal.split_local(n + tz.zone(key).offset_at(n // NS) * NS)
    r = cal.add_months(y, m, d, yy * 12 + mm)
    ctx.nontrivial(r is not None and r[2] != d, "clamped")
    shift(ctx, case)
