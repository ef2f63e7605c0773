"""C06: calendar arithmetic on dates, local and fixed-offset datetimes."""
from .common import *
from .c04 import units_of, big_y, small

days_amt = weighted((3, st.just(0)), (4, ints(-40, 40)), (2, ints(-800, 800)), (1, ints(-4 * 10**6, 4 * 10**6)))
weeks_amt = weighted((4, st.just(0)), (3, ints(-10, 10)), (1, ints(-600000, 600000)))
months_amt = weighted((3, st.just(0)), (4, ints(-25, 25)), (1, ints(-130000, 130000)))
cal_shift = st.tuples(big_y, months_amt, weeks_amt, days_amt)
exact = weighted((3, st.just(0)), (2, gen.small_td_ns), (1, gen.td_ns), (2, ints(-50, 50).map(lambda h: h * 1800 * NS)))


def uniform(*xs):
    return all(x >= 0 for x in xs) or all(x <= 0 for x in xs)


def delta_ok(mo, d):
    return uniform(mo, d) and abs(mo) <= MAX_MONTHS and abs(d) <= MAX_DAYS


def near_limit_date():
    return weighted((6, gen.date), (1, ints(0, 800).map(lambda i: list(cal.from_day_number(cal.MIN_DAY + i)))),
                    (1, ints(0, 800).map(lambda i: list(cal.from_day_number(cal.MAX_DAY - i)))))


@check("C06", lambda: st.tuples(near_limit_date(), cal_shift, ints(0, 7)), quick=30000,
       rule="month clamping applies, or both month and day parts are non-zero, or the result is out of range")
def date_shift(ctx, case):
    d0, (yy, mm, ww, dd_), how = case
    x = mk_date(d0)
    mo, d = yy * 12 + mm, ww * 7 + dd_
    r = cal.shift_date(*d0, mo, d)
    mid = cal.add_months(*d0, mo)
    clamped = mid is not None and mid[2] != d0[2]
    ctx.nontrivial(clamped, "clamped")
    ctx.nontrivial(bool(mo and d) or r is None, "range" if r is None else None)
    sub = how % 2
    sg = -1 if sub else 1
    cu = {k: sg * v for k, v in dict(years=yy, months=mm, weeks=ww, days=dd_).items() if v or how < 2}
    forms = [lambda: (x.subtract if sub else x.add)(**cu)]
    if delta_ok(mo, d):
        D = W.DateDelta(months=sg * mo, days=sg * d)
        forms.append(lambda: x - D if sub else x + D)
        forms.append(lambda: (x.subtract if sub else x.add)(D))
    for f in forms:
        what = f"{x!r} shifted by {case[1]} (form {how})"
        if r is None:
            # a transient overflow is an error as well
            expect_raises(RANGE, f, what)
        else:
            eq(obs_date(f()), tuple(r), what)


@check("C06", lambda: st.tuples(gen.local, cal_shift, exact, ints(0, 5)), quick=24000,
       rule="calendar and exact parts both non-zero, or clamping, or out of range")
def local_shift(ctx, case):
    l, (yy, mm, ww, dd_), ns, how = case
    x = mk_local(l)
    mo, d = yy * 12 + mm, ww * 7 + dd_
    r = cal.shift_date(*l[:3], mo, d)
    want = None
    if r is not None:
        w = cal.local_ns(*r, l[3]) + ns
        if cal.in_range(w):
            want = tuple(cal.split_local(w))
    mid = cal.add_months(*l[:3], mo)
    ctx.nontrivial(mid is not None and mid[2] != l[2], "clamped")
    ctx.nontrivial(bool((mo or d) and ns) or want is None, "range" if want is None else None)
    sub = how % 2
    sg = -1 if sub else 1
    meth = x.subtract if sub else x.add
    cu = {k: sg * v for k, v in dict(years=yy, months=mm, weeks=ww, days=dd_).items() if v}
    au = {k: v for k, v in units_of(sg * ns).items() if v}
    forms = [lambda: meth(**cu, **au, ignore_dst=True)]
    if delta_ok(mo, d):
        D = W.DateDelta(months=sg * mo, days=sg * d)
        if ns == 0:
            forms += [lambda: meth(D), lambda: (x - D if sub else x + D), lambda: meth(**cu)]
        elif uniform(mo, d, ns):
            DT = W.DateTimeDelta(months=sg * mo, days=sg * d, nanoseconds=sg * ns)
            forms.append(lambda: meth(DT, ignore_dst=True))
        if mo == d == 0:
            forms.append(lambda: meth(tdns(sg * ns), ignore_dst=True))
    for i, f in enumerate(forms):
        what = f"{x!r} {'-' if sub else '+'} {case[1]} and {ns} ns (form {i})"
        if want is None:
            expect_raises(RANGE, f, what)
        else:
            eq(obs_local(f()), want, what)


@check("C06", lambda: st.tuples(gen.offset_dt, cal_shift, exact, ints(0, 5)), quick=16000,
       rule="calendar and exact parts both non-zero, or clamping, or out of range")
def offset_shift(ctx, case):
    (o, n), (yy, mm, ww, dd_), ns, how = case
    x = mk_offset(o, n)
    y, m, dd0, t = cal.split_local(n + o * NS)
    mo, d = yy * 12 + mm, ww * 7 + dd_
    r = cal.shift_date(y, m, dd0, mo, d)
    want, transient = None, False
    if r is not None:
        w0 = cal.local_ns(*r, t)
        w = w0 + ns
        if cal.in_range(w) and cal.in_range(w - o * NS):
            want = (w - o * NS, o)
            transient = not cal.in_range(w0 - o * NS)
    mid = cal.add_months(y, m, dd0, mo)
    ctx.nontrivial(mid is not None and mid[2] != dd0, "clamped")
    ctx.nontrivial(bool((mo or d) and ns) or want is None, "range" if want is None else None)
    sub = how % 2
    sg = -1 if sub else 1
    meth = x.subtract if sub else x.add
    cu = {k: sg * v for k, v in dict(years=yy, months=mm, weeks=ww, days=dd_).items() if v}
    au = {k: v for k, v in units_of(sg * ns).items() if v}
    forms = [lambda: meth(**cu, **au, ignore_dst=True)]
    if delta_ok(mo, d) and uniform(mo, d, ns):
        DT = W.DateTimeDelta(months=sg * mo, days=sg * d, nanoseconds=sg * ns)
        forms.append(lambda: meth(DT, ignore_dst=True))
        if ns == 0:
            forms.append(lambda: meth(DT.date_part(), ignore_dst=True))
        if mo == d == 0:
            forms.append(lambda: meth(DT.time_part(), ignore_dst=True))
    for i, f in enumerate(forms):
        what = f"{x!r} {'-' if sub else '+'} {case[1]} and {ns} ns (form {i})"
        if want is None:
            expect_raises(RANGE, f, what)
        elif transient:
            k, v = outcome(f)
            if k == "err":
                true(isinstance(v, RANGE), f"{what}: {v!r}")
            else:
                eq(obs_offset(v), want, what)
        else:
            eq(obs_offset(f()), want, what)


@st.composite
def _month_end(draw):
    y = draw(gen.years)
    m = draw(pick(1, 3, 5, 7, 8, 10, 12, 1, 3, 2, 4, 11))
    d = cal.dim(y, m) - draw(weighted((4, st.just(0)), (1, ints(0, 2))))
    # to a shorter month, by way of years as well
    m2 = draw(pick(2, 2, 4, 6, 9, 11))
    k = m2 - m + 12 * draw(weighted((3, ints(-3, 3)), (1, ints(-500, 500))))
    yy = draw(weighted((2, st.just(0)), (1, st.just(int(k / 12))), (1, ints(-5, 5))))
    dd_ = draw(weighted((2, st.just(0)), (2, ints(-3, 3)), (1, ints(-70, 70))))
    ww = draw(weighted((3, st.just(0)), (1, ints(-2, 2))))
    return [[y, m, d], [yy, k - 12 * yy, ww, dd_], draw(gen.tod), draw(gen.offset), draw(weighted((2, st.just(0)), (1, gen.small_td_ns))), draw(ints(0, 7))]


@check("C06", _month_end, quick=10000, rule="month clamping applies")
def month_ends(ctx, case):
    d0, amt, t, o, ns, how = case
    date_shift(ctx, [d0, amt, how])
    local_shift(ctx, [[*d0, t], amt, ns, how % 6])
    n = cal.local_ns(*d0, t) - o * NS
    if cal.in_range(n):
        offset_shift(ctx, [[o, n], amt, ns, how % 6])


@check("C06", lambda: st.tuples(near_limit_date(), near_limit_date()), quick=12000, rule="the dates differ")
def calendar_facts(ctx, case):
    a, b = case
    x, y = mk_date(a), mk_date(b)
    na, nb = cal.day_number(*a), cal.day_number(*b)
    ctx.nontrivial(na != nb)
    wd = x.day_of_week()
    true(isinstance(wd, W.Weekday), "day_of_week() type")
    eq(wd.value, cal.weekday(na), f"{x!r}.day_of_week()")
    names = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]
    eq(wd.name, names[cal.weekday(na) - 1], f"{x!r}.day_of_week() name")
    eq(x.days_since(y), na - nb, f"{x!r}.days_since({y!r})")
    eq(x.days_until(y), nb - na, f"{x!r}.days_until({y!r})")
    eq(obs_date(y.add(days=x.days_since(y))), tuple(a), "adding days_since")
    eq(obs_date(x.add(days=x.days_until(y))), tuple(b), "adding days_until")


@check("C06", lambda: st.tuples(gen.years, ints(-1, 2), ints(0, 27)), quick=4000,
       rule="a leap year or a century is among the years walked through")
def year_walk(ctx, case):
    """the days between, the weekdays and the lengths of all months of up to three successive years"""
    y0, back, dd = case
    ys = [y for y in range(y0 - max(back, 0), y0 + 2) if 1 <= y <= 9999]
    x = W.Date(y0, 1 + dd % 12, 1 + dd)
    nx = cal.day_number(y0, 1 + dd % 12, 1 + dd)
    ctx.nontrivial(any(y % 4 == 0 for y in ys), "century" if any(y % 100 == 0 for y in ys) else None)
    for y in ys:
        for m in range(1, 13):
            last = cal.dim(y, m)
            for d in (1, last):
                q = W.Date(y, m, d)
                n = cal.day_number(y, m, d)
                eq((x.days_until(q), x.days_since(q)), (n - nx, nx - n), f"days from {x!r} to {q!r}")
                eq((q.days_until(x), q.days_since(x)), (nx - n, n - nx), f"days from {q!r} to {x!r}")
                eq(q.day_of_week().value, cal.weekday(n), f"weekday of {q!r}")
            nxt = q.add(days=1) if (y, m) != (9999, 12) else None
            if nxt is not None:
                eq(obs_date(nxt), (y, m + 1, 1) if m < 12 else (y + 1, 1, 1), f"the day after {q!r}")
                eq(obs_date(nxt.subtract(days=1)), (y, m, last), f"the day before {nxt!r}")
                eq(obs_date(q.add(months=1)), (y + m // 12, m % 12 + 1, min(last, cal.dim(y + m // 12, m % 12 + 1))), f"a month after {q!r}")
            if (y, m) != (1, 1):
                py, pm = (y, m - 1) if m > 1 else (y - 1, 12)
                eq(obs_date(q.subtract(months=1)), (py, pm, min(last, cal.dim(py, pm))), f"a month before {q!r}")
            expect_raises(ValueError, lambda: W.Date(y, m, last + 1), f"Date({y}, {m}, {last + 1})")


@check("C06", lambda: st.tuples(ints(-2, 10001), ints(-1, 14), ints(-1, 33)), quick=6000,
       rule="the triple is not a date")
def date_validity(ctx, case):
    """exactly the proleptic Gregorian dates 0001-01-01..9999-12-31 exist"""
    y, m, d = case
    if y % 3 == 0:
        y = [0, 1, 9999, 10000, 1900, 2000, 2024, 2023][y % 8]
    if y % 5 == 0:
        m, d = 2, 26 + d % 6
    ok = 1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= cal.dim(y, m)
    ctx.nontrivial(not ok, "valid" if ok else "invalid")
    if ok:
        eq(obs_date(W.Date(y, m, d)), (y, m, d), "Date fields")
    else:
        expect_raises(ValueError, lambda: W.Date(y, m, d), f"Date({y},{m},{d})")
    if 1 <= m <= 12 and 1 <= d <= cal.dim(2000, m):
        md_ = W.MonthDay(m, d)
        eq(md_.is_leap(), (m, d) == (2, 29), "is_leap")
        if 1 <= y <= 9999:
            if ok:
                eq(obs_date(md_.in_year(y)), (y, m, d), f"{md_!r}.in_year({y})")
            else:
                expect_raises(ValueError, lambda: md_.in_year(y), f"{md_!r}.in_year({y})")
    else:
        expect_raises(ValueError, lambda: W.MonthDay(m, d), f"MonthDay({m},{d})")
    if 1 <= m <= 12 and 1 <= y <= 9999:
        ym_ = W.YearMonth(y, m)
        if ok:
            eq(obs_date(ym_.on_day(d)), (y, m, d), f"{ym_!r}.on_day({d})")
        else:
            expect_raises(ValueError, lambda: ym_.on_day(d), f"{ym_!r}.on_day({d})")
    else:
        expect_raises(ValueError, lambda: W.YearMonth(y, m), f"YearMonth({y},{m})")


@check("C06", lambda: st.tuples(gen.local, gen.offset, frac_amounts, ints(-3000, 3000)), quick=6000,
       rule="some amount is not a whole number of its unit")
def fractional_units(ctx, case):
    """exact units given as floats move the clock of local and fixed-offset values by their exact value"""
    l, o, amounts, k = case
    l[0] = min(max(l[0], 600), 9400)
    l[2] = min(l[2], 28)
    kw, d = frac_kwargs(amounts)
    d += k
    ctx.nontrivial(any(a % 1 for a in kw.values()))
    n = cal.local_ns(*l)
    x = mk_local(l)
    z = x.assume_fixed_offset(W.seconds(o))
    td = W.TimeDelta(**kw, nanoseconds=k)
    kw["nanoseconds"] = k
    for sg, meth in ((1, "add"), (-1, "subtract")):
        want = cal.split_local(n + sg * d)
        what = f"{x!r}.{meth}({kw})"
        eq(obs_local(getattr(x, meth)(**kw, ignore_dst=True)), tuple(want), what)
        eq(obs_local(getattr(x, meth)(td, ignore_dst=True)), tuple(want), f"{what} as a delta")
        eq(obs_offset(getattr(z, meth)(**kw, ignore_dst=True)), (n + sg * d - o * NS, o), f"{what} at {o}")
        eq(obs_offset(getattr(z, meth)(td, ignore_dst=True)), (n + sg * d - o * NS, o), f"{what} as a delta at {o}")


@st.composite
def _two_locals(draw):
    a = draw(gen.local)
    j = draw(ints(0, 3))
    if j == 0:
        return [a, draw(gen.local)]
    n = cal.local_ns(*a)
    if j == 1:    # some days and about a second apart
        n += draw(ints(-40, 40)) * DAY_NS + draw(pick(0, NS, -NS, 86399 * NS)) + draw(ints(-5, 5))
    else:
        n += draw(gen.small_td_ns)
    return [a, list(cal.split_local(clampn(n)))]


@check("C06", _two_locals, quick=10000, rule="the nanoseconds of one are before and the seconds after those of the other")
def local_difference(ctx, case):
    """the difference of two local datetimes is the distance between their clocks, and undoes a shift"""
    a, b = case
    x, y = mk_local(a), mk_local(b)
    d = cal.local_ns(*a) - cal.local_ns(*b)
    ctx.nontrivial((a[3] % NS - b[3] % NS) * d < 0, "borrow")
    eq(obs_td(x.difference(y, ignore_dst=True)), d, f"{x!r}.difference({y!r})")
    eq(obs_td(y.difference(x, ignore_dst=True)), -d, f"{y!r}.difference({x!r})")
    D = x.difference(y, ignore_dst=True)
    eq(obs_local(y.add(D, ignore_dst=True)), tuple(a), f"{y!r} + ({x!r} - {y!r})")
    eq(obs_local(x.subtract(D, ignore_dst=True)), tuple(b), f"{x!r} - ({x!r} - {y!r})")
