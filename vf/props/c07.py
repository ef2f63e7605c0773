"""C07: date difference law."""
from .common import *


@st.composite
def _pair(draw):
    a = draw(gen.date)
    j = draw(ints(0, 7))
    if j >= 6:      # both at the end, or the beginning, of some month
        out = []
        short, long_ = pick(2, 2, 2, 3, 4, 6, 9, 11), pick(1, 2, 3, 3, 5, 7, 8, 10, 12)
        for y, ms in ((a[0], short), (min(max(a[0] + draw(weighted((3, ints(-5, 5)), (1, ints(-200, 200)))), 1), 9999), long_)):
            m = draw(ms)
            n = cal.dim(y, m)
            out.append([y, m, draw(weighted((3, ints(n - 3, n)), (1, ints(1, 3))))])
        return out if draw(ints(0, 3)) else out[::-1]
    if j <= 1:
        return [a, draw(gen.date)]
    if j <= 3:
        n = min(max(cal.day_number(*a) + draw(weighted((3, ints(-62, 62)), (2, ints(-800, 800)))), cal.MIN_DAY), cal.MAX_DAY)
        return [a, list(cal.from_day_number(n))]
    # same or neighbouring day of month in another month
    r = cal.add_months(*a, draw(ints(-40, 40))) or a
    n = min(max(cal.day_number(*r) + draw(ints(-3, 3)), cal.MIN_DAY), cal.MAX_DAY)
    return [a, list(cal.from_day_number(n))]


@check("C07", _pair, quick=60000, rule="the month arithmetic from the second date towards the first is clamped at a month end, or days remain after whole months")
def difference_law(ctx, case):
    a, b = case
    x, y = mk_date(a), mk_date(b)
    D = x - y
    mo, d = obs_dd(D)
    na, nb = cal.day_number(*a), cal.day_number(*b)
    s = (na > nb) - (na < nb)
    eq((x.days_since(y), x.days_until(y)), (na - nb, nb - na), f"days between {y!r} and {x!r}")
    # oracle: greatest |months| in direction s such that b + months does not pass a
    k = s * abs((a[0] - b[0]) * 12 + a[1] - b[1])
    while True:
        r = cal.add_months(*b, k)
        if r is not None and (na - cal.day_number(*r)) * s >= 0:
            break
        k -= s
    rest = na - cal.day_number(*r)
    ctx.nontrivial(r[2] != b[2], "clamped")
    ctx.nontrivial(bool(k and rest), "months and days")
    eq((mo, d), (k, rest), f"{x!r} - {y!r} (months, days)")
    eq(obs_date(y + D), tuple(a), f"{y!r} + ({x!r} - {y!r})")
    eq(obs_date(y.add(D)), tuple(a), "add(difference)")
    eq(obs_date(y.subtract(-D)), tuple(a), "subtract(-difference)")
    eq(bool(D), na != nb, "truth value of the difference")
    true(mo * d >= 0, f"mixed signs in {D!r}")
    ymd = D.in_years_months_days()
    eq(ymd[0] * 12 + ymd[1], k, "years and months of the difference")
    true(all(v * s >= 0 for v in ymd), f"mixed signs in {ymd}")
