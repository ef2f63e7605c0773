"""Reference calendar and clock arithmetic on plain integers (no datetime, no library under test).

Dates are proleptic Gregorian; day number 0 is 1970-01-01.  All sub-day amounts are integer
nanoseconds.
"""

NS = 1_000_000_000
DAY_S = 86_400
DAY_NS = DAY_S * NS
HOUR_NS = 3600 * NS
MIN_NS = 60 * NS


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    if m == 2:
        return 29 if is_leap(y) else 28
    return 30 if m in (4, 6, 9, 11) else 31


_CUM = [0]
for _m in range(1, 13):
    _CUM.append(_CUM[-1] + dim(2001, _m))


def days_before_year(y):
    """days from 0001-01-01 to y-01-01"""
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400


_EPOCH = days_before_year(1970)


def day_number(y, m, d):
    return days_before_year(y) + _CUM[m - 1] + (m > 2 and is_leap(y)) + d - 1 - _EPOCH


def from_day_number(n):
    n += _EPOCH
    # year estimate then correct
    y = n * 400 // 146097 + 1
    while days_before_year(y) > n:
        y -= 1
    while days_before_year(y + 1) <= n:
        y += 1
    r = n - days_before_year(y)
    m = 1
    while r >= dim(y, m):
        r -= dim(y, m)
        m += 1
    return y, m, r + 1


MIN_DAY = day_number(1, 1, 1)
MAX_DAY = day_number(9999, 12, 31)
MIN_S = MIN_DAY * DAY_S
MAX_S = (MAX_DAY + 1) * DAY_S - 1
MIN_NS_TS = MIN_S * NS
MAX_NS_TS = MAX_S * NS + NS - 1


def weekday(n):
    """ISO weekday 1..7 of a day number (1970-01-01 was a Thursday)."""
    return (n + 3) % 7 + 1


def add_months(y, m, d, k):
    """month arithmetic with truncation to the month's end; None when outside 1..9999"""
    t = y * 12 + (m - 1) + k
    y2, m2 = divmod(t, 12)
    m2 += 1
    if not 1 <= y2 <= 9999:
        return None
    return y2, m2, min(d, dim(y2, m2))


def shift_date(y, m, d, months, days):
    """months first (clamped), then days; None when an intermediate or final date is out of range"""
    r = add_months(y, m, d, months)
    if r is None:
        return None
    n = day_number(*r) + days
    if not MIN_DAY <= n <= MAX_DAY:
        return None
    return from_day_number(n)


def split_ns(t):
    """ns of day -> hour, minute, second, nanosecond"""
    s, ns = divmod(t, NS)
    mi, s = divmod(s, 60)
    h, mi = divmod(mi, 60)
    return h, mi, s, ns


def local_ns(y, m, d, t):
    """local ns since 1970-01-01T00:00 local"""
    return day_number(y, m, d) * DAY_NS + t


def split_local(n):
    """local ns -> (y, m, d, ns of day)"""
    dn, t = divmod(n, DAY_NS)
    return (*from_day_number(dn), t)


def in_range(n):
    return MIN_NS_TS <= n <= MAX_NS_TS


def round_int(n, inc, mode):
    """exact integer rounding of n to a multiple of inc"""
    q, r = divmod(n, inc)
    if r == 0:
        return n
    if mode == "floor":
        up = False
    elif mode == "ceil":
        up = True
    elif 2 * r != inc:
        up = 2 * r > inc
    elif mode == "half_floor":
        up = False
    elif mode == "half_ceil":
        up = True
    elif mode == "half_even":
        up = q % 2 == 1
    else:
        raise AssertionError(mode)
    return (q + up) * inc


# ------------------------------------------------------------------ canonical text

def fmt_date(y, m, d):
    return "%04d-%02d-%02d" % (y, m, d)


def fmt_time(t):
    h, mi, s, ns = split_ns(t)
    out = "%02d:%02d:%02d" % (h, mi, s)
    if ns:
        out += "." + ("%09d" % ns).rstrip("0")
    return out


def fmt_offset(o):
    sign = "-" if o < 0 else "+"
    o = abs(o)
    out = "%s%02d:%02d" % (sign, o // 3600, o // 60 % 60)
    if o % 60:
        out += ":%02d" % (o % 60)
    return out
