"""Hypothesis strategies producing plain JSON-able primitives, aimed at the interesting places."""
from hypothesis import strategies as st
from . import cal, tz
from .cal import NS, DAY_S, DAY_NS

ints = st.integers


def pick(*xs):
    return st.sampled_from(xs)


def weighted(*pairs):
    """one_of with integer weights"""
    ss = []
    for w, s in pairs:
        ss += [s] * w
    return ints(0, len(ss) - 1).flatmap(lambda i: ss[i])


# ---------------------------------------------------------------- dates and times

years = weighted((4, ints(1, 9999)), (3, ints(1890, 2100)), (1, pick(1, 2, 4, 100, 400, 1600, 1900, 1970, 1999, 2000, 2024, 9996, 9998, 9999)), (1, st.tuples(ints(1, 99), pick(0, 0, -1, 1)).map(lambda x: x[0] * 100 + x[1])))


@st.composite
def _date(draw):
    k = draw(ints(0, 9))
    if k < 4:
        y, m, d = cal.from_day_number(draw(ints(cal.MIN_DAY, cal.MAX_DAY)))
    elif k < 7:
        y = draw(years)
        m = draw(ints(1, 12))
        n = cal.dim(y, m)
        d = draw(weighted((2, ints(max(1, n - 3), n)), (1, ints(1, 3)), (1, ints(1, n))))
    elif k < 9:
        y = draw(weighted((2, years), (1, ints(1, 2499).map(lambda q: 4 * q)), (1, pick(1970, 1969, 2000, 1900, 2020))))
        m, d = draw(pick((12, 31), (2, 29), (1, 1), (3, 1), (2, 28), (12, 30), (1, 31), (11, 30), (6, 30)))
        d = min(d, cal.dim(y, m))
    else:
        y, m, d = cal.from_day_number(draw(weighted((1, ints(cal.MIN_DAY, cal.MIN_DAY + 40)), (1, ints(cal.MAX_DAY - 40, cal.MAX_DAY)))))
    return [y, m, d]


date = _date()
UNITS_NS = {"hour": 3600 * NS, "minute": 60 * NS, "second": NS, "millisecond": 10**6, "microsecond": 1000, "nanosecond": 1}


@st.composite
def _tod(draw):
    """ns of day"""
    k = draw(ints(0, 7))
    if k == 0:
        return draw(pick(0, 1, DAY_NS - 1, DAY_NS // 2, DAY_NS - 1000, 999, 1000))
    if k <= 2:
        return draw(ints(0, DAY_NS - 1))
    if k <= 4:
        return draw(ints(0, DAY_S - 1)) * NS
    u = draw(pick(3600 * NS, 1800 * NS, 60 * NS, NS, 500_000_000, 10**6, 1000))
    t = draw(ints(0, DAY_NS // u - 1)) * u + draw(pick(-1, 0, 1, u // 2, u // 2 - 1, u // 2 + 1, 500))
    return t % DAY_NS


tod = _tod()
nanos = weighted((2, pick(0, 1, 999_999_999, 500_000_000, 999, 1000, 1001, 999_999, 10**6)), (3, ints(0, NS - 1)), (1, ints(0, 999_999).map(lambda x: x * 1000)))

local = st.tuples(date, tod).map(lambda x: [*x[0], x[1]])  # y m d nsofday


@st.composite
def _offset(draw, minutes=False):
    k = draw(ints(0, 6))
    if k <= 2:
        o = draw(ints(-14, 14)) * 3600
    elif k == 3:
        o = draw(pick(0, 86399, -86399, 86340, -86340, 19800, 20700, 34200, -12600, 45900, 1, -1, 59, -59, 60, -60, 3599, -3599))
    elif k == 4:
        o = draw(ints(-1439, 1439)) * 60
    else:
        o = draw(ints(-86399, 86399))
    if minutes:
        o = int(o / 60) * 60
    return o


offset = _offset()
offset_min = _offset(minutes=True)

instant_ns = weighted(
    (3, ints(cal.MIN_S + 2 * DAY_S, cal.MAX_S - 2 * DAY_S).map(lambda s: s * NS)),
    (3, ints(cal.MIN_NS_TS, cal.MAX_NS_TS)),
    (2, st.tuples(ints(-2**31, 2**31), nanos).map(lambda x: x[0] * NS + x[1])),
    (2, local.map(lambda l: cal.local_ns(*l))),
    (1, ints(-3 * 10**9, 3 * 10**9)),
    (1, weighted((1, ints(0, 2 * DAY_NS).map(lambda x: cal.MIN_NS_TS + x)), (1, ints(0, 2 * DAY_NS).map(lambda x: cal.MAX_NS_TS - x)))),
)

tzkey = ints(0, 99).flatmap(lambda i: st.sampled_from(tz.notable()) if i < 60 else st.sampled_from(tz.all_keys()))


@st.composite
def _zoned(draw, extremes=True):
    """[tzkey, utc ns] biased to transitions; the local clock is guaranteed within years 1-9999"""
    key = draw(tzkey)
    pts = tz.aim_points(key)
    k = draw(ints(0, 9))
    if k < 7 and pts:
        u, a, b = pts[draw(ints(0, len(pts) - 1))]
        g = abs(a - b)
        j = draw(ints(0, 5))
        if j == 0:
            s = u + draw(pick(-1, 0, 1))
        elif j == 1:
            s = u + draw(pick(-g, g, -g - 1, g - 1, g + 1, -g + 1))
        elif j == 2:
            s = u + draw(ints(-2 * g - 3600, 2 * g + 3600))
        elif j == 3:
            s = u + draw(ints(-3 * DAY_S, 3 * DAY_S))
        elif j == 4:
            s = u + draw(pick(-DAY_S, DAY_S, -2 * DAY_S, 2 * DAY_S)) + draw(pick(0, g, -g, 1800, -1))
        else:
            s = u + draw(ints(-28, 28)) * 1800
        n = s * NS + draw(weighted((2, pick(0)), (1, nanos)))
    elif k < 9 or not extremes:
        n = draw(instant_ns)
        if draw(ints(0, 1)):  # as a local time
            n -= tz.zone(key).offset_at(n // NS) * NS
    else:
        n = draw(weighted((1, ints(0, 2 * DAY_NS).map(lambda x: cal.MIN_NS_TS + x)), (1, ints(0, 2 * DAY_NS).map(lambda x: cal.MAX_NS_TS - x))))
    n = min(max(n, cal.MIN_NS_TS), cal.MAX_NS_TS)
    o = tz.zone(key).offset_at(n // NS)
    if n + o * NS < cal.MIN_NS_TS:
        n = cal.MIN_NS_TS - o * NS
        if tz.zone(key).offset_at(n // NS) != o:  # pragma: no cover
            n += DAY_NS
    elif n + o * NS > cal.MAX_NS_TS:
        n = cal.MAX_NS_TS - o * NS
    return [key, n]


@st.composite
def _astride(draw):
    """[tzkey, utc ns, utc ns]: two instants on either side of one transition, close to it; often the
    two occurrences of one repeated local time, or with local times in the opposite order"""
    key = draw(tzkey)
    pts = tz.aim_points(key)
    if not pts:
        key, pts = "Europe/Amsterdam", tz.aim_points("Europe/Amsterdam")
    back = [p for p in pts if p[2] < p[1]]
    pts = back if back and draw(ints(0, 3)) else pts
    u, a, b = pts[draw(ints(0, len(pts) - 1))]
    g = abs(a - b)
    s1 = u - draw(ints(1, g + 600))
    s2 = draw(weighted((2, st.just(s1 + g)), (2, ints(0, g + 600).map(lambda x: u + x)), (1, pick(s1 + g - 1, s1 + g + 1))))
    f = draw(weighted((2, pick(0)), (1, nanos)))
    n1, n2 = s1 * NS + f, s2 * NS + draw(pick(f, f, 0, max(f - 1, 0), min(f + 1, NS - 1)))
    return [key, *(min(max(n, cal.MIN_NS_TS + 2 * DAY_NS), cal.MAX_NS_TS - 2 * DAY_NS) for n in (n1, n2))]


astride = _astride()
zoned = _zoned()
zoned_mid = _zoned(extremes=False)


@st.composite
def _zone_local(draw, keys=tzkey):
    """[tzkey, y, m, d, ns of day]: a local time to be resolved, biased to gaps and folds"""
    key = draw(keys)
    pts = tz.aim_points(key)
    if pts and draw(ints(0, 9)) < 8:
        u, a, b = pts[draw(ints(0, len(pts) - 1))]
        lo, hi = u + min(a, b), u + max(a, b)
        j = draw(ints(0, 4))
        if j <= 1:
            s = draw(ints(lo, hi - 1))
        elif j == 2:
            s = draw(pick(lo - 1, lo, lo + 1, hi - 1, hi, hi + 1))
        elif j == 3:
            s = draw(ints(lo - 7200, hi + 7200))
        else:
            s = draw(ints(lo - 2 * DAY_S, hi + 2 * DAY_S))
        s = min(max(s, cal.MIN_S), cal.MAX_S)
        n = s * NS + draw(weighted((2, pick(0)), (1, nanos)))
        y, m, d, t = cal.split_local(n)
        return [key, y, m, d, t]
    y, m, d, t = draw(local)
    return [key, y, m, d, t]


zone_local = _zone_local()


def zone_local_in(key):
    return _zone_local(st.just(key))


@st.composite
def _offset_dt(draw):
    """[offset s, utc ns] with both local and UTC in range"""
    o = draw(offset)
    n = draw(instant_ns)
    if not cal.in_range(n + o * NS):
        n = n - o * NS
    return [o, n]


offset_dt = _offset_dt()

# ---------------------------------------------------------------- durations

MAX_TD_S = 9999 * 366 * DAY_S
MAX_TD = MAX_TD_S * NS
td_ns = weighted(
    (2, ints(-MAX_TD, MAX_TD)),
    (3, ints(-10**6, 10**6).map(lambda s: s * NS)),
    (3, ints(-400 * DAY_NS, 400 * DAY_NS)),
    (2, pick(0, 1, -1, 999, -999, 1000, -1000, NS, -NS, NS - 1, -(NS - 1), DAY_NS, -DAY_NS, 3600 * NS, -3600 * NS, 1800 * NS, MAX_TD, -MAX_TD, MAX_TD - 1)),
    (1, ints(-3000, 3000)),
    (1, ints(-100, 100).map(lambda h: h * 1800 * NS)),
)
small_td_ns = weighted(
    (3, ints(-10**6, 10**6).map(lambda s: s * NS)),
    (3, ints(-400 * DAY_NS, 400 * DAY_NS)),
    (2, pick(0, 1, -1, 999, -999, NS, -NS, NS - 1, DAY_NS, -DAY_NS, 3600 * NS, -3600 * NS, 1800 * NS)),
    (2, ints(-100, 100).map(lambda h: h * 1800 * NS)),
)
mode = pick("ceil", "floor", "half_ceil", "half_floor", "half_even")
disambig = pick("compatible", "earlier", "later", "raise")

UNIT_MAX = {"hour": 24, "minute": 60, "second": 60, "millisecond": 1000, "microsecond": 1000, "nanosecond": 1000}


def divisors(n):
    return [i for i in range(1, n + 1) if n % i == 0]


@st.composite
def _unit_inc(draw, any_hour=False):
    u = draw(st.sampled_from(sorted(UNIT_MAX)))
    if any_hour and u == "hour":
        return [u, draw(ints(1, 100))]
    return [u, draw(st.sampled_from(divisors(UNIT_MAX[u])))]


unit_inc = _unit_inc()
unit_inc_td = _unit_inc(any_hour=True)
