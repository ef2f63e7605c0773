"""Expected behaviour of zoned values, on integers (instants are UTC nanoseconds)."""
from . import cal, tz
from .cal import NS


class Refused(Exception):
    def __init__(self, kind):
        self.kind = kind  # 'range' | 'skipped' | 'repeated' | 'weird'


def resolve(key, loc, dis, prev=None):
    """local ns -> (utc ns, offset).  dis None means: keep offset `prev` if possible, else
    compatible."""
    s, sub = divmod(loc, NS)
    r = tz.zone(key).resolve(s)
    if r[0] == "weird":
        raise Refused("weird")
    if r[0] == "unique":
        n, o = loc - r[1] * NS, r[1]
    elif r[0] == "repeated":
        if dis == "raise":
            raise Refused("repeated")
        o = r[1]
        if dis == "later" or (dis is None and prev == r[2]):
            o = r[2]
        n = loc - o * NS
    else:
        _, a, b = r
        if dis == "raise":
            raise Refused("skipped")
        # 'later': the clock read with the offset before the gap; result shows the offset after
        if dis == "earlier" or (dis is None and prev == a):
            n, o = loc - b * NS, a
        else:
            n, o = loc - a * NS, b
    if not cal.in_range(n) or not cal.in_range(n + o * NS):
        raise Refused("range")
    return n, o


def at(key, n):
    """offset at instant; refuses when the local clock leaves the supported years"""
    if not cal.in_range(n):
        raise Refused("range")
    o = tz.zone(key).offset_at(n // NS)
    if not cal.in_range(n + o * NS):
        raise Refused("range")
    return n, o


def shift_zoned(key, n, months, days, ns, dis):
    """calendar shift, then exact shift"""
    n, o = at(key, n)
    if months or days:
        y, m, d, t = cal.split_local(n + o * NS)
        r = cal.shift_date(y, m, d, months, days)
        if r is None:
            raise Refused("range")
        n, o = resolve(key, cal.local_ns(*r, t), dis, prev=o)
    return at(key, n + ns)


def start_of_day(key, y, m, d):
    return resolve(key, cal.local_ns(y, m, d, 0), "compatible")
