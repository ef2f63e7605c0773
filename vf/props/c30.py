"""C30: every text gets an answer, whatever its size."""
import signal
from zoneinfo import ZoneInfoNotFoundError

from .common import *
from .. import mutate, text

LIMIT = 10  # s of processor time; what is measured takes a few ms
KINDS = [k for k in ALL_KINDS]
EXACT = ("Instant", "OffsetDateTime")


class TooLong(BaseException):
    pass


def limited(f, *a):
    """the call, given up after LIMIT seconds of this process's own processor time"""
    def on_alarm(*_):
        raise TooLong

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        return outcome(f, *a)
    except TooLong:
        return ("slow",)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


@st.composite
def _pumped(draw):
    """[kind, method, text, where, part, times]: a text with one of its parts repeated"""
    k = draw(pick(*KINDS))
    m = draw(pick("parse_common_iso", "parse_rfc3339", "parse_rfc2822")) if k in EXACT else "parse_common_iso"
    v = draw(any_value(["OffsetDateTime" if k == "SystemDateTime" else k]))
    f = m.replace("parse", "format")
    x = build(v)
    try:
        s = getattr(x, f)()
    except ValueError:
        s = x.format_common_iso()
    s = draw(mutate.mutated(st.just(s)))
    i = draw(ints(0, len(s)))
    j = draw(weighted((3, st.just(i)), (2, ints(i, min(len(s), i + 6))), (1, ints(i, len(s)))))
    part = s[i:j] or draw(mutate.chars) + draw(weighted((3, st.just("")), (1, mutate.chars)))
    return [k, m, s, i, part, draw(weighted((1, ints(10, 300)), (2, ints(1000, 5000)), (2, ints(10000, 50000))))]


@check("C30", lambda: _pumped(), quick=20000, rule="the text has over a thousand characters")
def pumped(ctx, case):
    k, m, s, i, part, n = case
    t = s[:i] + part * n + s[i:]
    o = limited(getattr(getattr(W, k), m), t)
    what = f"{k}.{m} of {s[:i]!r} + {part!r} * {n} + {s[i:]!r}"
    ctx.nontrivial(len(t) > 1000, "long")
    if o[0] == "slow":
        fail(f"{what} has no answer after {LIMIT} s of processor time")
    if o[0] == "err":
        ok = (ValueError, ZoneInfoNotFoundError) + ((OverflowError,) if "0001" in t or "9999" in t else ())  # its instant may lie out of range
        true(isinstance(o[1], ok), f"{what} raised {type(o[1]).__name__}: {str(o[1])[:300]}")
        ctx.label(type(o[1]).__name__)
        return
    ctx.label("accepted")
    if m == "parse_common_iso":
        true(len(t) <= 310 or k.endswith("Delta") and set(t) & set("0"), f"{what} is accepted: {o[1]!r}")
    obs(o[1])


DELTA_DIGITS = st.tuples(pick("0", "0", "0", "9", "1"), weighted((2, ints(1, 45)), (1, ints(1, 5000))), ints(0, 10**12)).map(lambda x: x[0] * x[1] + str(x[2]))


@check("C30", lambda: st.tuples(pick("DateDelta", "TimeDelta", "DateTimeDelta"), st.lists(st.tuples(DELTA_DIGITS, pick(*"YMWDHS")), min_size=1, max_size=4), st.booleans()), quick=6000,
       rule="a component has over nineteen digits")
def many_digits(ctx, case):
    """components with any number of digits: the exact value, or a refusal"""
    k, comps, tsep = case
    t = "P" + "".join(a + b for a, b in comps if b in "YMWD") + ("T" if tsep else "") + "".join(a + b for a, b in comps if b in "HS")
    ctx.nontrivial(any(len(a) > 19 for a, b in comps))
    o = limited(getattr(W, k).parse_common_iso, t)
    if o[0] == "slow":
        fail(f"{k}.parse_common_iso({t!r}) has no answer after {LIMIT} s of processor time")
    if o[0] == "err":
        true(isinstance(o[1], ValueError), f"{k}.parse_common_iso({t!r}) raised {type(o[1]).__name__}: {o[1]}")
        return
    tot = {}
    for a, b in comps:
        tot[b] = tot.get(b, 0) + int(a)
    want = (tot.get("Y", 0) * 12 + tot.get("M", 0), tot.get("W", 0) * 7 + tot.get("D", 0), (tot.get("H", 0) * 3600 + tot.get("S", 0)) * NS)
    x = o[1]
    got = obs(x)[1:]
    eq(tuple(got), want[:2] if k == "DateDelta" else want[2:] if k == "TimeDelta" else want, f"{k}.parse_common_iso({t!r})")
    ctx.label("accepted")
