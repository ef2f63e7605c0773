"""C27: what values show of themselves."""
from .common import *
from .. import text


def clock(ns):
    h, r = divmod(abs(ns), 3600 * NS)
    m, r = divmod(r, 60 * NS)
    s, f = divmod(r, NS)
    out = ("-" if ns < 0 else "") + f"{h:02}:{m:02}:{s:02}"
    return out + (f".{f:09}".rstrip("0") if f else "")


def shown(v):
    """the documented repr of a value"""
    k = v[0]
    if k == "TimeDelta":
        return f"TimeDelta({clock(v[1])})"
    t = text.iso(v)
    if k in ("LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime"):
        t = t[:10] + " " + t[11:]
    return f"{k}({t})"


PLAIN = [k for k in ALL_KINDS if k != "SystemDateTime"]


def look(ctx, v):
    x = build(v)
    want = shown(v)
    eq(repr(x), want, f"repr of {v}")
    eq(str(x), text.iso(v), f"str of {v}")
    eq(f"{x}", text.iso(v), f"formatted {v}")
    eq(f"{x!r}", want, f"repr-formatted {v}")
    eq(repr([x, {"k": x}]), f"[{want}, {{'k': {want}}}]", f"repr of a container with {v}")
    return x


@check("C27", lambda: any_value(PLAIN), quick=24000,
       rule="the text has a fraction, an offset with seconds, a sign, a year below 1000, or a timezone name with a T")
def shown_as_documented(ctx, case):
    x = look(ctx, case)
    ctx.label(case[0])
    r = repr(x)
    ctx.nontrivial("." in r, "fraction")
    ctx.nontrivial("-P" in r or "(-" in r, "negative")
    ctx.nontrivial("(0" in r and case[0] not in ("TimeDelta", "Time", "MonthDay"), "early year")
    ctx.nontrivial("[" in r and "T" in r[r.index("["):], "T in the timezone")
    ctx.nontrivial(case[0] in ("OffsetDateTime", "ZonedDateTime") and off_of(x) % 60 != 0, "offset with seconds")


@check("C27", lambda: gen.zoned_mid, quick=5000, rule="the local time is repeated, or the offset has seconds")
def system_values(ctx, case):
    key, n = case
    n = clampn(n, 5 * DAY_NS)
    o = tz.zone(key).offset_at(n // NS)
    with system_tz(key):
        x = system_value(n)
    t = text.iso(["OffsetDateTime", o, n])
    eq(repr(x), f"SystemDateTime({t[:10]} {t[11:]})", "repr of a system value")
    eq(str(x), t, "str of a system value")
    ctx.nontrivial(o % 60 != 0, "seconds")
    ctx.nontrivial(tz.zone(key).resolve(n // NS + o)[0] == "repeated", "repeated")


@check("C27", lambda: gen.astride, quick=4000, rule="the two instants show the same local time")
def distinguished(ctx, case):
    """values which are not strictly equal are shown differently"""
    key, a, b = case
    for n in (a, b, a):
        look(ctx, ["ZonedDateTime", key, n])
    o = tz.zone(key).offset_at
    ctx.nontrivial(a + o(a // NS) * NS == b + o(b // NS) * NS)
    if a != b:
        true(repr(mk_zoned(key, a)) != repr(mk_zoned(key, b)), f"instants {a} and {b} in {key} are shown alike")
