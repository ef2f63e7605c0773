"""C12: canonical ISO text and round trip."""
from .common import *
from .. import text

KINDS = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime"]


def strictly_equal(a, b, what):
    eq(obs(a), obs(b), what)
    true(a == b and not a != b, what + ": values unequal")
    eq(hash(a), hash(b), what + ": hash")
    if hasattr(type(a), "exact_eq"):
        true(a.exact_eq(b) and b.exact_eq(a), what + ": not exact_eq")


def round_trip(ctx, x, want):
    s = x.format_common_iso()
    true(type(s) is str, "not a string")
    eq(s, want, "ISO text")
    eq(str(x), want, "str()")
    strictly_equal(type(x).parse_common_iso(s), x, f"parsed {s!r}")
    strictly_equal(type(x).parse_common_iso(str.__str__(want)), x, f"parsed {want!r}")
    ctx.nontrivial("." in s, "fraction")


@check("C12", lambda: any_value(KINDS), quick=30000,
       rule="the text has a fraction of a second, an offset with seconds, a repeated hour, or a year below 1000")
def iso_round_trip(ctx, case):
    want = text.iso(case)
    round_trip(ctx, build(case), want)
    k = case[0]
    ctx.label(k)
    if k in ("Date", "YearMonth", "LocalDateTime"):
        ctx.nontrivial(case[1] < 1000, "year below 1000")
    if k == "OffsetDateTime":
        ctx.nontrivial(case[1] % 60 != 0, "offset with seconds")
    if k == "ZonedDateTime":
        o = tz.zone(case[1]).offset_at(case[2] // NS)
        ctx.nontrivial(o % 60 != 0, "offset with seconds")
        ctx.nontrivial(tz.zone(case[1]).resolve(case[2] // NS + o)[0] == "repeated", "repeated hour")


@check("C12", lambda: st.tuples(gen.zoned, ints(0, ROUTES - 1)), quick=8000,
       rule="the local time is repeated or within two hours of a transition")
def zoned_routes(ctx, case):
    (key, n), route = case
    x = zoned_via(key, n, route)
    round_trip(ctx, x, text.iso(["ZonedDateTime", key, n]))
    o = tz.zone(key).offset_at(n // NS)
    ctx.nontrivial(tz.zone(key).resolve(n // NS + o)[0] == "repeated", "repeated hour")
    ctx.nontrivial(tz.zone(key).offset_at(n // NS - 7200) != tz.zone(key).offset_at(n // NS + 7200), "near transition")


@check("C12", lambda: st.tuples(st.sampled_from(tz.odd_names()), gen.instant_ns), quick=4000,
       rule="the identifier has unusual characters, or an unusual length")
def every_zone(ctx, case):
    """also the rarely used identifiers, e.g. those kept for compatibility only"""
    key, n = case
    n = clampn(n, 3 * DAY_NS)
    x = mk_zoned(key, n)
    round_trip(ctx, x, text.iso(["ZonedDateTime", key, n]))
    ctx.nontrivial(len(key) > 24 or any(c in "+-0123456789" for c in key))


@check("C12", lambda: gen.zoned_mid, quick=6000,
       rule="the local time is repeated, or has a fraction")
def system_values(ctx, case):
    key, n = case
    n = clampn(n, 5 * DAY_NS)
    with system_tz(key):
        x = system_value(n)
        o = tz.zone(key).offset_at(n // NS)
        round_trip(ctx, x, text.iso(["OffsetDateTime", o, n]))
        ctx.nontrivial(tz.zone(key).resolve(n // NS + o)[0] == "repeated", "repeated hour")
    # the text does not depend on the timezone at the time of formatting or parsing
    round_trip(ctx, x, text.iso(["OffsetDateTime", o, n]))


@check("C12", lambda: st.tuples(any_value(KINDS), any_value(KINDS)), quick=8000,
       rule="the two values are of the same type")
def texts_are_injective(ctx, case):
    """equal texts of one type only for strictly equal values; equal length prefixes sort
    chronologically for local types"""
    a, b = map(build, case)
    if type(a) is not type(b):
        return
    ctx.nontrivial()
    eq(str(a) == str(b), obs(a) == obs(b), "equality of texts against equality of values")


both_sides("C12", zoned_routes, lambda key, n, r: ([key, n], r), ints(0, ROUTES - 1), quick=3000)
