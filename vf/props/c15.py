"""C15: RFC 3339 and RFC 2822."""
import re
from .common import *
from .. import mutate, text
from ..text import Reject, Scan

MIN_2822 = cal.local_ns(100, 1, 2, 0)  # the format's two-digit years make it unusable before


@check("C15", lambda: st.tuples(gen.instant_ns, gen.offset_dt), quick=20000,
       rule="the value has a fraction, a non-zero offset, or a year outside 1900-2100")
def rfc3339_round_trip(ctx, case):
    n, (o, m) = case
    x = mk_instant(n)
    want = text.rfc3339(n, 0, True)
    eq(x.format_rfc3339(), want, "Instant.format_rfc3339()")
    y = W.Instant.parse_rfc3339(want)
    eq(obs_instant(y), n, f"Instant.parse_rfc3339({want!r})")
    true(y == x and y.exact_eq(x), "parsed instant unequal")
    ctx.nontrivial(n % NS != 0, "fraction")
    o = int(o / 60) * 60
    if not cal.in_range(m + o * NS):
        return
    z = mk_offset(o, m)
    want = text.rfc3339(m, o, False)
    eq(z.format_rfc3339(), want, "OffsetDateTime.format_rfc3339()")
    y = W.OffsetDateTime.parse_rfc3339(want)
    eq(obs_offset(y), (m, o), f"OffsetDateTime.parse_rfc3339({want!r})")
    true(y.exact_eq(z), "parsed value unequal")
    ctx.nontrivial(o != 0, "non-zero offset")


MINUTE_OFF = weighted((4, gen.offset_min), (1, st.just(0)))


def zone_txt(o):
    return "%s%02d%02d" % ("-" if o < 0 else "+", abs(o) // 3600, abs(o) // 60 % 60)


@check("C15", lambda: st.tuples(gen.instant_ns, MINUTE_OFF), quick=20000,
       rule="the offset is not zero, or the date differs between UTC and local")
def rfc2822_round_trip(ctx, case):
    n, o = case
    n = max(n, MIN_2822)
    sec = n // NS * NS
    want = text.rfc2822(n, 0, "GMT")
    eq(mk_instant(n).format_rfc2822(), want, "Instant.format_rfc2822()")
    eq(obs_instant(W.Instant.parse_rfc2822(want)), sec, f"Instant.parse_rfc2822({want!r})")
    if not cal.in_range(n + o * NS):
        return
    x = mk_offset(o, n)
    want = text.rfc2822(n, o, zone_txt(o))
    eq(x.format_rfc2822(), want, "OffsetDateTime.format_rfc2822()")
    eq(obs_offset(W.OffsetDateTime.parse_rfc2822(want)), (sec, o), f"OffsetDateTime.parse_rfc2822({want!r})")
    # an instant is only read from a text in UTC
    r = outcome(W.Instant.parse_rfc2822, want)
    if o:
        true(r[0] == "err" and isinstance(r[1], ValueError), f"Instant.parse_rfc2822({want!r}) gave {r[1]!r}")
        ctx.nontrivial(label="non-zero offset")
    elif r[0] == "ok":
        eq(obs_instant(r[1]), sec, f"Instant.parse_rfc2822({want!r})")
    ctx.nontrivial(n // DAY_NS != (n + o * NS) // DAY_NS, "other local date")


two = weighted((3, ints(0, 31)), (2, ints(0, 61)), (1, ints(0, 99))).map(lambda x: "%02d" % x)
from .c13 import dt_fields, off_txt  # noqa: E402  (structured ISO-like fields)


@st.composite
def _t3339(draw):
    kind = draw(pick("Instant", "OffsetDateTime"))
    if draw(ints(0, 2)):
        n, (o, m) = draw(st.tuples(gen.instant_ns, gen.offset_dt))
        o = int(o / 60) * 60
        s = text.rfc3339(n, 0, True) if draw(st.booleans()) or not cal.in_range(m + o * NS) else text.rfc3339(m, o, False)
        s = s.replace(" ", draw(pick("T", "t", " ", "_", "T")))
        if s[-1] == "Z":
            s = s[:-1] + draw(pick("Z", "z", "+00:00", "-00:00", "+02:00", "-00:01", "+00:00:00"))
    else:
        s = draw(dt_fields(pick("T", "t", " ", "_", "", "-"))) + draw(off_txt)
    if draw(st.booleans()):
        s = draw(mutate.mutated(st.just(s)))
    return [kind, s]


@check("C15", lambda: _t3339(), quick=30000,
       rule="refused, though a valid text with few edits; or accepted with another separator than T or a lower-case z")
def rfc3339_grammar(ctx, case):
    kind, s = case
    want = text.parse(kind, "rfc3339", s)
    o = outcome(getattr(W, kind).parse_rfc3339, s)
    what = f"{kind}.parse_rfc3339({s!r})"
    if want[0] in ("ok", "may"):
        if o[0] == "err":
            true(isinstance(o[1], ValueError), f"{what} raised {type(o[1]).__name__}: {o[1]}")
            true(want[0] == "may", f"{what} raised {o[1]!r} for a valid text of {want[1]}")
            return
        eq(obs(o[1]), want[1], what)
        ctx.nontrivial(s[10] != "T" or s[-1] == "z", "accepted variant")
        return
    true(o[0] == "err", f"{what} returned {o[1]!r} for an invalid text")
    true(isinstance(o[1], RANGE if want[0] == "range" else ValueError), f"{what} raised {type(o[1]).__name__}: {o[1]}")
    ctx.nontrivial(label="refused: " + want[0])


NAMES = {"UT": 0, "GMT": 0, "EST": -5, "EDT": -4, "CST": -6, "CDT": -5, "MST": -7, "MDT": -6, "PST": -8, "PDT": -7}


def scan2822(s):
    """(kind, utc ns, offset) of a text in the plain RFC 2822 form, else None.  kind: 'utc' (named
    or +0000), 'unknown' (-0000), 'offset'"""
    try:
        sc = Scan(s)
        if s[3:4] == ",":
            if s[:3] not in text.DAYNAMES or s[4:5] != " ":
                return None
            sc.i = 5
        d = int(sc.upto(1, 2))
        sc.lit(" ")
        if s[sc.i:sc.i + 3] not in text.MONTHS:
            return None
        m = text.MONTHS.index(s[sc.i:sc.i + 3]) + 1
        sc.i += 3
        sc.lit(" ")
        y = sc.num(4)
        sc.lit(" ")
        h = sc.num(2)
        sc.lit(":")
        mi = sc.num(2)
        se = 0
        if sc.peek() == ":":
            sc.lit(":")
            se = sc.num(2)
        sc.lit(" ")
        z = s[sc.i:]
        if z.endswith(")") and " (" in z and z.count("(") == z.count(")") == 1:  # a comment after the zone
            z = z[:z.index(" (")]
            sc.s = sc.s[:sc.i + len(z)]
        elif sc.i and re.fullmatch(r"\([-+\w ]*\)", z, re.ASCII):
            return "nozone", 0, 0
        if re.fullmatch(r"(?!UTC|AST|ADT|UT\b|Z\b)[A-Z]{2,5}( [-+]\d{4})?", z, re.ASCII) and z not in NAMES and z.split()[0] not in NAMES:
            return "nozone", 0, 0
        if z in NAMES:
            o, kind = NAMES[z] * 3600, "offset" if NAMES[z] else "utc"
        else:
            sg = sc.lit("+-")
            a, b = sc.num(2), sc.num(2)
            sc.end()
            if a > 23 or b > 59:
                return None
            o = (a * 3600 + b * 60) * (-1 if sg == "-" else 1)
            kind = "offset" if o else "unknown" if sg == "-" else "utc"
        if y < 100 or not (1 <= m <= 12 and 1 <= d <= cal.dim(y, m) and h < 24 and mi < 60 and se < 60):
            return None
        return kind, cal.local_ns(y, m, d, ((h * 60 + mi) * 60 + se) * NS) - o * NS, o
    except Reject:
        return None


@st.composite
def _t2822(draw):
    kind = draw(pick("Instant", "OffsetDateTime"))
    n, o = max(draw(gen.instant_ns), MIN_2822), draw(MINUTE_OFF)
    if not cal.in_range(n + o * NS):
        o = 0
    z = draw(weighted((2, st.just(zone_txt(o))), (1, pick("GMT", "UT", "UTC", "-0000", "+0000")), (1, st.sampled_from(sorted(NAMES))), (1, pick("", "Z", "A", "XYZ", "+2400", "-9999", "+00:00", "+00", "GMT+1", "(comment)")),
                       (1, pick("CET", "EET", "JST", "IST", "XX", "(-0000)", "(+0000)", "(GMT)", "CET -0000", "CEST +0000", "BST -0000", "-0000 (GMT)", "+0000 (UTC)", "GMT (-0000)", "+0200 (CEST)", "-0500 (-0000)"))))
    s = text.rfc2822(n, o, z)
    j = draw(ints(0, 5))
    if j == 0:
        s = s[5:]
    elif j == 1:
        s = s.replace(", 0", ", ")
    elif j == 2:
        i = s.rfind(":")
        s = s[:i] + s[i + 3:]
    elif j == 3:
        s = s[5:].lstrip("0")
    if draw(ints(0, 2)) == 0:
        s = draw(mutate.mutated(st.just(s), extra=st.sampled_from("JanFebMrApyulgSOctNvDHTWEUTGMPS,()")))
    return [kind, s]


@check("C15", lambda: _t2822(), quick=30000,
       rule="the text has the plain RFC 2822 form but is not what the formatter writes, or is refused")
def rfc2822_grammar(ctx, case):
    kind, s = case
    o = outcome(getattr(W, kind).parse_rfc2822, s)
    what = f"{kind}.parse_rfc2822({s!r})"
    if o[0] == "err":
        true(isinstance(o[1], RANGE), f"{what} raised {type(o[1]).__name__}: {o[1]}")
        ctx.nontrivial(label="refused")
    else:
        # whatever was accepted is a valid value
        n = obs(o[1])[1]
        true(cal.in_range(n), f"{what}: instant out of range")
    want = scan2822(s)
    if want is None:
        return
    k, n, off = want
    if k == "nozone":
        true(o[0] == "err", f"{what} returned {o[1]!r} for a text without a usable zone")
        ctx.nontrivial(label="no zone")
        return
    ctx.nontrivial(not (s[3:4] == "," and s[-5] in "+-" and s.count(":") == 2), "variant")
    if kind == "Instant":
        if k == "offset":
            true(o[0] == "err", f"{what} returned {o[1]!r} for a text with an offset")
        else:
            true(o[0] == "ok", f"{what} raised {o[1]!r}")
            eq(obs_instant(o[1]), n, what)
    else:
        if k == "unknown" or not cal.in_range(n):
            true(o[0] == "err", f"{what} returned {o[1]!r}")
        else:
            true(o[0] == "ok", f"{what} raised {o[1]!r}")
            eq(obs_offset(o[1]), (n, off), what)


@check("C15", lambda: st.tuples(pick("Instant", "OffsetDateTime"), pick("parse_rfc3339", "parse_rfc2822"), mutate.anytext), quick=10000,
       rule="non-empty text")
def arbitrary_text(ctx, case):
    kind, meth, s = case
    o = outcome(getattr(getattr(W, kind), meth), s)
    true(o[0] == "ok" or isinstance(o[1], RANGE), f"{kind}.{meth}({s!r}) raised {type(o[1]).__name__}: {o[1]}")
    if o[0] == "ok":
        obs(o[1])
    ctx.nontrivial(bool(s))
