"""C13: ISO parsers accept exactly the documented formats."""
from zoneinfo import ZoneInfoNotFoundError

from .common import *
from .. import mutate, text

LOCAL = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime"]
FIXED = ["Instant", "OffsetDateTime", "SystemDateTime"]


def valid_text(kinds):
    return any_value(kinds).map(lambda v: [v[0], text.iso(["OffsetDateTime", 0, v[1]] if v[0] == "SystemDateTime" else v)])


def judge(ctx, kind, s):
    cls = getattr(W, kind)
    want = text.parse("OffsetDateTime" if kind == "SystemDateTime" else kind, "iso", s)
    o = outcome(cls.parse_common_iso, s)
    what = f"{kind}.parse_common_iso({s!r})"
    if want[0] == "weird":
        return
    if want[0] == "unknown":
        _, key, loc, off = want
        if o[0] == "ok":
            # some zone the database reads although it does not list it: the fields must be kept
            x = o[1]
            eq(obs_zoned(x), (loc - off * NS, off, key), what)
        else:
            true(isinstance(o[1], (ValueError, ZoneInfoNotFoundError)), f"{what} raised {type(o[1]).__name__}: {o[1]}")
            ctx.nontrivial(label="unknown zone")
        return
    if want[0] in ("ok", "may"):
        if o[0] == "err":
            true(isinstance(o[1], ValueError), f"{what} raised {type(o[1]).__name__}: {o[1]}")
            if want[0] == "ok":
                fail(f"{what} raised {o[1]!r} for a valid text of {want[1]}")
            return
        exp = want[1] if kind != "SystemDateTime" else ("SystemDateTime", *want[1][1:])
        eq(obs(o[1]), exp, what)
        ctx.label("accepted")
        return
    if o[0] == "ok":
        fail(f"{what} returned {o[1]!r} for an invalid text ({want[0]})")
    at_end = s[:7] in ("0001-01", "9999-12")  # the instant may leave the supported years as well
    ok = RANGE if want[0] == "range" or at_end else (ValueError,)
    true(isinstance(o[1], ok), f"{what} raised {type(o[1]).__name__}: {o[1]}")
    ctx.nontrivial(label="refused: " + want[0])


@st.composite
def _mutant(draw, kinds, fields):
    k, s = draw(valid_text(kinds))
    if draw(ints(0, 3)) == 0:
        s = draw(fields(k))
    return [k, draw(mutate.mutated(st.just(s)))]


two = weighted((3, ints(0, 31)), (2, ints(0, 61)), (1, ints(0, 99))).map(lambda x: "%02d" % x)
year = weighted((3, gen.years), (1, pick(0, 9999, 1))).map(lambda x: "%04d" % x)
frac = weighted((2, st.just("")), (2, ints(0, 10).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n)).map(lambda s: "." + s)), (1, pick(".", ",5", ".0", ".000000000", ".0000000000", ".1 ", ".-1", ".+1", ".1_1")))
off_txt = weighted(
    (2, gen.offset.map(cal.fmt_offset)), (2, pick("Z", "z", "+00:00", "-00:00", "+00:00:00", "-00:00:00", "+24:00", "-24:00", "+23:59:59", "-23:59:59", "+2359", "+23", "+1:00", "", "+00:60", "+00:00:60", "+01:00:00.0", "+29:00", "+30:00", "-29:59:59", "UTC", "+00:00Z", "Z+00:00", "+ 1:00")),
    (2, st.tuples(pick("+", "-", ""), two, two, pick("", ":"), two).map(lambda x: x[0] + x[1] + ":" + x[2] + (x[3] + x[4] if x[3] else ""))),
)


def dt_fields(sep):
    return st.tuples(year, two, two, sep, two, two, two, frac).map(lambda x: f"{x[0]}-{x[1]}-{x[2]}{x[3]}{x[4]}:{x[5]}:{x[6]}{x[7]}")


def fields(k):
    if k == "Date":
        return st.one_of(st.tuples(year, two, two).map("-".join), st.tuples(year, two, two).map("".join),
                         st.tuples(year, ints(0, 54), ints(0, 8), pick("-", "")).map(lambda x: f"{x[0]}{x[3]}W{x[1]:02}{x[3]}{x[2]}"),
                         st.tuples(year, ints(0, 54), pick("-", "")).map(lambda x: f"{x[0]}{x[2]}W{x[1]:02}"),
                         st.tuples(year, ints(0, 367), pick("-", "")).map(lambda x: f"{x[0]}{x[2]}{x[1]:03}"))
    if k == "YearMonth":
        return st.one_of(st.tuples(year, two).map("-".join), st.tuples(year, two).map("".join))
    if k == "MonthDay":
        return st.one_of(st.tuples(two, two).map(lambda x: "--" + "-".join(x)), st.tuples(two, two).map("-".join), st.tuples(two, two).map(lambda x: "--" + "".join(x)))
    if k == "Time":
        return st.one_of(st.tuples(two, two, two, frac).map(lambda x: ":".join(x[:3]) + x[3]), st.tuples(two, two, two).map("".join), st.tuples(two, two).map(":".join))
    sep = weighted((4, st.just("T")), (1, pick(" ", "_", "t", "", "TT", "-")))
    if k == "LocalDateTime":
        return dt_fields(sep)
    return st.tuples(dt_fields(sep), off_txt).map("".join)


@check("C13", lambda: _mutant(LOCAL, fields), quick=30000,
       rule="the text is refused by the reference scanner although it is a valid text with at most three edits or out-of-range fields")
def local_types(ctx, case):
    judge(ctx, *case)


@check("C13", lambda: _mutant(FIXED, fields), quick=30000,
       rule="the text is refused by the reference scanner although it is a valid text with at most three edits or out-of-range fields")
def fixed_offset_types(ctx, case):
    judge(ctx, *case)


key_txt = weighted(
    (6, gen.tzkey),
    (1, mutate.mutated(gen.tzkey)),
    (1, pick("Europe", "America", "America/Argentina", "Etc", "", "UTC ", "utc", "europe/paris", "Europe/Nowhere", "../UTC", "/etc/passwd", "X" * 255, "X" * 256, "é" * 250, "\0", "a\nb", ".", "..", "tzdata.zi", "Europe/../Europe/Paris", "Europe//Paris", "!Europe/Paris", "u-ca=iso8601", "+01:00", "Europe/Paris][UTC", "[UTC", "UTC]")),
)


@st.composite
def _zoned_text(draw):
    j = draw(ints(0, 9))
    if j <= 2:  # any clock reading near transitions with an offset in force around that time
        key, y, m, d, t = draw(gen.zone_local)
        loc = cal.local_ns(y, m, d, t)
        z = tz.zone(key)
        offs = sorted({z.offset_at(loc // NS + k) for k in (-DAY_S * 200, -DAY_S, 0, DAY_S, DAY_S * 200)})
        o = draw(weighted((5, st.sampled_from(offs)), (1, gen.offset), (1, st.tuples(st.sampled_from(offs), pick(-3600, 3600, 1, -1, 60, 1800)).map(sum))))
        s = cal.fmt_date(y, m, d) + "T" + cal.fmt_time(t) + cal.fmt_offset(o) + f"[{key}]"
    elif j <= 6:
        s = text.iso(["ZonedDateTime", *draw(gen.zoned)])
        if draw(ints(0, 4)) == 0:
            s = s[:s.index("[")] + "[" + draw(key_txt) + "]"
        if draw(ints(0, 4)) == 0:
            i = s.index("[")
            j = max(s.rfind("+", 0, i), s.rfind("-", 0, i))
            s = s[:j] + draw(off_txt) + s[i:]
    else:
        s = draw(st.tuples(fields("ZonedDateTime"), key_txt).map(lambda x: f"{x[0]}[{x[1]}]"))
    if draw(ints(0, 2)):
        return s
    return draw(mutate.mutated(st.just(s)))


@check("C13", lambda: _zoned_text(), quick=40000,
       rule="refused by the reference (format, unknown zone, offset not valid for that local time in that zone, or UTC out of range)")
def zoned(ctx, case):
    judge(ctx, "ZonedDateTime", case)


@check("C13", lambda: st.tuples(pick(*LOCAL, *FIXED, "ZonedDateTime"), mutate.anytext), quick=8000,
       rule="non-empty text")
def arbitrary_text(ctx, case):
    judge(ctx, *case)
    ctx.nontrivial(bool(case[1]))


@check("C13", lambda: st.tuples(pick(*LOCAL, *FIXED, "ZonedDateTime"), valid_text([*LOCAL, *FIXED, "ZonedDateTime"])), quick=6000,
       rule="a text of another type is refused")
def text_of_another_type(ctx, case):
    judge(ctx, case[0], case[1][1])
    ctx.nontrivial(case[0] != case[1][0])


@st.composite
def _end_text(draw):
    kind = draw(pick("OffsetDateTime", "SystemDateTime", "ZonedDateTime"))
    lo = draw(st.booleans())
    z = draw(gen.tzkey) if kind == "ZonedDateTime" else None
    edge = cal.MIN_S if lo else cal.MAX_S
    if z:
        o = tz.zone(z).offset_at(edge)
    else:
        o = draw(gen.offset)
    d = draw(weighted((1, pick(0, 1)), (1, pick(abs(o), abs(o) + 1, abs(o) - 1)), (2, ints(0, 2 * abs(o) + 10)))) % (2 * DAY_S)
    loc = (edge + max(d, 0) if lo else edge - max(d, 0)) * NS
    if not lo:
        loc += draw(pick(0, 999_999_999))
    y, m, dd, t = cal.split_local(loc)
    s = cal.fmt_date(y, m, dd) + "T" + cal.fmt_time(t) + cal.fmt_offset(o)
    return [kind, s + (f"[{z}]" if z else "")]


@check("C13", lambda: _end_text(), quick=6000,
       rule="the local time is in range but its UTC instant is not")
def range_ends(ctx, case):
    judge(ctx, *case)


mutate_step = st.tuples(ints(0, 40), st.sampled_from(list("0123456789+-:.TZ[] ") + [""]))


class Shouting(str):
    """a text that shows itself in another way, as members of string enumerations do"""

    def __str__(self):
        return "<" + self[:] + ">"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


@check("C13", lambda: st.tuples(any_value([k for k in ALL_KINDS if k != "SystemDateTime"]), pick("common_iso", "common_iso", "rfc3339", "rfc2822"), st.integers(0, 3).flatmap(lambda i: st.lists(mutate_step, max_size=i))), quick=6000,
       rule="the text is valid")
def subclassed_text(ctx, case):
    """a text of a subclass of str is read by its characters"""
    v, m, steps = case
    x = build(v)
    if not hasattr(x, "format_" + m):
        m = "common_iso"
    k, s = outcome(getattr(x, "format_" + m))
    if k == "err":
        return
    for i, c in steps:
        i %= len(s) + 1
        s = s[:i] + c + s[i + 1:]
    parse = getattr(type(x), "parse_" + m)
    a, b = outcome(parse, s), outcome(parse, Shouting(s))
    ctx.nontrivial(a[0] == "ok", f"{v[0]} {m}")
    what = f"{v[0]}.parse_{m}() of {s!r} as a subclass of str"
    eq(b[0], a[0], what + f" ({b[1]!r})")
    if a[0] == "ok":
        eq((obs(b[1]), repr(b[1]), pickle.dumps(b[1])), (obs(a[1]), repr(a[1]), pickle.dumps(a[1])), what)
    else:
        eq(type(b[1]), type(a[1]), what)
