"""C14: ISO durations."""
from .common import *
from .. import mutate, text

KINDS = ["DateDelta", "TimeDelta", "DateTimeDelta"]


@st.composite
def _big(draw):
    ns = draw(st.one_of(ints(2**53, gen.MAX_TD), ints(0, 53).map(lambda k: 2**k), ints(10**15, 10**18))) + draw(ints(-3, 3))
    sg = draw(pick(1, -1))
    ns = sg * min(max(0, ns), gen.MAX_TD)
    if draw(st.booleans()):
        return ["TimeDelta", ns]
    mo, d = draw(dd_nonneg)
    return ["DateTimeDelta", sg * mo, sg * d, ns]


@check("C14", lambda: st.one_of(any_value(KINDS), _big()), quick=30000,
       rule="the duration has a sub-second part and exceeds 2**53 ns, or is negative, or mixes date and time")
def round_trip(ctx, case):
    x = build(case)
    want = text.iso(case)
    s = x.format_common_iso()
    eq(s, want, "ISO text")
    eq(str(x), want, "str()")
    y = type(x).parse_common_iso(s)
    eq(obs(y), tuple(case), f"parsed {s!r}")
    true(x == y and hash(x) == hash(y), "parsed value unequal")
    y = type(x).parse_common_iso(want if want[0] == "-" else "+" + want)
    eq(obs(y), tuple(case), "parsed with explicit sign")
    if case[0] != "DateTimeDelta":
        z = W.DateTimeDelta.parse_common_iso(s)
        eq(obs_dtd(z), (*case[1:], 0) if case[0] == "DateDelta" else (0, 0, *case[1:]), f"DateTimeDelta of {s!r}")
    ns = 0 if case[0] == "DateDelta" else case[-1]
    ctx.nontrivial(abs(ns) > 2**53 and ns % NS != 0, "large and sub-second")
    ctx.nontrivial(any(v < 0 for v in case[1:]), "negative")
    ctx.nontrivial(case[0] == "DateTimeDelta" and ns and any(case[1:3]), "mixed")


num = weighted((6, ints(0, 70).map(str)), (3, ints(0, 10**6).map(str)), (1, ints(0, 10**12).map(str)),
               (1, ints(0, 10**40).map(str)), (1, ints(0, 100).map(lambda x: "%09d" % x)), (1, pick("00", "007", "", "-1", "+1", "1e3", " 1")),
               (1, pick(*(str(v) for v in (9999, 119988, 119989, 3659634, 3659635, 522805, 87831216, 87831217, 5269872960, 316192377600, 316192377601)))))
sec = st.tuples(num, weighted((3, st.just("")), (3, ints(0, 10).flatmap(lambda n: st.text("0123456789", min_size=n, max_size=n)).map(lambda s: "." + s)), (1, pick(",5", "._1", ".1e1")))).map("".join)


@st.composite
def _structured(draw):
    kind = draw(pick(*KINDS))
    out = draw(weighted((4, st.just("")), (3, st.just("-")), (1, pick("+", "--", "+-", "−", " "))))
    out += draw(weighted((12, st.just("P")), (1, pick("", "p", "PP", "T"))))

    def part(units):
        us = [u for u in units if draw(ints(0, 2)) == 0] or [draw(st.sampled_from(units))]
        if draw(ints(0, 12)) == 0:
            us = draw(st.permutations(us))
        if draw(ints(0, 15)) == 0:
            us = us + [us[-1]]
        t = ""
        for u in us:
            v = draw(sec if u == "S" and draw(ints(0, 4)) else num)
            if draw(ints(0, 30)) == 0:
                v = draw(sec)
            t += v + u
        return t

    want_date = kind == "DateDelta" or (kind == "DateTimeDelta" and draw(ints(0, 3)) > 0)
    if draw(ints(0, 15)) == 0:
        want_date = not want_date
    want_time = kind == "TimeDelta" or (kind == "DateTimeDelta" and draw(ints(0, 3)) > 0)
    if draw(ints(0, 15)) == 0:
        want_time = not want_time
    if want_date:
        out += part("YMWD")
    if want_time:
        out += draw(weighted((12, st.just("T")), (1, pick("", "t", "TT")))) + part("HMS")
    return [kind, out]


@st.composite
def _text(draw):
    j = draw(ints(0, 3))
    if j == 0:
        v = draw(any_value(KINDS))
        s = [v[0], text.iso(v)]
    elif j == 1:
        s = [draw(pick(*KINDS)), text.iso(draw(any_value(KINDS)))]
    else:
        s = draw(_structured())
    if draw(ints(0, 1)):
        s[1] = draw(mutate.mutated(st.just(s[1]), extra=st.sampled_from("PTYMWDHS0123456789.+-")))
    return s


def judge(ctx, kind, s):
    cls = getattr(W, kind)
    want = text.parse_duration(kind, s)
    o = outcome(cls.parse_common_iso, s)
    what = f"{kind}.parse_common_iso({s!r})"
    if want[0] in ("ok", "may"):
        if o[0] == "err":
            true(isinstance(o[1], ValueError), f"{what} raised {type(o[1]).__name__}: {o[1]}")
            if want[0] == "ok":
                fail(f"{what} raised {o[1]!r} for a valid duration of {want[1]}")
            return
        eq(obs(o[1]), want[1], what)
        ctx.nontrivial(sum(c.isalpha() for c in s) > 2, "accepted, more than one component")
        return
    if o[0] == "ok":
        fail(f"{what} returned {o[1]!r} for an invalid duration ({want[0]})")
    true(isinstance(o[1], ValueError), f"{what} raised {type(o[1]).__name__}: {o[1]}")
    ctx.nontrivial(label="refused: " + want[0])


@check("C14", lambda: _text(), quick=50000,
       rule="accepted with several components, or refused though built from the grammar with few edits")
def grammar(ctx, case):
    judge(ctx, *case)


@st.composite
def _limit_text(draw):
    """texts whose sum lies at the ends of the range, split over the components in any way"""
    kind = draw(pick(*KINDS))
    out = draw(pick("", "", "-", "+")) + "P"
    if kind != "TimeDelta" and (kind == "DateDelta" or draw(st.booleans())):
        which = draw(ints(0, 2))
        mo = MAX_MONTHS + draw(ints(-2, 2)) if which != 1 else draw(ints(0, 30))
        d = MAX_DAYS + draw(ints(-2, 2)) if which != 0 else draw(ints(0, 30))
        y = draw(weighted((2, st.just(mo // 12)), (1, st.just(0)), (1, ints(0, mo // 12))))
        w = draw(weighted((1, st.just(d // 7)), (2, st.just(0)), (1, ints(0, d // 7))))
        out += f"{y}Y" * bool(y) + f"{mo - 12 * y}M" * bool(mo - 12 * y) + f"{w}W" * bool(w) + f"{d - 7 * w}D" * bool(d - 7 * w)
    if kind != "DateDelta":
        n = gen.MAX_TD + draw(weighted((2, ints(-3, 3)), (2, ints(-2 * NS, 2 * NS)), (1, ints(-10**14, 10**14)), (2, pick(0, NS, 60 * NS, 3600 * NS, NS // 2, -NS))))
        h = draw(weighted((3, st.just(n // (3600 * NS))), (1, st.just(0)), (1, ints(0, n // (3600 * NS)))))
        r = n - h * 3600 * NS
        m = draw(weighted((3, st.just(r // (60 * NS))), (1, st.just(0)), (1, ints(0, r // (60 * NS)))))
        sec_, f = divmod(r - m * 60 * NS, NS)
        fr = f"{f:09}".rstrip("0") if draw(st.booleans()) else f"{f:09}"
        t = f"{h}H" * bool(h) + f"{m}M" * bool(m) + (f"{sec_}.{fr}S" if f else f"{sec_}S" * bool(sec_))
        out += "T" + t if t else ""
    return [kind, out]


@check("C14", _limit_text, quick=8000, rule="the text is beyond the range, or within two units of its end")
def limits(ctx, case):
    judge(ctx, *case)
    ctx.nontrivial()


@check("C14", lambda: st.tuples(pick(*KINDS), mutate.anytext), quick=5000, rule="non-empty text")
def arbitrary_text(ctx, case):
    judge(ctx, *case)
    ctx.nontrivial(bool(case[1]))
