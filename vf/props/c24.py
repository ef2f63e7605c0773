"""C24: reading, replacing and combining parts; immutability."""
import datetime as _dt

from .common import *
from .. import ops, text
from .c12 import strictly_equal
from .c22 import supported

FIELDS = {
    "Date": ("year", "month", "day"),
    "YearMonth": ("year", "month"),
    "MonthDay": ("month", "day"),
    "Time": ("hour", "minute", "second", "nanosecond"),
    "LocalDateTime": ("year", "month", "day", "hour", "minute", "second", "nanosecond"),
}
FIELDS["OffsetDateTime"] = FIELDS["ZonedDateTime"] = FIELDS["SystemDateTime"] = FIELDS["LocalDateTime"]
CLS = {k: getattr(W, k) for k in FIELDS}
LIMITS = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, NS - 1)}
LOCAL = ["Date", "YearMonth", "MonthDay", "Time", "LocalDateTime"]


def parts(kind, x):
    return {f: getattr(x, f) for f in FIELDS[kind]}


def valid(kind, p):
    for f, v in p.items():
        lo, hi = LIMITS[f]
        if not lo <= v <= hi:
            return False
    if "day" in p:
        return p["day"] <= cal.dim(p.get("year", 2000), p["month"])
    return True


field_value = {
    f: weighted((5, ints(lo, hi)), (1, pick(lo, hi)), (1, pick(lo - 1, hi + 1, -1, 0, 10**4, 10**9, -10**9, 2**31, -2**31, 2**63, 2**64)))
    for f, (lo, hi) in LIMITS.items()
}


@st.composite
def _replacement(draw, kinds):
    v = draw(any_value(kinds))
    names = draw(st.lists(st.sampled_from(FIELDS[v[0]]), unique=True, max_size=4))
    r = {f: draw(field_value[f]) for f in names}
    if "day" in FIELDS[v[0]] and draw(ints(0, 2)) == 0:
        r["day"] = draw(ints(28, 31))
    return [v, r]


@check("C24", lambda: _replacement(LOCAL), quick=20000,
       rule="some part is replaced by a different or invalid value")
def replace_local(ctx, case):
    v, r = case
    x = build(v)
    kind = v[0]
    p = parts(kind, x)
    want = {**p, **r}
    what = f"{x!r}.replace({r})"
    if valid(kind, want):
        y = x.replace(**r)
        true(type(y) is type(x), what + ": type")
        eq(parts(kind, y), want, what)
        strictly_equal(y, CLS[kind](**want), what)
        ctx.nontrivial(want != p, kind)
    else:
        expect_raises(RANGE, lambda: x.replace(**r), what)
        expect_raises(RANGE, lambda: CLS[kind](**want), f"{kind}({want})")
        ctx.nontrivial(True, "invalid")
    eq(parts(kind, x), p, what + ": the operand afterwards")


@check("C24", lambda: st.tuples(_replacement(["OffsetDateTime", "ZonedDateTime"]), gen.offset, gen.tzkey, ints(0, 2)), quick=14000,
       rule="some part is replaced by a different value")
def replace_exact(ctx, case):
    (v, r), off, key, extra = case
    x = build(v)
    kind = v[0]
    p = parts(kind, x)
    want = {**p, **r}
    o = off_of(x)
    what = f"{x!r}.replace({r}, {extra}, {off}, {key})"
    ctx.nontrivial(want != p, kind)
    if kind == "OffsetDateTime":
        kw = {**r, "ignore_dst": True}
        if extra == 0:
            kw["offset"] = tdns(off * NS)
            o = off
        f = lambda: x.replace(**kw)
        if not valid(kind, want):
            expect_raises(RANGE, f, what)
            return
        l = [want["year"], want["month"], want["day"], ((want["hour"] * 60 + want["minute"]) * 60 + want["second"]) * NS + want["nanosecond"]]
        n = cal.local_ns(*l) - o * NS
        if not cal.in_range(n):
            expect_raises(RANGE, f, what)
            return
        y = f()
        eq(obs_offset(y), (n, o), what)
        eq(parts(kind, y), want, what)
        return
    kw = dict(r)
    zk = v[1]
    if extra == 0:
        kw["tz"] = zk = key
    f = lambda: x.replace(**kw)
    if not valid(kind, want):
        expect_raises(RANGE, f, what)
        return
    l = [want["year"], want["month"], want["day"], ((want["hour"] * 60 + want["minute"]) * 60 + want["second"]) * NS + want["nanosecond"]]
    if judge_zoned(zk, lambda: model.resolve(zk, cal.local_ns(*l), None if zk == v[1] else "compatible", o), f, what) == "ok":
        if tz.zone(zk).resolve(cal.local_ns(*l) // NS)[0] != "skipped":
            eq(parts(kind, f()), want, what)


@check("C24", lambda: st.tuples(any_value(["OffsetDateTime", "ZonedDateTime"]), gen.date, gen.tod, pick(None, "compatible", "earlier", "later")), quick=10000,
       rule="the date or the time differs")
def replace_date_time(ctx, case):
    """replace_date() and replace_time() of exact values, with every kind of offset"""
    v, d, t, dis = case
    x = build(v)
    kind = v[0]
    p = parts(kind, x)
    o = off_of(x)
    dt, tm = W.Date(*d), mk_time(t)
    for nm, want in (("replace_date", {**p, "year": d[0], "month": d[1], "day": d[2]}), ("replace_time", {**p, **parts("Time", tm)})):
        arg = dt if nm == "replace_date" else tm
        what = f"{x!r}.{nm}({arg}, {dis})"
        ctx.nontrivial(want != p, kind)
        loc = cal.local_ns(want["year"], want["month"], want["day"], ((want["hour"] * 60 + want["minute"]) * 60 + want["second"]) * NS + want["nanosecond"])
        if kind == "OffsetDateTime":
            f = lambda: getattr(x, nm)(arg, ignore_dst=True)  # noqa
            n = loc - o * NS
            if not cal.in_range(n):
                expect_raises(RANGE, f, what)
                continue
            eq(obs_offset(f()), (n, o), what)
        else:
            kw = {} if dis is None else {"disambiguate": dis}
            judge_zoned(v[1], lambda: model.resolve(v[1], loc, dis, o), lambda: getattr(x, nm)(arg, **kw), what)  # noqa


@check("C24", lambda: st.tuples(_replacement(["SystemDateTime"]), gen.tzkey, gen.date, gen.tod, pick(None, "compatible", "earlier", "later")), quick=8000,
       rule="some part is replaced by a different value")
def replace_system(ctx, case):
    """replacing parts of system datetimes, with and without sub-second parts"""
    (v, r), sk, d, t, dis = case
    with system_tz(sk):
        x = build(v)
        p = parts("SystemDateTime", x)
        o = off_of(x)
        kw = {} if dis is None else {"disambiguate": dis}
        dt, tm = W.Date(*d), mk_time(t)
        for nm, want, f in (
            ("replace", {**p, **r}, lambda: x.replace(**r, **kw)),
            ("replace_date", {**p, "year": d[0], "month": d[1], "day": d[2]}, lambda: x.replace_date(dt, **kw)),
            ("replace_time", {**p, **parts("Time", tm)}, lambda: x.replace_time(tm, **kw)),
        ):
            what = f"{x!r}.{nm} {r} {dt} {tm} {kw} ({sk})"
            ctx.nontrivial(want != p)
            if not valid("SystemDateTime", want):
                expect_raises(RANGE, f, what)
                continue
            loc = cal.local_ns(want["year"], want["month"], want["day"], ((want["hour"] * 60 + want["minute"]) * 60 + want["second"]) * NS + want["nanosecond"])
            if not cal.MIN_NS_TS + 5 * DAY_NS < loc < cal.MAX_NS_TS - 5 * DAY_NS or not supported(sk, loc):
                continue
            z = tz.zone(sk).resolve(loc // NS)
            if z[0] == "weird":
                continue
            n, oo = model.resolve(sk, loc, dis, o)
            y = f()
            eq(obs(y), ("SystemDateTime", n, oo), what)
            if z[0] != "skipped":
                eq(parts("SystemDateTime", y), want, what)
                if want == p and dis is None and z[0] != "weird":
                    strictly_equal(y, x, what)


BAD_ARGS = {
    "Date": ("hour", "nanosecond", "tzinfo", "fold", "microsecond", "years", "foo", "_py_date"),
    "YearMonth": ("day", "hour", "tzinfo", "fold", "foo"),
    "MonthDay": ("year", "hour", "tzinfo", "fold", "foo"),
    "Time": ("year", "tzinfo", "fold", "microsecond", "hours", "foo"),
    "LocalDateTime": ("tzinfo", "fold", "microsecond", "tz", "offset", "hours", "foo", "disambiguate"),
    "OffsetDateTime": ("tzinfo", "fold", "microsecond", "tz", "hours", "foo", "disambiguate"),
    "ZonedDateTime": ("tzinfo", "fold", "microsecond", "offset", "hours", "foo"),
    "SystemDateTime": ("tzinfo", "fold", "microsecond", "tz", "offset", "hours", "foo"),
}


@st.composite
def _bad_arg(draw):
    v = draw(any_value(list(BAD_ARGS)))
    r = draw(st.lists(st.sampled_from(FIELDS[v[0]]), unique=True, max_size=2))
    return [v, draw(st.sampled_from(BAD_ARGS[v[0]])), r, draw(pick(0, 1, None, 5))]


@check("C24", _bad_arg, quick=3000, rule="every case passes an argument that is not a replaceable part")
def unknown_arguments(ctx, case):
    v, bad, r, val = case
    x = build(v)
    kw = {f: getattr(x, f) for f in r}
    if v[0] == "OffsetDateTime":
        kw["ignore_dst"] = True
    value = {"tzinfo": _dt.timezone.utc, "tz": "UTC", "disambiguate": "later"}.get(bad, val) if val is not None else None
    expect_raises((TypeError,), lambda: x.replace(**kw, **{bad: value}), f"{x!r}.replace({kw}, {bad}={value!r})")
    ctx.nontrivial(True, v[0])


@check("C24", lambda: st.tuples(any_value(list(FIELDS)), pick("UTC", "Europe/Dublin", "America/Havana", "Asia/Kolkata")), quick=16000,
       rule="the value has a fraction of a second, an ambiguous time, or an offset that is not a whole hour")
def parts_rebuild(ctx, case):
    v, sk = case
    with system_tz(sk):
        x = build(v)
        kind = v[0]
        p = parts(kind, x)
        true(valid(kind, p) and all(type(q) is int for q in p.values()), f"parts of {x!r}: {p}")
        ctx.nontrivial(p.get("nanosecond", 0) != 0, "fraction")
        if kind in LOCAL:
            eq(obs(x), model_obs(v), "parts")
            strictly_equal(CLS[kind](**p), x, f"{kind} rebuilt from {p}")
            strictly_equal(CLS[kind](*[q for f, q in p.items() if f != "nanosecond"], **{f: q for f, q in p.items() if f == "nanosecond"}),
                           x, f"{kind} rebuilt positionally from {p}")
            return
        o = off_of(x)
        ctx.nontrivial(o % 3600 != 0, "odd offset")
        if kind == "OffsetDateTime":
            strictly_equal(W.OffsetDateTime(**p, offset=x.offset), x, f"rebuilt from {p}, {x.offset!r}")
        else:
            key = v[1] if kind == "ZonedDateTime" else sk
            n = v[-1]
            if kind == "SystemDateTime" and not supported(key, n):
                return
            r = tz.zone(key).resolve(n // NS + o)
            if r[0] == "weird":
                return
            ctx.nontrivial(r[0] == "repeated", "ambiguous")
            dis = "raise" if r[0] == "unique" else "earlier" if r[1] == o else "later"
            mk = (lambda: W.ZonedDateTime(**p, tz=x.tz, disambiguate=dis)) if kind == "ZonedDateTime" else (lambda: W.SystemDateTime(**p, disambiguate=dis))
            strictly_equal(mk(), x, f"rebuilt from {p}, {key}, {dis}")
            # replacing with its own parts changes nothing
            strictly_equal(x.replace(**p), x, f"{x!r}.replace() of its own parts")
            strictly_equal(x.replace_date(x.date()), x, f"{x!r}.replace_date() of its own date")
            strictly_equal(x.replace_time(x.time()), x, f"{x!r}.replace_time() of its own time")
        l = x.local()
        eq(parts("LocalDateTime", l), p, f"{x!r}.local()")
        strictly_equal(x.date().at(x.time()), l, f"{x!r}.date().at(.time())")


DEFAULTED = ("hour", "minute", "second", "nanosecond")


@check("C24", lambda: st.tuples(gen.local, gen.offset, gen.tzkey, ints(0, 6), st.lists(st.sampled_from(DEFAULTED), unique=True, max_size=4), st.booleans()), quick=10000,
       rule="some field is left to its default, or given by keyword, and the value has a fraction or an offset with minutes")
def constructed(ctx, case):
    """constructors: fields given by position or by keyword, or left out for zero, denote the same"""
    l, off, key, npos, zero, by_hours = case
    y, m, d, tod = l
    h, mi, s, ns = cal.split_ns(tod)
    f = {"year": y, "month": m, "day": d, "hour": h, "minute": mi, "second": s, "nanosecond": ns}
    for q in zero:
        f[q] = 0
    tod = ((f["hour"] * 60 + f["minute"]) * 60 + f["second"]) * NS + f["nanosecond"]
    n = cal.local_ns(y, m, d, tod)
    order = list(f)[:6]
    pos = [f[q] for q in order[:npos]]
    kw = {q: v for q, v in f.items() if q not in order[:npos] and not (q in zero and q in DEFAULTED)}
    what = f"(*{pos}, **{kw})"
    ctx.nontrivial(bool(zero) or npos < 6, "form")
    eq(obs(W.LocalDateTime(*pos, **kw)), model_obs(["LocalDateTime", y, m, d, tod]), "LocalDateTime" + what)
    x = W.Instant.from_utc(*pos, **kw)
    eq(obs(x), model_obs(["Instant", n]), "Instant.from_utc" + what)
    eq(x.timestamp_nanos(), n, "Instant.from_utc" + what)
    if npos >= 3:
        tkw = {q: v for q, v in kw.items() if q not in ("year", "month", "day")}
        eq(obs(W.Time(*pos[3:], **tkw)), model_obs(["Time", tod]), f"Time(*{pos[3:]}, **{tkw})")
    eq(obs(W.Date(*pos[:3], **{q: v for q, v in kw.items() if q in ("year", "month", "day")})), model_obs(["Date", y, m, d]), "Date" + what)
    if by_hours:
        off = int(off / 3600) * 3600
    o = off // 3600 if by_hours else tdns(off * NS)
    if cal.in_range(n - off * NS):
        eq(obs(W.OffsetDateTime(*pos, **kw, offset=o)), model_obs(["OffsetDateTime", off, n - off * NS]), f"OffsetDateTime{what} at {o!r}")
    else:
        expect_raises(ValueError, lambda: W.OffsetDateTime(*pos, **kw, offset=o), f"OffsetDateTime{what} at {o!r}")
    r = tz.zone(key).resolve(n // NS)
    if r[0] == "unique" and cal.in_range(n - r[1] * NS):
        u = n - r[1] * NS
        # the option has no effect on a time which occurs once
        dis = (None, "raise", "earlier", "later", "compatible")[(y + m + d + npos) % 5]
        if dis:
            kw["disambiguate"] = dis
            what = what[:-1] + f", disambiguate={dis!r})"
        eq(obs(W.ZonedDateTime(*pos, **kw, tz=key)), model_obs(["ZonedDateTime", key, u]), f"ZonedDateTime{what} in {key}")
        if supported(key, u):
            with system_tz(key):
                eq(obs_system(W.SystemDateTime(*pos, **kw)), (u, r[1]), f"SystemDateTime{what} in {key}")


@check("C24", lambda: st.tuples(ints(1, 9999), ints(0, 99), ints(1, 12), ints(27, 32)), quick=6000,
       rule="a day that only some months or years have")
def month_ends(ctx, case):
    """combining years, months and days, aimed at month ends and century years"""
    y, c, m, d = case
    y2 = c * 100 or 9999
    for yy in (y, y2, (y + 3) // 4 * 4 % 10000 or 4):
        for mm in (m, 2):
            ctx.nontrivial(d > 28)
            if d <= cal.dim(2000, mm):
                a = W.MonthDay(mm, d)
                fs = [("in_year", lambda: a.in_year(yy))]
                eq(a.is_leap(), (mm, d) == (2, 29), f"{a!r}.is_leap()")
            else:
                expect_raises((ValueError,), lambda: W.MonthDay(mm, d), f"MonthDay({mm}, {d})")
                fs = []
            b = W.YearMonth(yy, mm)
            fs += [("on_day", lambda: b.on_day(d)), ("Date", lambda: W.Date(yy, mm, d)),
                   ("replace", lambda: W.Date(y, mm, 1).replace(year=yy, day=d)),
                   ("replace month", lambda: W.Date(yy, 1, min(d, 31)).replace(month=mm, day=d)),
                   ("replace local", lambda: W.LocalDateTime(yy, 1, 1).replace(month=mm, day=d).date()),
                   ("parse", lambda: W.Date.parse_common_iso(cal.fmt_date(yy, mm, d)))]
            for nm, f in fs:
                if d <= cal.dim(yy, mm):
                    eq(obs_date(f()), (yy, mm, d), f"{nm} of {yy}, {mm}, {d}")
                else:
                    expect_raises((ValueError,), f, f"{nm} of {yy}, {mm}, {d}")


@check("C24", lambda: st.tuples(gen.date, gen.tod, gen.date, gen.tod), quick=12000, rule="the dates and times differ")
def combine(ctx, case):
    d, t, d2, t2 = case
    D, T, D2, T2 = W.Date(*d), mk_time(t), W.Date(*d2), mk_time(t2)
    ctx.nontrivial(d != d2 and t != t2)
    x = D.at(T)
    eq(obs_local(x), (*d, t), f"{D!r}.at({T!r})")
    strictly_equal(T.on(D), x, f"{T!r}.on({D!r})")
    strictly_equal(x.date(), D, f"{x!r}.date()")
    strictly_equal(x.time(), T, f"{x!r}.time()")
    y = x.replace_date(D2)
    eq(obs_local(y), (*d2, t), f"{x!r}.replace_date({D2!r})")
    z = x.replace_time(T2)
    eq(obs_local(z), (*d, t2), f"{x!r}.replace_time({T2!r})")
    strictly_equal(y.replace_time(T2), z.replace_date(D2), "replacing date and time in either order")
    strictly_equal(y.replace_date(D), x, "replacing back")
    # parts of dates
    ym, md_ = D.year_month(), D.month_day()
    eq(obs(ym), ("YearMonth", d[0], d[1]), f"{D!r}.year_month()")
    eq(obs(md_), ("MonthDay", d[1], d[2]), f"{D!r}.month_day()")
    strictly_equal(ym.on_day(d[2]), D, f"{ym!r}.on_day({d[2]})")
    strictly_equal(md_.in_year(d[0]), D, f"{md_!r}.in_year({d[0]})")
    eq(md_.is_leap(), d[1:] == [2, 29], f"{md_!r}.is_leap()")
    for nm, ok, f, want in (
        ("on_day", d2[2] <= cal.dim(d[0], d[1]), lambda: ym.on_day(d2[2]), (d[0], d[1], d2[2])),
        ("in_year", d[2] <= cal.dim(d2[0], d[1]), lambda: md_.in_year(d2[0]), (d2[0], d[1], d[2])),
    ):
        if ok:
            eq(obs_date(f()), want, f"{nm} of {D!r}, {D2!r}")
        else:
            expect_raises((ValueError,), f, f"{nm} of {D!r}, {D2!r}")
            ctx.nontrivial(True, "impossible day")
    for bad in (0, 32, -1):
        expect_raises(RANGE, lambda: ym.on_day(bad), f"on_day({bad})")
    for bad in (0, 10000, -1):
        expect_raises(RANGE, lambda: md_.in_year(bad), f"in_year({bad})")


# ---------------------------------------------------------------- immutability

CONSTANTS = {
    "Date.MIN": lambda: W.Date.MIN, "Date.MAX": lambda: W.Date.MAX, "YearMonth.MIN": lambda: W.YearMonth.MIN, "YearMonth.MAX": lambda: W.YearMonth.MAX,
    "MonthDay.MIN": lambda: W.MonthDay.MIN, "MonthDay.MAX": lambda: W.MonthDay.MAX, "Time.MIDNIGHT": lambda: W.Time.MIDNIGHT,
    "Time.NOON": lambda: W.Time.NOON, "Time.MAX": lambda: W.Time.MAX, "LocalDateTime.MIN": lambda: W.LocalDateTime.MIN,
    "LocalDateTime.MAX": lambda: W.LocalDateTime.MAX, "Instant.MIN": lambda: W.Instant.MIN, "Instant.MAX": lambda: W.Instant.MAX,
    "TimeDelta.MIN": lambda: W.TimeDelta.MIN, "TimeDelta.MAX": lambda: W.TimeDelta.MAX, "TimeDelta.ZERO": lambda: W.TimeDelta.ZERO,
    "DateDelta.ZERO": lambda: W.DateDelta.ZERO, "DateTimeDelta.ZERO": lambda: W.DateTimeDelta.ZERO,
}
CONST_OBS = {
    "Date.MIN": ("Date", 1, 1, 1), "Date.MAX": ("Date", 9999, 12, 31), "YearMonth.MIN": ("YearMonth", 1, 1), "YearMonth.MAX": ("YearMonth", 9999, 12),
    "MonthDay.MIN": ("MonthDay", 1, 1), "MonthDay.MAX": ("MonthDay", 12, 31), "Time.MIDNIGHT": ("Time", 0), "Time.NOON": ("Time", DAY_NS // 2),
    "Time.MAX": ("Time", DAY_NS - 1), "LocalDateTime.MIN": ("LocalDateTime", 1, 1, 1, 0), "LocalDateTime.MAX": ("LocalDateTime", 9999, 12, 31, DAY_NS - 1),
    "Instant.MIN": ("Instant", cal.MIN_NS_TS), "Instant.MAX": ("Instant", cal.MAX_NS_TS),
    "TimeDelta.ZERO": ("TimeDelta", 0), "DateDelta.ZERO": ("DateDelta", 0, 0), "DateTimeDelta.ZERO": ("DateTimeDelta", 0, 0, 0),
}


def snapshot(x):
    return (obs(x), str(x), repr(x), hash(x), pickle.dumps(x))


def constants(what):
    for k, f in CONSTANTS.items():
        want = CONST_OBS.get(k)
        if want is None:
            want = ("TimeDelta", gen.MAX_TD * (-1 if k.endswith("MIN") else 1))
        eq(obs(f()), want, f"{what}: {k}")


def poke(x, name, value):
    """assigning or deleting an attribute is refused"""
    for how, f in (("set", lambda: setattr(x, name, value)), ("delete", lambda: delattr(x, name))):
        s, r = outcome(f)
        true(s == "err" and isinstance(r, (AttributeError, TypeError)), f"{how} {name} of {x!r}: {r!r}")


def public_names(x):
    return [n for n in dir(type(x)) if not n.startswith("_")] + ["foo", "value"]


mut_step = st.tuples(ints(0, 9), ints(0, 9), ops.op, ints(0, 7)).map(list)


@check("C24", lambda: st.tuples(st.lists(any_value(), min_size=2, max_size=4), st.lists(mut_step, min_size=2, max_size=10)), quick=10000,
       rule="at least two operations succeeded on shared operands")
def immutability(ctx, case):
    vs, steps = case
    with system_tz("Europe/Amsterdam"):
        pool = [build(v) for v in vs]
        snaps = [snapshot(x) for x in pool]
        done = 0
        for i, j, op, extra in steps:
            x, y = pool[i % len(pool)], pool[j % len(pool)]
            if extra == 0:
                names = public_names(x)
                name = names[op[0] % len(names)]
                poke(x, name, op[1]["k"])
                what = f"assigning {name} of {x!r}"
                ctx.label("assignment")
            elif extra == 1:
                z = x
                what = f"augmented assignment on {x!r}"
                for f in (lambda: z.__class__ is None,):
                    f()
                try:
                    z += (W.DateDelta(days=1) if type(x) in (W.Date, W.LocalDateTime, W.ZonedDateTime, W.DateDelta) else tdns(5))
                except (TypeError, ValueError, OverflowError):
                    pass
                try:
                    z *= 2
                except (TypeError, ValueError, OverflowError):
                    pass
            elif extra == 2:
                what = f"comparing {x!r} and {y!r}"
                x == y, x != y, hash(x), bool(x)
                outcome(lambda: x < y), outcome(lambda: x >= y), outcome(lambda: x + y), outcome(lambda: x - y)
            else:
                name, f = ops.get(x, op, y)
                what = f"{x!r} {name} {op[1]}"
                s, r = outcome(f)
                if s == "ok":
                    done += 1
                    if len(pool) < 8:
                        pool.append(r)
                        snaps.append(snapshot(r))
            for k, (q, sn) in enumerate(zip(pool, snaps)):
                now = snapshot(q)
                if now != sn:
                    fail(f"{what} changed operand {k} from {sn[:3]} to {now[:3]}")
        constants("afterwards")
        ctx.nontrivial(done >= 2)


@check("C24", lambda: st.tuples(any_value(), any_value(), ops.bundle), quick=4000,
       rule="at least half of the type's operations succeeded on the value")
def operands_untouched(ctx, case):
    """every operation of the type, on one value"""
    a, b, bundle = case
    with system_tz("Europe/Amsterdam"):
        x, y = build(a), build(b)
        sx, sy = snapshot(x), snapshot(y)
        ok = 0
        n = len(ops.OPS[type(x)])
        for i in range(n):
            name, f = ops.get(x, [i, bundle], y)
            s, r = outcome(f)
            ok += s == "ok"
            for v, want in ((x, sx), (y, sy)):
                now = snapshot(v)
                if now != want:
                    fail(f"{name} {bundle} changed an operand from {want[:3]} to {now[:3]}")
        for f in (lambda: x + y, lambda: x - y, lambda: x * 2, lambda: 2 * x, lambda: +x, lambda: x / 2, lambda: x // y, lambda: x % y,
                  lambda: bool(x), lambda: x == y, lambda: x < y, lambda: f"{x}", lambda: x.exact_eq(y), lambda: x.format_rfc3339(),
                  lambda: x.format_rfc2822(), lambda: x.timestamp_nanos(), lambda: x.difference(y), lambda: x.in_months_days_secs_nanos()):
            outcome(f)
            true(snapshot(x) == sx and snapshot(y) == sy, f"an operand changed: {snapshot(x)[:3]} {snapshot(y)[:3]}, was {sx[:3]} {sy[:3]}")
        ctx.nontrivial(ok * 2 >= n, a[0])


both_sides("C24", parts_rebuild, lambda key, n, kind: (["ZonedDateTime", key, n] if kind == "ZonedDateTime" else ["SystemDateTime", clampn(n, 6 * DAY_NS)], key),
           pick("ZonedDateTime", "SystemDateTime"), quick=3000)
