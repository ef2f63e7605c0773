"""C22: system-timezone datetimes behave like that zone and are frozen once created."""
import datetime as _dt

from .common import *
from .. import ops, text
from .c11 import big_jump

dis_opt = ops.dis_opt


def supported(key, n):
    """instants where the platform's local time can follow: not the outer days of the range, nor
    the surroundings of a jump of about a day, nor rule strings before 1970 (glibc doesn't apply the rules there)"""
    if key.startswith("posix:") and n < 366 * DAY_NS:
        return False
    return SYS_LO < n < SYS_HI and not big_jump(key, n)


def judge(key, want, f, what):
    """f gives the system value of model result `want` (thunk)"""
    try:
        w = want()
    except model.Refused as r:
        if r.kind == "weird":
            return None
        expect_raises(expected_error(r.kind), f, what)
        return None
    x = f()
    eq(obs_system(x), w, what + " (utc ns, offset)")
    return x, w


def dkw(dis):
    return {} if dis is None else {"disambiguate": dis}


@check("C22", lambda: st.tuples(gen.zone_local, gen.disambig, ints(0, 4)), quick=12000,
       rule="the local time is repeated or skipped in the zone")
def creation(ctx, case):
    (key, *l), dis, how = case
    loc = cal.local_ns(*l)
    if not supported(key, loc):
        return
    r = tz.zone(key).resolve(loc // NS)[0]
    ctx.nontrivial(r in ("repeated", "skipped"), r)
    a, kw = local_args(l)
    default = dis == "compatible" and how % 2
    dk = {} if default else {"disambiguate": dis}
    with system_tz(key):
        if how <= 1:
            f = lambda: W.SystemDateTime(*a, **kw, **dk)
            g = lambda: W.ZonedDateTime(*a, **kw, tz=key, **dk)
        else:
            f = lambda: mk_local(l).assume_system_tz(**dk)
            g = lambda: mk_local(l).assume_tz(key, **dk)
        what = f"{l} in system timezone {key} ({dis})"
        judge(key, lambda: model.resolve(key, loc, dis), f, what)
        same(f, g, what)


def same(f, g, what):
    """system operation f and zoned operation g have the same outcome"""
    s, x = outcome(f)
    s2, z = outcome(g)
    eq(s, s2, f"{what}: outcome compared with the named zone ({x!r} / {z!r})")
    if s == "err":
        a, b = ("range" if isinstance(e, RANGE) else type(e).__name__ for e in (x, z))
        eq(a, b, f"{what}: error compared with the named zone")
    elif isinstance(z, W.ZonedDateTime):
        eq(obs_system(x), obs_zoned(z)[:2], f"{what}: compared with the named zone")
        true(x == z and hash(x) == hash(z), f"{what}: equality with the value in the named zone")
    else:
        eq(obs(x), obs(z), f"{what}: compared with the named zone")
    return x, z


SKIP = {"iso", "pickle", "deepcopy", "py"}
PAIRED = [o for o in ops.ZONEDISH if o[0] not in SKIP and o[0] != "-"]


@check("C22", lambda: st.tuples(gen.zoned_mid, ints(0, len(PAIRED) - 1), ops.bundle, ints(0, 2)), quick=26000,
       rule="the outcome is an error of disambiguation, or the offset changes, or the start is repeated")
def operations(ctx, case):
    """every operation, compared with the same operation on the named zone"""
    (key, n), i, b, near = case
    n = clampn(n, 6 * DAY_NS)
    if not supported(key, n):
        return
    if near == 0:   # stay close, so that transitions are met
        b = {**b, "mo": b["mo"] % 3 - 1, "da": b["da"] % 5 - 2, "ns": b["ns"] % (7200 * NS) // NS * NS}
    name, f = PAIRED[i]
    with system_tz(key):
        x, z = system_value(n), mk_zoned(key, n)
        if name in ("replace", "replace_date", "replace_time") and near <= 1:
            y, m, d, t = cal.split_local(local_ns_of(z))
            b = {**b, "date": [y, m, d], "tod": b["tod"] if name != "replace_date" else t}
        what = f"{name} {b} on {x!r} in system timezone {key}"
        s2, rz = outcome(lambda: f(z, b, None))
        if s2 == "ok" and isinstance(rz, W.ZonedDateTime) and name not in ("to_tz",):
            if not supported(key, rz.timestamp_nanos()):
                return
        if s2 == "err" and isinstance(rz, RANGE):
            return   # near the ends, where the platform gives up earlier
        if name == "to_system_tz":
            eq(obs_system(f(x, b, None)), obs_system(x), what)
            return
        if name in ("to_tz", "to_fixed_offset(o)", "to_fixed_offset()", "instant", "local", "date", "time", "date().at(time())", "day_length"):
            rx = f(x, b, None)
            eq(obs(rx), obs(rz), what)
            ctx.nontrivial(name == "day_length" and obs(rz)[1] != DAY_NS, name)
            return
        # the intermediate date of a calendar shift must be supported as well
        if name.startswith(("add", "subtract", "+ dtd")):
            q = cal.split_local(local_ns_of(z))
            sg = -1 if name.startswith("sub") else 1
            mo, da = (b["mo"], b["da"]) if name == "add(kw)" else (b["mo"], abs(b["da"]) * (-1 if b["mo"] < 0 else 1)) if name != "add(hours)" else (0, 0)
            r = cal.shift_date(*q[:3], sg * mo, sg * da)
            if r is not None and not supported(key, cal.local_ns(*r, q[3])):
                return
        same(lambda: f(x, b, None), lambda: f(z, b, None), what)
        ctx.label(name)
        if s2 == "err":
            ctx.nontrivial(True, type(rz).__name__)
        else:
            ctx.nontrivial(off_of(rz) != off_of(z), "offset changed")
        ctx.nontrivial(z.is_ambiguous(), "ambiguous")
        eq(x.is_ambiguous(), z.is_ambiguous(), f"is_ambiguous of {x!r} in {key}")


@check("C22", lambda: st.tuples(gen.zoned_mid, ints(0, 3)), quick=8000, rule="the local time is repeated, or within a day of a transition")
def from_timestamps(ctx, case):
    (key, n), scale = case
    n = clampn(n, 6 * DAY_NS)
    if not supported(key, n):
        return
    k = (NS, 10**6, 1, 1)[scale]
    i = n // k
    n = i * k
    if not supported(key, n):
        return
    o = tz.zone(key).offset_at(n // NS)
    ctx.nontrivial(tz.zone(key).resolve(n // NS + o)[0] == "repeated", "repeated")
    ctx.nontrivial(tz.zone(key).offset_at(n // NS - DAY_S) != tz.zone(key).offset_at(n // NS + DAY_S))
    with system_tz(key):
        if scale == 0:
            f = lambda: W.SystemDateTime.from_timestamp(i)
        elif scale == 1:
            f = lambda: W.SystemDateTime.from_timestamp_millis(i)
        elif scale == 2:
            f = lambda: W.SystemDateTime.from_timestamp_nanos(i)
        else:
            def f():
                with W.patch_current_time(mk_instant(n), keep_ticking=False):
                    eq(obs_date(W.Date.today_in_system_tz()), cal.split_local(n + o * NS)[:3], f"today_in_system_tz at {n} in {key}")
                    return W.SystemDateTime.now()
        eq(obs_system(f()), (n, o), f"system value of timestamp {i} (scale {k}) in {key}")


# ---------------------------------------------------------------- histories with changing zone

RULES = ("localtime", "posix:", "posix:<+0330>-3:30", "posix:XYZ4:15:30", "posix:EST5EDT,M3.2.0,M11.1.0", "posix:AEST-10AEDT,M10.1.0,M4.1.0/3", "posix:IST-1GMT0,M10.5.0,M3.5.0/1", "posix:<-03>3<-02>,M3.5.0/-2,M10.5.0/-1",
         "posix:<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "posix:CET-1CEST,J60/0,J300/23:30:15", "posix:XXX3:15:30YYY,59/12,299/1", "posix:AAA-12BBB-13:45,M9.5.0/2:45,M4.1.0/3:45", "posix:EST5EDT4,J1/0,J182/0")
few_zones = weighted((1, pick(*RULES)), (3, pick("Europe/Amsterdam", "America/New_York", "UTC", "Asia/Tehran", "Australia/Lord_Howe")), (1, gen.tzkey))
hist_step = weighted(
    (3, few_zones.map(lambda k: ["tz", k])),
    (2, st.just(["convert"])),
    (2, st.tuples(st.just("relocal"), gen.disambig).map(list)),
    (2, st.tuples(st.just("instant")).map(list)),
    (3, st.tuples(st.just("replace_time"), gen.tod, dis_opt).map(list)),
    (2, st.tuples(st.just("replace_date"), ints(-3, 3), dis_opt).map(list)),
    (2, st.tuples(st.just("replace"), ints(0, 23), ints(0, 59), dis_opt).map(list)),
    (3, st.tuples(st.just("add"), ints(-14, 14), ints(-40, 40), weighted((1, st.just(0)), (2, gen.small_td_ns)), dis_opt).map(list)),
    (2, st.tuples(st.just("+"), gen.small_td_ns.map(lambda x: x or NS)).map(list)),
    (1, st.just(["start_of_day"])),
    (2, st.tuples(st.just("keep"), ints(0, 4)).map(list)),
)


@st.composite
def _history(draw):
    k0, n = draw(gen.zoned_mid)
    steps = draw(st.lists(hist_step, min_size=2, max_size=9))
    return [k0, clampn(n, 400 * DAY_NS), steps]


def frozen(x, st0, what):
    """everything visible of x is as it was"""
    n, o = st0
    eq(obs_system(x), (n, o), what)
    eq(str(x), text.iso(["OffsetDateTime", o, n]), what + ": text")
    y, m, d, t = cal.split_local(n + o * NS)
    eq(obs_local(x.local()), (y, m, d, t), what + ": local()")
    eq(obs_instant(x.instant()), n, what + ": instant()")
    eq(obs_offset(x.to_fixed_offset()), (n, o), what + ": to_fixed_offset()")
    eq(x.timestamp(), n // NS, what + ": timestamp()")
    true(x == mk_instant(n) and hash(x) == hash(mk_instant(n)), what + ": == and hash")
    true(x.py_datetime().utcoffset() == _dt.timedelta(seconds=o), what + ": py_datetime()")


@check("C22", _history, quick=16000, rule="an operation is applied to a value whose offset the system timezone does not have, and the zone changes at least once")
def histories(ctx, case):
    key, n, steps = case
    if not supported(key, n):
        return
    with system_tz(key):
        x = system_value(n)
        cur = (n, tz.zone(key).offset_at(n // NS))
        frozen(x, cur, f"start {x!r} in {key}")
        stale = False
        for s in steps:
            op = s[0]
            what = f"{s} on {x!r}, system timezone {key}{' (changed since creation)' if stale else ''}"
            n, o = cur
            loc = n + o * NS
            y, m, d, t = cal.split_local(loc)
            before = x
            if not cal.in_range(n - 500 * DAY_NS) or not cal.in_range(n + 500 * DAY_NS):
                return   # the ends of the range are not the platform's strength
            if op == "tz":
                if not supported(s[1], n):
                    continue
                key = s[1]
                set_tz(key)
                frozen(x, cur, what)
                stale = True
                continue
            if op == "convert":
                want, f = (lambda: model.at(key, n)), (lambda: x.to_system_tz())
            elif op == "relocal":
                want, f = (lambda: model.resolve(key, loc, s[1])), (lambda: x.local().assume_system_tz(disambiguate=s[1]))
            elif op == "instant":
                want, f = (lambda: model.at(key, n)), (lambda: x.instant().to_system_tz())
            elif op == "replace_time":
                nl = cal.local_ns(y, m, d, s[1])
                want, f = (lambda: model.resolve(key, nl, s[2], prev=o)), (lambda: x.replace_time(mk_time(s[1]), **dkw(s[2])))
            elif op == "replace_date":
                y2, m2, d2 = cal.shift_date(y, m, d, 0, s[1])
                want, f = (lambda: model.resolve(key, cal.local_ns(y2, m2, d2, t), s[2], prev=o)), (lambda: x.replace_date(W.Date(y2, m2, d2), **dkw(s[2])))
            elif op == "replace":
                nl = cal.local_ns(y, m, d, (s[1] * 60 + s[2]) * 60 * NS + t % (60 * NS))
                want, f = (lambda: model.resolve(key, nl, s[3], prev=o)), (lambda: x.replace(hour=s[1], minute=s[2], **dkw(s[3])))
            elif op == "add":
                if not (s[1] or s[2] or s[3]):
                    continue

                def want():
                    q = (n, o)
                    if s[1] or s[2]:
                        q = model.resolve(key, cal.local_ns(*cal.shift_date(y, m, d, s[1], s[2]), t), s[4], prev=o)
                    if not s[3]:
                        return q if (s[1] or s[2]) else model.at(key, n)
                    return model.at(key, q[0] + s[3])
                how = abs(s[1] + s[2] + s[3] + n // NS)
                same = all(v >= 0 for v in s[1:4]) or all(v <= 0 for v in s[1:4])
                if same and how % 3 == 0:   # as a delta
                    D = W.DateTimeDelta(months=s[1], days=s[2], nanoseconds=s[3])
                    if not s[3] and how % 2:
                        D = D.date_part()
                    ctx.label("shift by a delta")
                    f = [lambda: x.add(D, **dkw(s[4])), lambda: x.subtract(-D, **dkw(s[4])), lambda: x + D if s[4] is None else x.add(D, **dkw(s[4])),
                         lambda: x - -D if s[4] is None else x.subtract(-D, **dkw(s[4]))][how // 3 % 4]
                elif how % 2:
                    f = lambda: x.subtract(**spread(-s[1], -s[2], -s[3], how // 2), **dkw(s[4]))
                else:
                    f = lambda: x.add(**spread(s[1], s[2], s[3], how // 2), **dkw(s[4]))
                mid = cal.local_ns(*cal.shift_date(y, m, d, s[1], s[2]), t)
                if not supported(key, mid):
                    continue
            elif op == "+":
                want, f = (lambda: model.at(key, n + s[1])), (lambda: x + tdns(s[1]))
            elif op == "start_of_day":
                want, f = (lambda: model.start_of_day(key, y, m, d)), (lambda: x.start_of_day())
            else:
                f = [lambda: W.SystemDateTime.parse_common_iso(x.format_common_iso()), lambda: pickle.loads(pickle.dumps(x)),
                     lambda: copy.deepcopy(x), lambda: W.SystemDateTime.from_py_datetime(x.py_datetime()),
                     lambda: x.add()][4 if s[1] == 3 and n % 1000 else s[1]]
                want = lambda: cur
            try:
                w = want()
            except model.Refused:
                w = None
            if w is not None and op != "keep" and not supported(key, w[0]):
                continue
            if stale and op != "keep":
                ctx.nontrivial(tz.zone(key).offset_at(n // NS) != o, op)
            r = judge(key, want, f, what)
            frozen(before, cur, what + ": the operand afterwards")
            if r is None:
                continue
            x, cur = r
            if op != "keep":
                stale = False


@st.composite
def _rules(draw):
    """[rule string, utc ns near one of its changes, rule of disambiguation, days, time of day]"""
    key = draw(pick(*RULES))
    y = draw(weighted((3, ints(1972, 2100)), (1, pick(1972, 2000, 2037, 2038, 2096, 2100, 2104, 2400, 9998)), (1, ints(1972, 2500))))
    tr = tz.zone(key).transitions(cal.day_number(y, 1, 1) * DAY_S, cal.day_number(y + 1, 1, 1) * DAY_S)
    s = draw(pick(*[u for u, _, _ in tr])) if tr else cal.day_number(y, 1, 1) * DAY_S + draw(ints(0, 366)) * DAY_S
    return [key, (s + draw(weighted((3, ints(-4 * 3600, 4 * 3600)), (1, pick(0, -1, 3600, -3600)), (1, ints(-40 * DAY_S, 40 * DAY_S))))) * NS + draw(gen.nanos), draw(dis_opt), draw(ints(-2, 2)), draw(gen.tod)]


@check("C22", _rules, quick=8000, rule="the local time is repeated or skipped by the rules")
def rule_strings(ctx, case):
    """the system timezone given as rules (TZ=EST5EDT,M3.2.0,M11.1.0), without a name in the database, or not given at all"""
    key, n, dis, days, t = case
    o = tz.zone(key).offset_at(n // NS)
    loc = n + o * NS
    with system_tz(key):
        x = system_value(n)
        frozen(x, (n, o), f"{n} in TZ={key}")
        other = loc + days * 1800 * NS
        kind = tz.zone(key).resolve(other // NS)[0]
        ctx.nontrivial(kind in ("repeated", "skipped"), kind)
        l = list(cal.split_local(other))
        d = dis or "compatible"
        a, kw = local_args(l)
        for f in (lambda: W.SystemDateTime(*a, **kw, disambiguate=d), lambda: mk_local(l).assume_system_tz(disambiguate=d)):
            judge(key, lambda: model.resolve(key, other, d), f, f"{l} in TZ={key} ({d})")
        y, m, dd, tt = cal.split_local(loc)
        r = tz.zone(key).resolve(loc // NS)
        if r[0] != "weird":
            eq(x.is_ambiguous(), r[0] == "repeated", f"{x!r}.is_ambiguous() in TZ={key}")
        judge(key, lambda: model.start_of_day(key, y, m, dd), lambda: x.start_of_day(), f"{x!r}.start_of_day() in TZ={key}")
        q = cal.shift_date(y, m, dd, 0, 1)
        try:
            want = model.start_of_day(key, *q[:3])[0] - model.start_of_day(key, y, m, dd)[0]
        except model.Refused:
            want = None
        if want is not None:
            eq(x.day_length().in_nanoseconds(), want, f"{x!r}.day_length() in TZ={key}")
        for f, l2 in ((lambda: x.replace_time(mk_time(t), **dkw(dis)), cal.local_ns(y, m, dd, t)), (lambda: x.replace_date(W.Date(*l[:3]), **dkw(dis)), cal.local_ns(*l[:3], tt)),
                      (lambda: x.replace(hour=a[3], minute=a[4], **dkw(dis)), cal.local_ns(y, m, dd, (a[3] * 60 + a[4]) * 60 * NS + tt % (60 * NS)))):
            judge(key, lambda: model.resolve(key, l2, dis, prev=o), f, f"{x!r} with other parts in TZ={key} ({dis})")
        for dd2 in (days, 7 * days):
            if dd2:
                judge(key, lambda: model.shift_zoned(key, n, 0, dd2, t, dis), lambda: x.add(**spread(0, dd2, t, l[2]), **dkw(dis)), f"{x!r} + {dd2} days and {t} ns in TZ={key} ({dis})")
        judge(key, lambda: model.at(key, n + t), lambda: x + tdns(t), f"{x!r} + {t} ns in TZ={key}")
        k = ("UTC", "Asia/Kolkata", "America/New_York")[days % 3]
        eq(obs_zoned(x.to_tz(k)), (n, tz.zone(k).offset_at(n // NS), k), f"{x!r}.to_tz({k!r})")


@st.composite
def _foreign(draw):
    """a local time to resolve in the system timezone, starting from a value with an offset of
    the zone's own or of another zone"""
    key, *l = draw(gen.zone_local)
    loc = cal.local_ns(*l)
    r = tz.zone(key).resolve(loc // NS)
    o = draw(pick(*r[1:], 0) if draw(ints(0, 3)) and r[0] != "weird" else gen.offset)
    return [key, l, o, draw(ints(-2, 2)), draw(gen.tod), draw(dis_opt), draw(ints(0, 3))]


@check("C22", _foreign, quick=14000, rule="the local time is repeated or skipped in the system timezone")
def previous_offset(ctx, case):
    """with no rule given, the value's own offset is kept whenever the system timezone allows"""
    key, l, o, days, t, dis, how = case
    loc = cal.local_ns(*l)
    if not supported(key, loc) or not SYS_LO + 40 * DAY_NS < loc < SYS_HI - 40 * DAY_NS:
        return
    kind = tz.zone(key).resolve(loc // NS)[0]
    q = cal.shift_date(*l[:3], 0, days)
    if how == 0:
        start = [*q, l[3]]
        f = lambda: x.replace_date(W.Date(*l[:3]), **dkw(dis))
    elif how == 1:
        start = [*l[:3], t]
        f = lambda: x.replace_time(mk_time(l[3]), **dkw(dis))
    elif how == 2:
        start = [*q, t]
        a, k2 = local_args(l)
        f = lambda: x.replace(**dict(zip(("year", "month", "day", "hour", "minute", "second"), a)), **k2, **dkw(dis))
    else:
        if not days:
            return
        start = [*q, l[3]]
        f = lambda: x.subtract(**spread(0, days, 0, l[2]), **dkw(dis))
    ctx.nontrivial(kind in ("repeated", "skipped"), kind)
    with system_tz(key):
        x = W.SystemDateTime.parse_common_iso(text.iso(["OffsetDateTime", o, cal.local_ns(*start) - o * NS]))
        eq(obs_system(x), (cal.local_ns(*start) - o * NS, o), "parsed system value")
        judge(key, lambda: model.resolve(key, loc, dis, prev=o), f, f"{x!r} moved to {l} ({dis}) in system timezone {key}")


def _both(ctx, case):
    z, scale, i, b = case
    from_timestamps(ctx, (z, scale))
    operations(ctx, (z, i, b, 0))


both_sides("C22", _both, lambda key, n, e: ([key, n], *e), st.tuples(ints(0, 3), ints(0, len(PAIRED) - 1), ops.bundle))
