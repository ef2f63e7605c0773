"""C16: pickle, copy and deepcopy."""
import struct

from .common import *
from .c12 import strictly_equal

PLAIN = [k for k in ALL_KINDS if k != "SystemDateTime"]


def same(a, b, what):
    true(type(a) is type(b), f"{what}: type {type(a).__name__}")
    strictly_equal(a, b, what)
    eq(repr(a), repr(b), what + ": repr")


def copies(ctx, x):
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        same(pickle.loads(pickle.dumps(x, protocol=p)), x, f"pickle protocol {p}")
    same(copy.copy(x), x, "copy")
    same(copy.deepcopy(x), x, "deepcopy")
    a, b = copy.deepcopy([x, {x: x}])
    same(a, x, "deepcopy in a list")
    same(b[x], x, "deepcopy in a dict")
    (a, b), c = pickle.loads(pickle.dumps([(x, x), {"k": x}]))
    for y in (a, b, c["k"]):
        same(y, x, "pickled in a container")
    # a copy of a copy
    same(pickle.loads(pickle.dumps(copy.deepcopy(pickle.loads(pickle.dumps(x))))), x, "repeated copies")


def interesting(ctx, case):
    k = case[0]
    ctx.label(k)
    if k == "ZonedDateTime":
        z = tz.zone(case[1])
        o = z.offset_at(case[2] // NS)
        ctx.nontrivial(z.resolve(case[2] // NS + o)[0] == "repeated", "repeated hour")
        ctx.nontrivial(o % 60 != 0, "offset with seconds")
    if k in ("Instant", "ZonedDateTime", "OffsetDateTime"):
        ctx.nontrivial(case[-1] < 0, "before 1970")
        ctx.nontrivial(case[-1] % NS != 0, "fraction")
    if k in ("DateDelta", "TimeDelta", "DateTimeDelta"):
        ctx.nontrivial(any(v < 0 for v in case[1:]), "negative duration")
    if k in ("Date", "YearMonth", "LocalDateTime"):
        ctx.nontrivial(case[1] > 4095 or case[1] < 256, "far year")
    if k in ("Time", "LocalDateTime"):
        ctx.nontrivial(case[-1] % NS != 0, "fraction")


@check("C16", lambda: any_value(PLAIN), quick=16000,
       rule="repeated hour, offset with seconds, before 1970, sub-second, negative duration, or a year far from now")
def all_protocols(ctx, case):
    x = build(case)
    copies(ctx, x)
    eq(obs(pickle.loads(pickle.dumps(x))), model_obs(case), "parts of the unpickled value")
    interesting(ctx, case)


@check("C16", lambda: st.tuples(gen.zoned, gen.tzkey), quick=4000,
       rule="the system timezone differs between writing and reading, and the offset is not the reader's")
def system_values(ctx, case):
    (key, n), other = case
    n = clampn(n, 5 * DAY_NS)
    with system_tz(key):
        x = system_value(n)
        want = obs_system(x)
        copies(ctx, x)
        data = pickle.dumps(x)
    with system_tz(other):
        y = pickle.loads(data)
        same(y, x, "unpickled under another system timezone")
        eq(obs_system(y), want, "unpickled under another system timezone")
        ctx.nontrivial(tz.zone(other).offset_at(n // NS) != want[1])


@check("C16", lambda: st.tuples(gen.zoned, ints(0, ROUTES - 1)), quick=6000,
       rule="the local time is repeated")
def zoned_routes(ctx, case):
    (key, n), route = case
    x = zoned_via(key, n, route)
    copies(ctx, x)
    o = tz.zone(key).offset_at(n // NS)
    ctx.nontrivial(tz.zone(key).resolve(n // NS + o)[0] == "repeated", "repeated hour")


# -------------------------------------------------- the stable format

EPOCH_S = cal.days_before_year(1970) * DAY_S + DAY_S  # seconds since the day before 0001-01-01


def _dt(n):
    y, m, d, t = cal.split_local(n)
    h, mi, s, ns = cal.split_ns(t)
    return y, m, d, h, mi, s, ns


def stable(v):
    """function name and arguments of the documented stable format"""
    k = v[0]
    if k == "Date":
        return "_unpkl_date", (struct.pack("<HBB", *v[1:]),)
    if k == "YearMonth":
        return "_unpkl_ym", (struct.pack("<HB", *v[1:]),)
    if k == "MonthDay":
        return "_unpkl_md", (struct.pack("<BB", *v[1:]),)
    if k == "Time":
        return "_unpkl_time", (struct.pack("<BBBI", *cal.split_ns(v[1])),)
    if k == "TimeDelta":
        return "_unpkl_tdelta", (struct.pack("<qI", *divmod(v[1], NS)),)
    if k == "DateDelta":
        return "_unpkl_ddelta", (v[1], v[2])
    if k == "DateTimeDelta":
        s, ns = divmod(v[3], NS)
        return "_unpkl_dtdelta", (v[1], v[2], s, ns)
    if k == "Instant":
        return "_unpkl_utc", (struct.pack("<qL", v[1] // NS + EPOCH_S, v[1] % NS),)
    if k == "OffsetDateTime":
        return "_unpkl_offset", (struct.pack("<HBBBBBIl", *_dt(v[2] + v[1] * NS), v[1]),)
    if k == "ZonedDateTime":
        o = tz.zone(v[1]).offset_at(v[2] // NS)
        return "_unpkl_zoned", (struct.pack("<HBBBBBIl", *_dt(v[2] + o * NS), o), v[1])
    if k == "LocalDateTime":
        return "_unpkl_local", (struct.pack("<HBBBBBI", *_dt(cal.local_ns(*v[1:]))),)
    raise AssertionError(k)


def opcodes(fn, args):
    body = pickle.dumps(args, 2)[2:-1]
    return b"\x80\x02cwhenever\n" + fn.encode() + b"\n" + body + b"R."


@check("C16", lambda: any_value(PLAIN), quick=16000,
       rule="as in all_protocols")
def stable_format_loads(ctx, case):
    y = pickle.loads(opcodes(*stable(case)))
    same(y, build(case), "value loaded from the stable format")
    if case[0] == "OffsetDateTime":
        y = pickle.loads(opcodes("_unpkl_system", stable(case)[1]))
        eq(obs_system(y), (case[2], case[1]), "system value loaded from the stable format")
    interesting(ctx, case)


@st.composite
def _other_rules(draw):
    """[zone, local ns, offset]: the zone's own offsets at the local time (also when it is skipped), near misses, others"""
    key, *l = draw(gen.zone_local)
    loc = cal.local_ns(*l)
    r = tz.zone(key).resolve(loc // NS)
    own = [o for o in r[1:]] or [0]
    o = draw(weighted((4, pick(*own)), (3, st.tuples(pick(*own), pick(1, -1, 60, 1800, 3600, -3600, 7200)).map(sum)), (1, gen.offset)))
    return [key, loc, o if -DAY_S < o < DAY_S else own[0]]


@check("C16", _other_rules, quick=10000, rule="the timezone doesn't have this offset at the local time, or the time is repeated or skipped")
def written_under_other_rules(ctx, case):
    """a zoned value written when the timezone had other rules: the very local time and offset, or InvalidOffset"""
    key, loc, o = case
    r = tz.zone(key).resolve(loc // NS)
    if r[0] == "weird":
        return
    ctx.nontrivial(r[0] != "unique" or o != r[1], r[0])
    data = opcodes("_unpkl_zoned", (struct.pack("<HBBBBBIl", *_dt(loc), o), key))
    what = f"pickle of {cal.split_local(loc)} with offset {o} in {key}"
    if r[0] == "skipped" or o not in r[1:]:
        expect_raises(RANGE, lambda: pickle.loads(data), what)
    elif cal.in_range(loc - o * NS):
        eq(obs_zoned(pickle.loads(data)), (loc - o * NS, o, key), what)
    else:
        expect_raises(RANGE, lambda: pickle.loads(data), what)


both_sides("C16", all_protocols, lambda key, n, e: ["ZonedDateTime", key, n], quick=2000)
