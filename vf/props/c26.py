"""C26: timezone identifiers."""
import datetime as _dt
import enum
import importlib.util
import pathlib

from .common import *
from .. import text

ROOTS = list(tz._PATHS)
if (_spec := importlib.util.find_spec("tzdata")) is not None:  # the database as a package, read where the system has no such file
    ROOTS += [os.path.join(p, "zoneinfo") for p in _spec.submodule_search_locations]
REFUSED = (KeyError, ValueError, OSError, TypeError)


@st.composite
def _name(draw):
    """timezone identifiers: of the database, variations of those, and other texts"""
    k = draw(gen.tzkey)
    j = draw(ints(0, 15))
    if j <= 4:
        return k
    if j == 5:
        return draw(pick(k.lower(), k.upper(), k.swapcase(), k.title(), k.capitalize()))
    if j == 6:
        return draw(pick(" " + k, k + " ", k + "\n", "\t" + k, k + "\0", "\0" + k, k.replace("/", " / ", 1), k.replace("_", " ")))
    if j == 7:
        return draw(pick("./" + k, "/" + k, k + "/", k.replace("/", "//", 1), "Europe/../" + k, "../zoneinfo/" + k, k.replace("/", "/./", 1), "/usr/share/zoneinfo/" + k))
    if j == 8:
        i = draw(ints(0, len(k) - 1))
        return k[:i] + k[i + 1:]
    if j == 9:
        i = draw(ints(0, len(k)))
        return k[:i] + draw(pick(*"abzAZ019_/+-. :]ü\u0660\U0001d7ce")) + k[i:]
    if j == 10:
        return draw(pick("", ".", "..", "/", "Europe", "America/Argentina", "Amsterdam", "New_York", "tzdata.zi", "zone.tab", "+01:00", "UTC+1", "GMT+1", "Etc/GMT+25",
                         "Z", "utc", "local", "None", "CEST", "BST", "EST5", "<+03>-3", "EST5EDT,M3.2.0,M11.1.0", "Europe/Amsterdam,M3.5.0", "X" * 300, "a/" * 60, "\udc80", "Εurope/Athens"))
    if j == 11:
        return draw(pick("Etc/GMT+12", "Etc/GMT-14", "GMT0", "Etc/GMT0", "UCT", "Zulu", "EST", "CET", "EST5EDT", "W-SU", "NZ-CHAT", "America/Argentina/ComodRivadavia", "America/North_Dakota/New_Salem", "America/Port-au-Prince", "GB-Eire", "Asia/Ust-Nera", "Antarctica/DumontDUrville", "Etc/UTC", "Etc/Zulu", "GMT-0", "GMT+0"))
    if j == 12:
        return draw(st.sampled_from(tz.odd_names()))
    if j == 13:
        return draw(gen.tzkey)
    return draw(st.text(max_size=12))


def status(name):
    """'yes': an identifier of the database; 'no': certainly not; 'odd': a file there all the same"""
    if name in tz.KEYSET:
        return "yes"
    if "\0" in name or any(0xD800 <= ord(c) < 0xE000 for c in name):
        return "no"
    try:
        return "odd" if any((pathlib.Path(p) / name).exists() for p in ROOTS) else "no"
    except (OSError, ValueError):
        return "no"


def routes(name, n, l, key2):
    """(how, thunk, expected local time or None, expected instant or None) of all ways to name a timezone"""
    a, kw = local_args(l)
    i = mk_instant(n)
    yield "ZonedDateTime(tz=)", lambda: W.ZonedDateTime(*a, **kw, tz=name), "local"
    yield "assume_tz", lambda: mk_local(l).assume_tz(name), "local"
    yield "replace(tz=)", lambda: mk_local(l).assume_tz("UTC").replace(tz=name), "local"
    yield "Instant.to_tz", lambda: i.to_tz(name), "instant"
    yield "OffsetDateTime.to_tz", lambda: i.to_fixed_offset(3).to_tz(name), "instant"
    yield "ZonedDateTime.to_tz", lambda: i.to_tz(key2).to_tz(name), "instant"
    yield "SystemDateTime.to_tz", lambda: i.to_system_tz().to_tz(name), "instant"
    yield "from_timestamp", lambda: W.ZonedDateTime.from_timestamp(n // NS, tz=name), "second"
    yield "from_timestamp_millis", lambda: W.ZonedDateTime.from_timestamp_millis(n // 10**6, tz=name), "milli"
    yield "from_timestamp_nanos", lambda: W.ZonedDateTime.from_timestamp_nanos(n, tz=name), "instant"

    def now():
        with W.patch_current_time(i, keep_ticking=False):
            return W.ZonedDateTime.now(name)

    yield "now", now, "instant"


@check("C26", lambda: st.tuples(_name(), gen.instant_ns, gen.local, gen.tzkey), quick=12000,
       rule="the identifier is not one of the database, or is an alias or a fixed-offset zone with a sign in its name")
def every_entry_point(ctx, case):
    name, n, l, key2 = case
    n = clampn(n, 5 * DAY_NS)
    l = [min(max(l[0], 2), 9998), *l[1:3], l[3]]
    l[2] = min(l[2], cal.dim(l[0], l[1]))
    s = status(name)
    ctx.label({"yes": "known", "no": "unknown", "odd": "readable, not listed"}[s])
    ctx.nontrivial(s != "yes" or "/" not in name or any(c in "+-" for c in name))
    seen = {}
    for how, f, kind in routes(name, n, l, key2):
        what = f"{how} with {name!r}"
        k, x = outcome(f)
        seen[how] = k
        if k == "err":
            if s == "yes":
                fail(f"{what}: {x!r}")
            true(isinstance(x, REFUSED), f"{what}: {x!r}")
            continue
        if s == "no":
            fail(f"{what} gives {x!r}")
        true(type(x) is W.ZonedDateTime, f"{what}: {x!r}")
        eq(x.tz, name, f"tz of {what}")
        if s == "odd":
            continue
        if kind == "local":
            try:
                want = model.resolve(name, cal.local_ns(*l), "compatible")
            except model.Refused:
                continue
        else:
            m = {"instant": n, "second": n // NS * NS, "milli": n // 10**6 * 10**6}[kind]
            want = m, tz.zone(name).offset_at(m // NS)
        eq(obs_zoned(x)[:2], want, what)
        if how == "now":
            t = x.format_common_iso()
            eq(t, text.iso(["ZonedDateTime", name, n]), f"text of {what}")
            eq(obs_zoned(W.ZonedDateTime.parse_common_iso(t)), (*want, name), f"parsed {t!r}")
            eq(x.py_datetime().tzinfo.key, name, "key of the standard library timezone")
    if len(set(seen.values())) > 1:
        fail(f"{name!r} is accepted by some and refused by others: {seen}")
    if s == "no":
        t = f"2020-03-04T05:06:07+00:00[{name}]"
        expect_raises(REFUSED, lambda: W.ZonedDateTime.parse_common_iso(t), f"parse_common_iso({t!r})")


NOT_TEXT = [None, 0, 1, 1.5, b"UTC", True, ["UTC"], zoneinfo.ZoneInfo("UTC"), _dt.timezone.utc, object()]


@check("C26", lambda: st.tuples(ints(0, len(NOT_TEXT) - 1), gen.instant_ns), quick=300, rule="every case")
def not_a_text(ctx, case):
    j, n = case
    n = clampn(n, 5 * DAY_NS)
    ctx.nontrivial()
    for how, f, _ in routes(NOT_TEXT[j], n, [2020, 1, 2, 0], "UTC"):
        if NOT_TEXT[j] is None and how == "replace(tz=)":
            continue
        k, x = outcome(f)
        if k == "ok":
            fail(f"{how} with {NOT_TEXT[j]!r} gives {x!r}")


two_keys = weighted((3, st.sampled_from(tz.twins()).flatmap(lambda g: st.tuples(st.sampled_from(g), st.sampled_from(g)))), (1, st.tuples(gen.tzkey, gen.tzkey)))


@check("C26", lambda: st.tuples(two_keys, gen.instant_ns), quick=6000,
       rule="two identifiers with the same rules around that instant")
def identifiers_are_kept(ctx, case):
    """values in different timezones are never strictly equal, whatever their rules; the identifier survives"""
    (a, b), n = case
    n = clampn(n, 5 * DAY_NS)
    x, y = mk_zoned(a, n), mk_zoned(b, n)
    ctx.nontrivial(a != b and tz.zone(a).offset_at(n // NS) == tz.zone(b).offset_at(n // NS))
    true(x == y and hash(x) == hash(y), f"{x!r} and {y!r}: unequal")
    eq(x.exact_eq(y), a == b, f"{x!r}.exact_eq({y!r})")
    for z in (x, x + W.hours(1), x.add(days=1), x.replace(hour=12), x.start_of_day(), x.round("hour"), y.to_tz(a), x.instant().to_tz(a),
              pickle.loads(pickle.dumps(x)), copy.deepcopy(x), x.replace_time(W.Time.MIDNIGHT), x.local().assume_tz(a), x.replace(tz=b).replace(tz=a)):
        eq(z.tz, a, f"tz of {z!r}")
        eq(off_of(z), tz.zone(a).offset_at(z.timestamp()), f"offset of {z!r}")


class Shouting(str):
    """a text that shows itself in another way"""

    def __str__(self):
        return "<" + self[:] + ">"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


KINDS_OF_TEXT = [
    lambda k: enum.Enum("Zones", {"A": k}, type=str).A,
    lambda k: enum.StrEnum("Zones", {"A": k}).A,
    Shouting,
    lambda k: type("Plain", (str,), {})(k),
    lambda k: type("Slotted", (str,), {"__slots__": ()})(k),
]


@check("C26", lambda: st.tuples(gen.tzkey, ints(0, len(KINDS_OF_TEXT) - 1), gen.instant_ns, gen.local, gen.tzkey, ints(0, 12), st.booleans()), quick=4000,
       rule="the text is of a class that shows itself in another way (an enumeration, say)")
def subclassed_text(ctx, case):
    """identifiers of a subclass of str (members of an enumeration, mostly) name the timezone they spell - then and later"""
    key, j, n, l, key2, route, before = case
    n = clampn(n, 5 * DAY_NS)
    l = [min(max(l[0], 2), 9998), *l[1:3], l[3]]
    l[2] = min(l[2], cal.dim(l[0], l[1]))
    name = KINDS_OF_TEXT[j](key)
    ctx.nontrivial(str(name) != key or repr(name) != repr(key), type(name).__mro__[1].__name__)

    def told(x):
        return repr(x), str(x), x.format_common_iso(), f"{x.tz}", str(x.tz), repr(x.tz), pickle.dumps(x), obs(x)

    def all_routes(nm):
        out = [(how, f) for how, f, _ in routes(nm, n, l, key2)]
        i = mk_instant(n).py_datetime()
        return out + [("from_py_datetime", lambda: W.ZonedDateTime.from_py_datetime(i.astimezone(zoneinfo.ZoneInfo(nm)))),
                      ("parse_common_iso", lambda: W.ZonedDateTime.parse_common_iso(text.iso(["ZonedDateTime", key, n])))]

    zoneinfo.ZoneInfo.clear_cache()
    try:
        plain = [(how, outcome(lambda: told(f()))) for how, f in all_routes(key)]
        zoneinfo.ZoneInfo.clear_cache()
        if before:  # someone else was first
            zoneinfo.ZoneInfo(name)
        how, f = all_routes(name)[route]
        got = outcome(lambda: told(f()))
        for (h, want), (_, g) in zip(plain, all_routes(key)):
            if h == how:
                same(got, want, f"{how} with a {type(name).__mro__[1].__name__} spelling {key!r}")
            same(outcome(lambda: told(g())), want, f"{h} with {key!r}, after a {type(name).__mro__[1].__name__} spelling it was used in {how}")
    finally:
        zoneinfo.ZoneInfo.clear_cache()


def same(got, want, what):
    if got[0] == want[0] == "err":
        eq(type(got[1]), type(want[1]), what)
    else:
        eq(got, want, what)
