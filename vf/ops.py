"""Generic public operations on library values, for histories.

An operation is a list [code, bundle]; the bundle holds every kind of argument an operation may
need, as primitives.  `apply(x, op, other)` performs the operation number `code` (modulo the
number of operations its type has) and gives (name, thunk)."""
import copy
import pickle
import random

from hypothesis import strategies as st

from . import gen, text
from .gen import ints, pick, weighted
from .lib import *  # noqa
from .lib import W

dis_opt = weighted((2, st.just(None)), (3, gen.disambig))

bundle = st.fixed_dictionaries({
    "date": gen.date, "tod": gen.tod, "key": gen.tzkey, "off": gen.offset,
    "mo": weighted((3, ints(-30, 30)), (1, ints(-130000, 130000))),
    "da": weighted((3, ints(-40, 40)), (1, ints(-4 * 10**6, 4 * 10**6))),
    "ns": gen.small_td_ns, "big": gen.td_ns, "ui": gen.unit_inc, "mode": gen.mode, "dis": dis_opt,
    "k": ints(0, 63),
})
op = st.tuples(ints(0, 999), bundle).map(list)


def _dis(b):
    return {} if b["dis"] is None else {"disambiguate": b["dis"]}


def _fields(b):
    """a subset of the replaceable fields, chosen by the bits of b['k']"""
    y, m, d = b["date"]
    h, mi, s, ns = cal.split_ns(b["tod"])
    all_ = dict(year=y, month=m, day=min(d, 28 + b["k"] % 4), hour=h, minute=mi, second=s, nanosecond=ns)
    mask = (b["k"] * 37 + b["da"]) % 127 + 1
    return {k: v for i, (k, v) in enumerate(all_.items()) if mask >> i & 1}


def _dd(b):
    sign = -1 if b["mo"] < 0 else 1
    return W.DateDelta(months=b["mo"], days=sign * abs(b["da"]))


def _dtd(b):
    sign = -1 if b["mo"] < 0 else 1
    return W.DateTimeDelta(months=b["mo"], days=sign * abs(b["da"]), nanoseconds=sign * abs(b["ns"]))


def _exact_other(y):
    return y if isinstance(y, (W.Instant, W.OffsetDateTime, W.ZonedDateTime, W.SystemDateTime)) else None


COMMON = [
    ("pickle", lambda x, b, y: pickle.loads(pickle.dumps(x, b["k"] % 6))),
    ("iso", lambda x, b, y: type(x).parse_common_iso(x.format_common_iso())),
    ("deepcopy", lambda x, b, y: copy.deepcopy(x)),
]
EXACT = [
    ("to_tz", lambda x, b, y: x.to_tz(b["key"])),
    ("to_tz", lambda x, b, y: x.to_tz(b["key"])),
    ("to_fixed_offset(o)", lambda x, b, y: x.to_fixed_offset(W.seconds(b["off"]))),
    ("to_fixed_offset()", lambda x, b, y: x.to_fixed_offset()),
    ("to_system_tz", lambda x, b, y: x.to_system_tz()),
    ("-", lambda x, b, y: x - y if _exact_other(y) is not None else x.difference(x)),
    ("py", lambda x, b, y: type(x).from_py_datetime(x.py_datetime())),
]
LOCALISH = [
    ("date", lambda x, b, y: x.date()),
    ("time", lambda x, b, y: x.time()),
    ("date().at(time())", lambda x, b, y: x.date().at(x.time())),
]
WITHLOCAL = LOCALISH + [
    ("local", lambda x, b, y: x.local()),
    ("instant", lambda x, b, y: x.instant()),
]
ZONEDISH = EXACT + WITHLOCAL + [
    ("replace", lambda x, b, y: x.replace(**_fields(b), **_dis(b))),
    ("replace", lambda x, b, y: x.replace(**_fields(b), **_dis(b))),
    ("replace_date", lambda x, b, y: x.replace_date(W.Date(*b["date"]), **_dis(b))),
    ("replace_time", lambda x, b, y: x.replace_time(mk_time(b["tod"]), **_dis(b))),
    ("add(kw)", lambda x, b, y: x.add(months=b["mo"], days=b["da"], nanoseconds=b["ns"], **_dis(b))),
    ("subtract(dd)", lambda x, b, y: x.subtract(_dd(b), **_dis(b))),
    ("add(hours)", lambda x, b, y: x.add(hours=b["da"])),
    ("+ td", lambda x, b, y: x + tdns(b["ns"])),
    ("- td", lambda x, b, y: x - tdns(b["ns"])),
    ("+ dtd", lambda x, b, y: x + _dtd(b)),
    ("round", lambda x, b, y: x.round(*b["ui"], b["mode"])),
    ("round day", lambda x, b, y: x.round("day", mode=b["mode"])),
    ("start_of_day", lambda x, b, y: x.start_of_day()),
    ("day_length", lambda x, b, y: x.day_length()),
]
OPS = {
    W.Instant: COMMON + EXACT + [
        ("add", lambda x, b, y: x.add(nanoseconds=b["big"])),
        ("add(hours)", lambda x, b, y: x.add(hours=b["da"])),
        ("+ td", lambda x, b, y: x + tdns(b["ns"])),
        ("- td", lambda x, b, y: x - tdns(b["ns"])),
        ("round", lambda x, b, y: x.round(*b["ui"], b["mode"])),
    ],
    W.OffsetDateTime: COMMON + EXACT + WITHLOCAL + [
        ("replace", lambda x, b, y: x.replace(**_fields(b), ignore_dst=True)),
        ("replace offset", lambda x, b, y: x.replace(offset=W.seconds(b["off"]), ignore_dst=True)),
        ("replace_date", lambda x, b, y: x.replace_date(W.Date(*b["date"]), ignore_dst=True)),
        ("replace_time", lambda x, b, y: x.replace_time(mk_time(b["tod"]), ignore_dst=True)),
        ("add(kw)", lambda x, b, y: x.add(months=b["mo"], days=b["da"], nanoseconds=b["ns"], ignore_dst=True)),
        ("subtract(dtd)", lambda x, b, y: x.subtract(_dtd(b), ignore_dst=True)),
        ("round", lambda x, b, y: x.round(*b["ui"], b["mode"], ignore_dst=True)),
        ("round day", lambda x, b, y: x.round("day", mode=b["mode"], ignore_dst=True)),
    ],
    W.ZonedDateTime: COMMON + ZONEDISH + [
        ("replace(tz)", lambda x, b, y: x.replace(tz=b["key"], **_dis(b))),
    ],
    W.SystemDateTime: COMMON + ZONEDISH,
    W.LocalDateTime: COMMON + LOCALISH + [
        ("py", lambda x, b, y: type(x).from_py_datetime(x.py_datetime())),
        ("assume_utc", lambda x, b, y: x.assume_utc()),
        ("assume_fixed_offset", lambda x, b, y: x.assume_fixed_offset(W.seconds(b["off"]))),
        ("assume_tz", lambda x, b, y: x.assume_tz(b["key"], **_dis(b))),
        ("assume_tz", lambda x, b, y: x.assume_tz(b["key"], **_dis(b))),
        ("assume_system_tz", lambda x, b, y: x.assume_system_tz(**_dis(b))),
        ("replace", lambda x, b, y: x.replace(**_fields(b))),
        ("replace_date", lambda x, b, y: x.replace_date(W.Date(*b["date"]))),
        ("replace_time", lambda x, b, y: x.replace_time(mk_time(b["tod"]))),
        ("add", lambda x, b, y: x.add(months=b["mo"], days=b["da"], nanoseconds=b["ns"], ignore_dst=True)),
        ("add big", lambda x, b, y: x.add(tdns(b["big"]), ignore_dst=True)),
        ("+ dd", lambda x, b, y: x + _dd(b)),
        ("- dd", lambda x, b, y: x - _dd(b)),
        ("round", lambda x, b, y: x.round(*b["ui"], b["mode"])),
        ("round day", lambda x, b, y: x.round("day", mode=b["mode"])),
        ("difference", lambda x, b, y: x.difference(y if isinstance(y, W.LocalDateTime) else x, ignore_dst=True)),
    ],
    W.Date: COMMON + [
        ("at", lambda x, b, y: x.at(mk_time(b["tod"]))),
        ("at", lambda x, b, y: x.at(mk_time(b["tod"]))),
        ("add", lambda x, b, y: x.add(months=b["mo"], days=b["da"])),
        ("+ dd", lambda x, b, y: x + _dd(b)),
        ("- dd", lambda x, b, y: x - _dd(b)),
        ("- date", lambda x, b, y: x - (y if isinstance(y, W.Date) else W.Date(*b["date"]))),
        ("replace", lambda x, b, y: x.replace(**{k: v for k, v in _fields(b).items() if k in ("year", "month", "day")})),
        ("year_month", lambda x, b, y: x.year_month()),
        ("month_day", lambda x, b, y: x.month_day()),
        ("py", lambda x, b, y: W.Date.from_py_date(x.py_date())),
    ],
    W.YearMonth: COMMON + [
        ("on_day", lambda x, b, y: x.on_day(b["k"] % 31 + 1)),
        ("on_day", lambda x, b, y: x.on_day(b["k"] % 31 + 1)),
        ("replace", lambda x, b, y: x.replace(**{k: v for k, v in _fields(b).items() if k in ("year", "month")})),
    ],
    W.MonthDay: COMMON + [
        ("in_year", lambda x, b, y: x.in_year(b["date"][0])),
        ("in_year", lambda x, b, y: x.in_year(b["date"][0])),
        ("replace", lambda x, b, y: x.replace(**{k: v for k, v in _fields(b).items() if k in ("month", "day")})),
    ],
    W.Time: COMMON + [
        ("on", lambda x, b, y: x.on(W.Date(*b["date"]))),
        ("on", lambda x, b, y: x.on(W.Date(*b["date"]))),
        ("replace", lambda x, b, y: x.replace(**{k: v for k, v in _fields(b).items() if k in ("hour", "minute", "second", "nanosecond")})),
        ("round", lambda x, b, y: x.round(*b["ui"], b["mode"])),
        ("py", lambda x, b, y: W.Time.from_py_time(x.py_time())),
    ],
    W.DateDelta: COMMON + [
        ("+", lambda x, b, y: x + (y if isinstance(y, (W.DateDelta, W.TimeDelta)) else _dd(b))),
        ("+ td", lambda x, b, y: x + tdns(b["ns"])),
        ("-", lambda x, b, y: x - _dd(b)),
        ("neg", lambda x, b, y: -x),
        ("*", lambda x, b, y: x * (b["k"] - 31)),
        ("abs", lambda x, b, y: abs(x)),
        ("date +", lambda x, b, y: W.Date(*b["date"]) + x),
        ("zoned + self", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]) + x),
        ("zoned.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]).add(x, **_dis(b))),
        ("local.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).subtract(x)),
    ],
    W.TimeDelta: COMMON + [
        ("+", lambda x, b, y: x + (y if isinstance(y, (W.DateDelta, W.TimeDelta)) else tdns(b["big"]))),
        ("-", lambda x, b, y: x - tdns(b["big"])),
        ("+ dd", lambda x, b, y: x + _dd(b)),
        ("neg", lambda x, b, y: -x),
        ("*", lambda x, b, y: x * (b["k"] - 31)),
        ("%", lambda x, b, y: x % tdns(b["big"] or 1)),
        ("abs", lambda x, b, y: abs(x)),
        ("round", lambda x, b, y: x.round(*b["ui"], b["mode"])),
        ("date + dd", lambda x, b, y: W.Date(*b["date"]) + _dd(b)),
        ("zoned + self", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]) + x),
        ("zoned - self", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"], disambiguate="later") - x),
        ("zoned.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]).add(x, **_dis(b))),
        ("system.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_system_tz().add(x, **_dis(b))),
        ("offset.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_fixed_offset(W.seconds(b["off"])).subtract(x, ignore_dst=True)),
        ("local.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).add(x, ignore_dst=True)),
    ],
    W.DateTimeDelta: COMMON + [
        ("+", lambda x, b, y: x + (y if isinstance(y, (W.DateDelta, W.TimeDelta, W.DateTimeDelta)) else _dtd(b))),
        ("-", lambda x, b, y: x - _dtd(b)),
        ("neg", lambda x, b, y: -x),
        ("*", lambda x, b, y: x * (b["k"] - 31)),
        ("abs", lambda x, b, y: abs(x)),
        ("date_part", lambda x, b, y: x.date_part()),
        ("time_part", lambda x, b, y: x.time_part()),
        ("zoned + self", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]) + x),
        ("zoned - self", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"], disambiguate="later") - x),
        ("zoned.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_tz(b["key"]).add(x, **_dis(b))),
        ("system.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_system_tz().add(x, **_dis(b))),
        ("offset.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).assume_fixed_offset(W.seconds(b["off"])).subtract(x, ignore_dst=True)),
        ("local.add(self)", lambda x, b, y: W.LocalDateTime(*b["date"]).add(x, ignore_dst=True)),
    ],
}


def get(x, op, other=None):
    """(name, thunk) of an operation on a value"""
    ops = OPS[type(x)]
    name, f = ops[op[0] % len(ops)]
    b = op[1]
    return f"{type(x).__name__}: {name}", lambda: f(x, b, other)
