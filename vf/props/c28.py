"""C28: operands of unrelated types."""
import datetime as _dt
import decimal
import fractions
import operator

from .common import *

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
       "&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
MIRROR = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}


class Answering:
    """answers every operator, from either side, naming the operator and the other operand"""

    def __eq__(self, o):
        return ("==", id(o))

    def __ne__(self, o):
        return ("!=", id(o))

    __hash__ = None


for _s, _n in NAMES.items():
    setattr(Answering, f"__{_n}__", lambda self, o, _s=_s: (_s, id(o)))
    setattr(Answering, f"__r{_n}__", lambda self, o, _s=_s: ("r" + _s, id(o)))
for _s, _n in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
    setattr(Answering, f"__{_n}__", lambda self, o, _s=_s: (_s, id(o)))


class Silent:
    """declines every operator"""
    __slots__ = ()


class Lookalike:
    """has every attribute and method under the sun, but is no value of the library"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return 0


FOREIGN = [
    lambda x: None, lambda x: "2020-01-01", lambda x: str(x), lambda x: b"x", lambda x: (), lambda x: [x], lambda x: {}, lambda x: object(), lambda x: Silent(),
    lambda x: Lookalike(), lambda x: type(x), lambda x: _dt.date(2020, 1, 1), lambda x: _dt.datetime(2020, 1, 1), lambda x: _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc),
    lambda x: _dt.timedelta(1), lambda x: _dt.time(1), lambda x: _dt.timezone.utc, lambda x: ..., lambda x: NotImplemented, lambda x: range(3), lambda x: W.Weekday.MONDAY,
    lambda x: x.py_datetime() if hasattr(x, "py_datetime") else x.py_date() if hasattr(x, "py_date") else x.py_timedelta() if hasattr(x, "py_timedelta") else None,
]
NUMBERS = [0, 1, -1, 2, 3.5, 0.0, True, 1j, decimal.Decimal("1.5"), fractions.Fraction(1, 2), float("nan"), float("inf"), 2**70]
# what the duration types accept as numbers: anything else is refused
NUMERIC = {("TimeDelta", "*"), ("TimeDelta", "/"), ("DateDelta", "*"), ("DateTimeDelta", "*")}
ORDERED = {"Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime", "TimeDelta"}


@check("C28", lambda: st.tuples(any_value(), weighted((2, ints(0, len(FOREIGN) - 1)), (1, ints(100, 99 + len(NUMBERS))))), quick=12000,
       rule="every case tries all operators with an operand of another type")
def refused(ctx, case):
    v, j = case
    x = build(v)
    number = j >= 100
    y = NUMBERS[j - 100] if number else FOREIGN[j](x)
    k = v[0]
    ctx.label(k)
    ctx.nontrivial()
    what = f"{x!r} and {type(y).__name__} {y!r}"
    if y is NotImplemented:
        return
    for a, b in ((x, y), (y, x)):
        true((a == b) is False, f"{what}: equal")
        true((a != b) is True, f"{what}: not unequal")
    for s, f in CMP.items():
        for a, b in ((x, y), (y, x)):
            expect_raises((TypeError,), lambda: f(a, b), f"{s} of {what}")
    for s, f in BIN.items():
        for a, b in ((x, y), (y, x)):
            if number and (k, s) in NUMERIC and (s != "/" or a is x):
                continue
            if isinstance(y, (str, bytes)) and s == "%" and a is y:
                continue  # string formatting
            expect_raises((TypeError,), lambda: f(a, b), f"{s} of {what}" + (" (swapped)" if a is y else ""))
    if not number:
        if type(y).__hash__:
            true(y not in {x} and x not in {y}, f"{what}: found in a set")
        true(y not in [x], f"{what}: found in a list")
    if hasattr(x, "exact_eq"):
        expect_raises((TypeError,), lambda: x.exact_eq(y), f"exact_eq of {what}")


@check("C28", lambda: any_value(), quick=6000, rule="every case")
def deferred_to(ctx, case):
    """an operand which knows what to do is asked"""
    x, y = build(case), Answering()
    ctx.label(case[0])
    ctx.nontrivial()
    i = id(x)
    for s, f in BIN.items():
        eq(f(x, y), ("r" + s, i), f"{x!r} {s} answering object")
        eq(f(y, x), (s, i), f"answering object {s} {x!r}")
    for s, f in CMP.items():
        eq(f(x, y), (MIRROR[s], i), f"{x!r} {s} answering object")
        eq(f(y, x), (s, i), f"answering object {s} {x!r}")
    eq(x == y, ("==", i), f"{x!r} == answering object")
    eq(x != y, ("!=", i), f"{x!r} != answering object")


SINGLE = [("__%s__" % n, lambda s=s: s) for s, n in NAMES.items()] + [("__r%s__" % n, lambda s=s: "r" + s) for s, n in NAMES.items()]
SINGLE += [("__%s__" % n, lambda s=s: s) for s, n in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge"))]


@check("C28", lambda: st.tuples(any_value(), ints(0, len(SINGLE) - 1)), quick=6000, rule="every case")
def one_answer(ctx, case):
    """an operand which answers one operator alone is asked for that one, and for no other in its place"""
    v, j = case
    name, tag = SINGLE[j]
    tag = tag()
    x, y = build(v), type("Single", (), {name: lambda self, o: (tag, id(o))})()
    ctx.label(name)
    ctx.nontrivial()
    i = id(x)
    for s, f in [*BIN.items(), *CMP.items()]:
        for a, b, t in ((x, y, MIRROR.get(s, "r" + s)), (y, x, s)):
            what = f"{x!r} {s} an object with {name} alone" + (" (swapped)" if a is y else "")
            if t == tag:
                eq(f(a, b), (t, i), what)
            else:
                expect_raises((TypeError,), lambda: f(a, b), what)
    if name not in ("__lt__", "__le__", "__gt__", "__ge__"):
        true(x != y and y != x and not x == y and not y == x, f"{x!r} equals an object with {name}")


BAD_NUMBERS = [1j, "2", None, [2], decimal.Decimal("1.5"), b"2", (), object()]


@check("C28", lambda: st.tuples(any_value(["DateDelta", "TimeDelta", "DateTimeDelta"]), ints(0, len(BAD_NUMBERS) - 1), st.floats(-5, 5)), quick=4000,
       rule="every case")
def factors(ctx, case):
    """durations are scaled by real numbers (calendar ones by integers) alone"""
    v, j, fl = case
    x, y = build(v), BAD_NUMBERS[j]
    ctx.label(v[0])
    ctx.nontrivial()
    for f, s in ((lambda: x * y, "*"), (lambda: y * x, "r*"), (lambda: x / y, "/")):
        expect_raises((TypeError,), f, f"{x!r} {s} {y!r}")
    if v[0] != "TimeDelta":
        for f, s in ((lambda: x * fl, "*"), (lambda: fl * x, "r*"), (lambda: x / 2, "/"), (lambda: x // 2, "//"), (lambda: x % x, "%"), (lambda: x / x, "/")):
            expect_raises((TypeError,), f, f"{x!r} {s} {fl!r}")
        for s, f in CMP.items():
            expect_raises((TypeError,), lambda: f(x, x), f"{x!r} {s} itself")
    for f, s in ((lambda: 2 / x, "/"), (lambda: 2 // x, "//"), (lambda: 2 % x, "%"), (lambda: x ** 2, "**"), (lambda: x - 1, "-"), (lambda: 1 - x, "-"), (lambda: x + 0, "+"), (lambda: sum([x]), "sum")):
        expect_raises((TypeError,), f, f"{s} of {x!r} and a number")


_EXACTS = {"Instant", "OffsetDateTime", "ZonedDateTime", "SystemDateTime"}
_DUR = {"TimeDelta", "DateDelta", "DateTimeDelta"}


def _supported(a, s, b):
    """the documented type of the result, or None where the two have no such operation"""
    if s == "+":
        if a in _DUR and b in _DUR:
            return a if a == b else "DateTimeDelta"
        if a in ("ZonedDateTime", "SystemDateTime") and b in _DUR:
            return a
        if (a, b) in (("Date", "DateDelta"), ("LocalDateTime", "DateDelta"), ("Instant", "TimeDelta")):
            return a
    elif s == "-":
        if a in _EXACTS and b in _EXACTS:
            return "TimeDelta"
        if (a, b) == ("Date", "Date"):
            return "DateDelta"
        return _supported(a, "+", b)
    elif a == b == "TimeDelta":
        return {"/": "float", "//": "int", "%": "TimeDelta"}.get(s)


@check("C28", lambda: st.tuples(any_value(), any_value()), quick=9000, rule="every case tries all operators with two values of the library")
def among_themselves(ctx, case):
    """the library's own types: what isn't documented for the two is refused, in either order"""
    x, y = map(build, case)
    ctx.label(case[0][0])
    for a, b, x, y in ((case[0][0], case[1][0], x, y), (case[1][0], case[0][0], y, x)):
        for s, f in BIN.items():
            want = _supported(a, s, b)
            what = f"{x!r} {s} {y!r}"
            if want is None:
                ctx.nontrivial()
                expect_raises((TypeError,), lambda: f(x, y), what)
            else:
                try:
                    r = f(x, y)
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue  # out of range, of mixed sign, or by zero: judged elsewhere
                eq(type(r).__name__, want, f"type of {what}")
        if not (a == b and a in ORDERED or {a, b} <= _EXACTS):
            for s, f in CMP.items():
                expect_raises((TypeError,), lambda: f(x, y), f"{x!r} {s} {y!r}")
            if a != b and not {a, b} <= _DUR:
                true((x == y) is False and (x != y) is True, f"equality of {x!r} and {y!r}")
