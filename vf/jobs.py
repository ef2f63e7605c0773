"""Jobs: a value and a few operations on it, as plain data, with a plain-data account of what happened.
Also a helper process that runs jobs in another interpreter:  python -m vf.jobs"""
import json
import pickle
import sys

from . import ops
from . import lib
from .lib import build, obs, W

TEXTS = ("format_common_iso", "format_rfc3339", "format_rfc2822", "__str__", "__repr__")


def account(x):
    """everything visible of a value, or of an error; JSON-able"""
    if isinstance(x, BaseException):
        return ["err", type(x).__name__]
    out = list(obs(x))
    for t in TEXTS:
        f = getattr(x, t, None)
        if f is not None:
            try:
                out.append(f())
            except Exception as e:
                out.append(["err", type(e).__name__])
    for nm in ("py_date", "py_time", "py_datetime", "py_timedelta", "day_of_week", "is_ambiguous", "in_months_days_secs_nanos", "in_hrs_mins_secs_nanos"):
        f = getattr(x, nm, None)
        if f is not None:
            try:
                out.append(repr(f()))
            except Exception as e:
                out.append(["err", type(e).__name__])
    out.append(pickle.dumps(x, 4).hex())
    return out


def usable(name):
    """operations that ask neither for the system timezone nor for the present time"""
    return "system" not in name


def start(v):
    """the value a job starts with; texts and constructor arguments may well be refused"""
    if v[0] == "#parse":
        return getattr(getattr(W, v[1]), v[2])(*v[3:])
    if v[0] == "#new":
        return getattr(W, v[1])(*v[2], **v[3])
    return build(v)


def pair(a, b):
    """all ways two values are related"""
    out = []
    for f in (lambda: a == b, lambda: a != b, lambda: hash(a) == hash(b), lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b,
              lambda: a - b, lambda: a + b, lambda: a.difference(b), lambda: a.difference(b, ignore_dst=True), lambda: a.exact_eq(b), lambda: a % b, lambda: a // b):
        try:
            r = f()
        except Exception as e:
            out.append(["pair", account(e)])
            continue
        out.append(["pair", r if isinstance(r, (bool, int, float)) else account(r)])
    return out


def run(job):
    """the accounts of a value and of the results of operations applied in sequence"""
    v, steps = job
    lib.twins_on = False  # outcomes are compared with those of other interpreters
    out = []
    try:
        if v[0] == "#pair":
            return json.loads(json.dumps([["pair", ""]] + pair(build(v[1]), build(v[2]))))
        x = start(v)
    except Exception as e:
        return [account(e)]
    out.append(account(x))
    prev = x
    for op in steps:
        name, f = ops.get(x, op, prev)
        if not usable(name):
            continue
        try:
            y = f()
        except Exception as e:
            out.append([name, account(e)])
            continue
        out.append([name, account(y)])
        out.append([name, y == x, x == y, y != x])
        prev, x = x, y
    return json.loads(json.dumps(out))


def run_anyway(job):
    try:
        return run(job)
    except Exception as e:  # a result that cannot even be looked at
        return [["unusable", type(e).__name__, str(e)]]


if __name__ == "__main__":
    for line in sys.stdin:
        print(json.dumps([run_anyway(j) for j in json.loads(line)]), flush=True)
