"""How sensitive are the checks to a wrong answer of any one public method? For every public method (and
operator) of every type, a scratch copy of the library gets a wrapper which, for about one in RATE argument
combinations, returns something slightly wrong (a nanosecond, a day, the opposite truth value, another
digit) — or, with --raise, raises nothing and returns None. The checks are run until one of them alarms;
methods which no check judges are listed.

usage: perturb.py list | perturb.py OUT.jsonl [--rate 64] [--scale 0.1] [--jobs 4] [--only REGEX]
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
V = HERE.parent
sys.path.insert(0, str(HERE))
import mutants
PY = "/opt/venv/bin/python"
TYPES = "Date YearMonth MonthDay Time LocalDateTime Instant OffsetDateTime ZonedDateTime SystemDateTime TimeDelta DateDelta DateTimeDelta".split()
SKIP = {"__init__", "__new__", "__reduce__", "__copy__", "__deepcopy__", "__init_subclass__", "__class__", "__setattr__", "__getattribute__", "__delattr__", "__dir__", "__sizeof__", "__reduce_ex__", "__subclasshook__", "__format__", "__doc__"}

WRAP = '''

def _perturb_install(cls, name, rate):
    import pickle as _pk, zlib as _z, math as _m, datetime as _d, threading as _th
    busy = _th.local()
    mod = globals()

    def wrong(r):
        T = type(r).__name__
        if r is NotImplemented:
            return r
        if T == "bool":
            return not r
        if T == "int":
            return r + 1 if r < 2 ** 40 else r - 1
        if T == "float":
            return r + 1 if abs(r) < 1e6 else r * (1 + 1e-9)
        if T == "str":
            for i in range(len(r) - 1, -1, -1):
                if r[i].isdigit():
                    return r[:i] + str((int(r[i]) + 1) % 10) + r[i + 1:]
            return r + "x"
        if T == "tuple":
            return r[:-1] + (wrong(r[-1]),)
        if T == "Date":
            return Date(r.year, r.month, r.day - 1 if r.day > 1 else 2)
        if T == "YearMonth":
            return YearMonth(r.year, r.month % 12 + 1)
        if T == "MonthDay":
            return MonthDay(r.month, r.day - 1 if r.day > 1 else 2)
        if T == "Weekday":
            return type(r)(r.value % 7 + 1)
        if hasattr(r, "_nanos"):
            n = _object_new(type(r))
            for s in ("_py_time", "_py_dt"):
                if hasattr(r, s):
                    setattr(n, s, getattr(r, s))
            n._nanos = r._nanos + 1 if r._nanos < 999_999_999 else 0
            return n
        if T == "TimeDelta":
            return TimeDelta._from_nanos_unchecked(r._total_ns - 1 if r._total_ns > 0 else r._total_ns + 1 if r._total_ns < 0 else 1)
        if T == "DateDelta":
            return DateDelta(months=r._months, days=r._days + (-1 if r._days > 0 else 1 if r._days < 0 else -1 if r._months < 0 else 1))
        if T == "DateTimeDelta":
            return DateTimeDelta._from_parts(r._date_part, wrong(r._time_part) if r._time_part else r._time_part) if r._time_part else DateTimeDelta._from_parts(wrong(r._date_part), r._time_part)
        if isinstance(r, _d.datetime):
            return r.replace(microsecond=(r.microsecond + 1) % 10 ** 6)
        if isinstance(r, _d.date):
            return r.replace(day=r.day - 1 if r.day > 1 else 2)
        if isinstance(r, _d.time):
            return r.replace(microsecond=(r.microsecond + 1) % 10 ** 6)
        if isinstance(r, _d.timedelta):
            return r + _d.timedelta(microseconds=1)
        return r

    def code(args, kwargs):
        def plain(x):
            if isinstance(x, type):
                return x.__name__
            for t in ("_total_ns", "_months", "_date_part", "_py_date", "_py_time", "_py_dt"):
                if hasattr(x, t):
                    return (type(x).__name__, plain(getattr(x, t)), getattr(x, "_nanos", 0), getattr(x, "_days", 0), plain(getattr(x, "_time_part", None)) if t == "_date_part" else 0)
            if isinstance(x, _d.datetime):
                return (x.replace(tzinfo=None), x.fold, str(x.tzinfo))
            return x
        return _z.crc32(repr(([plain(a) for a in args], sorted((k, plain(v)) for k, v in kwargs.items()))).encode("utf-8", "replace"))

    def wrap(f):
        def g(*args, **kwargs):
            if getattr(busy, "on", False):
                return f(*args, **kwargs)
            busy.on = True
            try:
                c = code(args, kwargs)
            finally:
                busy.on = False
            r = f(*args, **kwargs)
            if c % rate == 0:
                busy.on = True
                try:
                    return wrong(r)
                except Exception:
                    return r
                finally:
                    busy.on = False
            return r
        return g

    for k in cls.__mro__:
        if name in k.__dict__:
            o = k.__dict__[name]
            break
    if isinstance(o, property):
        new = property(wrap(o.fget))
    elif isinstance(o, classmethod):
        new = classmethod(wrap(o.__func__))
    elif isinstance(o, staticmethod):
        new = staticmethod(wrap(o.__func__))
    else:
        new = wrap(o)
    type.__setattr__(cls, name, new)


_perturb_install(@CLS, @NAME, @RATE)
'''
LIST = '''
import sys, types
import whenever._pywhenever as P
skip = %r
for t in %r:
    c = getattr(P, t)
    seen = set()
    for k in c.__mro__:
        if k is object: continue
        for n, o in k.__dict__.items():
            if n in seen or n in skip or (n.startswith("_") and not n.startswith("__")): continue
            seen.add(n)
            if isinstance(o, (types.FunctionType, property, classmethod, staticmethod)):
                print(t, n)
'''


def targets():
    out = subprocess.run([PY, "-c", LIST % (SKIP, TYPES)], env=os.environ | {"PYTHONPATH": "/repo/pysrc", "PYTHONDONTWRITEBYTECODE": "1"}, stdout=subprocess.PIPE, text=True, check=True).stdout
    return [tuple(l.split()) for l in out.splitlines()]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--rate", type=int, default=64)
    ap.add_argument("--scale", default="0.1")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    ts = [t for t in targets() if re.search(a.only, ".".join(t))]
    if a.out == "list":
        print(*map(".".join, ts), sep="\n")
        print(len(ts))
        return
    done = {json.loads(l)["m"] for l in open(a.out)} if os.path.exists(a.out) else set()
    lock, local = threading.Lock(), threading.local()

    def one(t):
        m = ".".join(t)
        if m in done:
            return
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(prefix="perturb.", dir="/tmp")
            subprocess.run(f"git -C /repo archive HEAD | tar x -C {local.d}", shell=True, check=True)
        p = Path(local.d, "pysrc/whenever/_pywhenever.py")
        src = p.read_text()
        p.write_text(src + WRAP.replace("@CLS", t[0]).replace("@NAME", repr(t[1])).replace("@RATE", str(a.rate)))
        try:
            res, bad = None, []
            for prop in mutants.order({"func": m, "file": "_pywhenever.py", "old": ""}):
                rc, out = mutants.run(["bash", str(V / "check.sh"), prop, "--no-evidence", "--scale", a.scale], str(V), {"VERIF_WORKERS": "1", "VERIF_REPO": local.d}, 900)
                if rc == 1:
                    res = prop + " " + next((l for l in out.splitlines() if l.startswith("sub-check")), "")[:120]
                    break
                if rc:
                    bad.append([prop, rc, out[-200:]])
        finally:
            p.write_text(src)
        with lock, open(a.out, "a") as f:
            f.write(json.dumps({"m": m, "caught": res, "bad": bad}) + "\n")

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ts))
    for d in Path("/tmp").glob("perturb.*"):
        shutil.rmtree(d)
    for l in open(a.out):
        r = json.loads(l)
        if not r["caught"]:
            print("not judged:", r["m"], r["bad"])


if __name__ == "__main__":
    main()
