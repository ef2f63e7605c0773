"""Like perturb.py, but the wrong answers come under natural circumstances: for every public method, N times, a
conjunction of two predicates on the operands and the result is drawn (a month's last day, the second of two
occurrences, an offset with seconds, a negative amount, a value below a microsecond, ...); where it holds the
method answers slightly wrong, or refuses. The checks are run until one alarms. What no check judges is
listed with the number of times the wrong answer was given at all (0: the circumstances never came about,
which may mean that they are impossible).

usage: corner.py OUT.jsonl [--n 2] [--seed 1] [--scale 0.3] [--jobs 4] [--only REGEX]
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
V = HERE.parent
sys.path.insert(0, str(HERE))
import mutants, perturb

PRED = {
    "month_end": "d and d.day >= 28", "feb29": "d and (d.month, d.day) == (2, 29)", "dec31": "d and (d.month, d.day) == (12, 31)",
    "day1": "d and d.day == 1", "early": "d and d.year < 1000",
    "before1900": "d and d.year < 1900", "late": "d and d.year > 9000", "leap": "d and d.year % 4 == 0", "century": "d and d.year % 100 == 0",
    "sunday": "d and d.isoweekday() == 7", "before1970": "d and d.year < 1970", "after2037": "d and d.year > 2037",
    "midnight": "t and not t.hour and not t.minute and not t.second", "hour23": "t and t.hour == 23", "pm": "t and t.hour >= 12",
    "second0": "t and not t.second", "second59": "t and t.second == 59", "subsecond": "n", "submicro": "n % 1000", "nano1": "0 < n < 1000",
    "millis": "n and n % 10 ** 6 == 0", "tail": "n and n % 10 == 0 and n % 1000", "nines": "n > 999999000", "smallfraction": "0 < n < 10 ** 8",
    "offsetseconds": "o is not None and o % 60", "offsetneg": "o is not None and o < 0", "offsetbig": "o is not None and abs(o) >= 13 * 3600",
    "halfhour": "o is not None and o % 3600 and o % 60 == 0", "offset0": "o == 0", "fold": "x is not None and x.fold == 1",
    "neartransition": "z and z.utcoffset(d - _d.timedelta(hours=5)) != z.utcoffset(d + _d.timedelta(hours=5))",
    "gapday": "z and z.utcoffset(d.replace(hour=0, fold=0)) < z.utcoffset(d.replace(hour=23, fold=0))",
    "utckey": "k == 'UTC'", "etckey": "k and k.startswith('Etc/')", "dashkey": "k and '-' in k", "longkey": "k and len(k) > 20", "otherhalf": "k and z.utcoffset(d.replace(month=1, day=5)) > z.utcoffset(d.replace(month=7, day=5))",
    "deltaneg": "q < 0", "deltabig": "abs(q) > 10 ** 9 * 40000000", "deltasub": "q % 1000", "deltawhole": "q and q % 10 ** 9 == 0", "deltaday": "q and q % (86400 * 10 ** 9) == 0", "delta0": "q == 0 and hasattr(v, '_total_ns')",
    "monthsneg": "m < 0", "months12": "abs(m) >= 12", "daysneg": "w < 0", "dayswhole": "w and w % 7 == 0", "daysbig": "abs(w) > 100", "bothparts": "m and w", "mixed": "(m or w) and q",
    "intneg": "isinstance(v, (int, float)) and v < 0", "intbig": "isinstance(v, int) and v > 10 ** 6", "float": "isinstance(v, float)", "int0": "v == 0 and isinstance(v, int)",
    "longtext": "isinstance(v, str) and len(v) > 30", "shorttext": "isinstance(v, str) and len(v) < 9", "signtext": "isinstance(v, str) and ('-' in v[8:] or '+' in v)",
    "option": "v in ('earlier', 'later', 'compatible', 'raise') if isinstance(v, str) else False",
}

WRAP = perturb.WRAP[: perturb.WRAP.index("    def code(")] + '''
    import os as _o
    hits = [0]

    def views(v):
        if isinstance(v, (list, tuple)):
            for i in v:
                yield from views(i)
            return
        try:
            x = getattr(v, "_py_dt", None)
            d = x if x is not None else getattr(v, "_py_date", None)
            t = x if x is not None else getattr(v, "_py_time", None)
            if d is None and isinstance(v, _d.date):
                d = v
                if isinstance(v, _d.datetime):
                    x = t = v
            n = getattr(v, "_nanos", 0)
            if isinstance(v, _d.datetime):
                n = v.microsecond * 1000
            o = x.utcoffset() if x is not None and x.tzinfo is not None else None
            o = o.total_seconds() if o is not None else None
            k = getattr(x.tzinfo, "key", None) if x is not None else None
            z = x.tzinfo if k else None
            c = getattr(v, "_date_part", v)
            m, w = getattr(c, "_months", 0), getattr(c, "_days", 0)
            q = getattr(getattr(v, "_time_part", v), "_total_ns", 0)
            if isinstance(v, _d.timedelta):
                q = (v.days * 86400 + v.seconds) * 10 ** 9 + v.microseconds * 1000
        except Exception:
            return
        yield locals()

    P = [compile(p, "p", "eval") for p in PREDS]

    def holds(vals):
        for p in P:
            ok = False
            for e in vals:
                e["_d"] = _d
                try:
                    if eval(p, {}, e):
                        ok = True
                        break
                except Exception:
                    pass
            if not ok:
                return False
        return True

    def wrap(f):
        def g(*args, **kwargs):
            if getattr(busy, "on", False):
                return f(*args, **kwargs)
            r = f(*args, **kwargs)
            if r is NotImplemented:
                return r
            busy.on = True
            try:
                vals = []
                for a in (*args, *kwargs.values(), r):
                    vals.extend(views(a))
                if not holds(vals):
                    return r
                hits[0] += 1
                if hits[0] < 6 and _o.environ.get("PERTURB_HITS"):
                    with open(_o.environ["PERTURB_HITS"], "a") as fh:
                        fh.write("x")
                if REFUSE:
                    raise ValueError("Out of range")
                try:
                    return wrong(r)
                except Exception:
                    return r
            finally:
                busy.on = False
        return g
''' + perturb.WRAP[perturb.WRAP.index("    for k in cls.__mro__:"):].replace("@RATE", "0")


GROUPS = {}
for _p, _e in PRED.items():
    GROUPS[_p] = "S" if "str" in _e else "I" if "isinstance(v" in _e or "v == 0" in _e else "Z" if "k " in _e or "z " in _e or "fold" in _e else "O" if "o " in _e else "M" if re.search(r"\b[mw]\b", _e) else "Q" if re.search(r"\bq\b", _e) else "T" if re.search(r"\b[tn]\b", _e) else "D"
HAVE = {"Date": "DDM", "YearMonth": "D", "MonthDay": "D", "Time": "T", "LocalDateTime": "DTMQ", "Instant": "DTQ", "OffsetDateTime": "DTOQ", "ZonedDateTime": "DTOZMQ",
        "SystemDateTime": "DTOMQ", "TimeDelta": "QQI", "DateDelta": "MMI", "DateTimeDelta": "MMQI"}


def draw(rnd, cls, name):
    g = set(HAVE[cls]) | ({"S"} if "parse" in name or "replace" in name or name in ("add", "subtract") else set()) | ({"I"} if "from" in name or name in ("replace", "add", "subtract", "round") else set())
    if not re.search("add|sub|diff|since|__|from|round|to_|total|in_", name):
        g -= {"Q", "M"} if "Delta" not in cls else set()
    if name in ("__hash__", "__init__"):
        g -= {"I"}
    return sorted(rnd.sample([p for p in sorted(PRED) if GROUPS[p] in g], 2))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    todo = []
    for cls, name in perturb.targets():
        for i in range(a.n):
            todo.append((cls, name, draw(rnd, cls, name), rnd.random() < 0.25))
    todo = [t for t in todo if re.search(a.only, t[0] + "." + t[1])]
    done = {json.loads(l)["m"] for l in open(a.out)} if os.path.exists(a.out) else set()
    lock, local = threading.Lock(), threading.local()

    def one(t):
        m = f"{t[0]}.{t[1]} {t[2][0]}&{t[2][1]}{' refuse' if t[3] else ''}"
        if m in done:
            return
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(prefix="corner.", dir="/tmp")
            subprocess.run(f"git -C /repo archive HEAD | tar x -C {local.d}", shell=True, check=True)
        p = Path(local.d, "pysrc/whenever/_pywhenever.py")
        hits = Path(local.d, "hits")
        hits.write_text("")
        src = p.read_text()
        w = WRAP.replace("@CLS", t[0]).replace("@NAME", repr(t[1])).replace("PREDS", repr([PRED[x] for x in t[2]])).replace("REFUSE", str(t[3]))
        p.write_text(src + w)
        try:
            res, bad, quiet = None, [], 0
            for i, prop in enumerate(mutants.order({"func": f"{t[0]}.{t[1]}", "file": "_pywhenever.py", "old": ""})):
                if i == 5 and not hits.read_text():
                    break
                rc, out = mutants.run(["bash", str(V / "check.sh"), prop, "--no-evidence", "--scale", a.scale], str(V), {"VERIF_WORKERS": "1", "VERIF_REPO": local.d, "PERTURB_HITS": str(hits)}, 900)
                if rc == 1:
                    res = prop + " " + next((l for l in out.splitlines() if l.startswith("sub-check")), "")[:120]
                    break
                if rc:
                    bad.append([prop, rc, out[-200:]])
        finally:
            p.write_text(src)
        with lock, open(a.out, "a") as f:
            f.write(json.dumps({"m": m, "caught": res, "hits": len(hits.read_text()), "bad": bad}) + "\n")

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    for l in open(a.out):
        r = json.loads(l)
        if not r["caught"]:
            print("not judged:", r["m"], "hits", r["hits"], r["bad"])


if __name__ == "__main__":
    main()
