"""C25: outcomes depend on nothing but the operands."""
import atexit
import calendar
import contextlib
import decimal
import gc
import io
import json
import locale
import subprocess
import random
import os
import sys
import threading
import time
import warnings

from .common import *
from .. import jobs, mutate, ops, text
from . import c13

KINDS = [k for k in ALL_KINDS if k != "SystemDateTime"] + ["ZonedDateTime"] * 6 + ["OffsetDateTime"] * 2 + ["LocalDateTime"] * 2
job = st.tuples(any_value(KINDS), st.lists(ops.op, min_size=1, max_size=4)).map(list)


@st.composite
def _twin_jobs(draw):
    """the same operations on both sides of a transition"""
    key, a, b = draw(gen.astride)
    o = draw(st.lists(ops.op, min_size=1, max_size=3))
    return [[["ZonedDateTime", key, n], o] for n in (a, b)]


TEXTS = {"parse_common_iso": "iso", "parse_rfc3339": "rfc3339", "parse_rfc2822": "rfc2822"}


@st.composite
def _parse_job(draw):
    """a text, often one to be refused"""
    k = draw(pick("Date", "Time", "LocalDateTime", "YearMonth", "MonthDay", "Instant", "OffsetDateTime", "OffsetDateTime", "ZonedDateTime", "ZonedDateTime", "ZonedDateTime", "DateDelta", "TimeDelta", "DateTimeDelta"))
    j = draw(ints(0, 4))
    if k == "ZonedDateTime" and j:
        s = ["parse_common_iso", draw(c13._zoned_text())]
    elif k in ("OffsetDateTime", "Instant") and j < 4:
        m = draw(pick("format_rfc3339", "format_rfc2822", "format_common_iso"))
        v = draw(any_value([k]))
        try:
            s = getattr(build(v), m)()
        except ValueError:
            m, s = "format_common_iso", build(v).format_common_iso()
        s = [m.replace("format", "parse"), draw(mutate.mutated(st.just(s)))]
    elif k in ("OffsetDateTime", "LocalDateTime") and j == 4:
        s = ["strptime", draw(mutate.mutated(pick("2020-02-03 04:05:06 +0100", "1999-12-31 23:59:59.5 -03:30:15", "2020-02-03 04:05:06"))),
             draw(pick("%Y-%m-%d %H:%M:%S %z", "%Y-%m-%d %H:%M:%S.%f %z", "%Y-%m-%d %H:%M:%S"))]
    elif k in c13.LOCAL + ["Instant", "OffsetDateTime"] and j < 2:
        s = ["parse_common_iso", draw(c13.fields(k))]
    else:
        s = ["parse_common_iso", draw(mutate.mutated(any_value([k]).map(lambda v: build(v).format_common_iso())))]
    return [["#parse", k, *s], draw(st.lists(ops.op, max_size=1))]


smallish = weighted((6, ints(1, 12)), (2, ints(0, 32)), (1, ints(-2, 61)), (1, ints(-10**6, 10**6)))
count = weighted((3, ints(-1000, 1000)), (1, ints(-10**13, 10**13)), (1, st.floats(allow_nan=True, width=32)), (1, pick(1.5, 0, -0.0, True)))
odd_offset = weighted((3, ints(-25, 25)), (1, ints(-100, 100)))


@st.composite
def _new_job(draw):
    """constructor arguments, some of them out of range"""
    k = draw(pick("Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "OffsetDateTime", "ZonedDateTime", "ZonedDateTime", "SystemDateTime", "DateDelta", "TimeDelta", "DateTimeDelta"))
    y = draw(weighted((4, gen.years), (1, ints(-1, 10001))))
    kw = {}
    if k.endswith("Delta"):
        names = [n for n in ("years", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds")
                 if (n in ("years", "months", "weeks", "days")) <= (k != "TimeDelta") and (n not in ("years", "months", "weeks", "days")) <= (k != "DateDelta")]
        for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True)):
            kw[n] = draw(count if n not in ("years", "months", "weeks", "days") else ints(-200000, 200000))
        return [["#new", k, [], kw], draw(st.lists(ops.op, max_size=1))]
    n = {"Date": 3, "YearMonth": 1, "MonthDay": 2, "Time": 0}.get(k, draw(ints(3, 6)))
    args = [y] * (k not in ("Time", "MonthDay")) + [draw(smallish) for _ in range(n - (k in ("Date",) or k.endswith("DateTime")))]
    if k == "Time":
        args = [draw(weighted((4, ints(0, 59)), (1, ints(-1, 61)))) for _ in range(draw(ints(0, 3)))]
    if k == "Time" or k.endswith("DateTime"):
        kw["nanosecond"] = draw(weighted((3, gen.nanos), (1, pick(-1, NS, 10**12))))
    if k == "OffsetDateTime":
        kw["offset"] = draw(odd_offset)
    if k == "ZonedDateTime":
        kw["tz"] = draw(gen.tzkey)
        if draw(st.booleans()):
            key, yy, m, d, t = draw(gen.zone_local)
            h, mi, s, ns = cal.split_ns(t)
            args, kw = [yy, m, d, h, mi, s], {"nanosecond": ns, "tz": key}
    if k in ("ZonedDateTime",) and draw(st.booleans()):
        kw["disambiguate"] = draw(weighted((4, gen.disambig), (1, pick("", "latest"))))
    if k == "SystemDateTime":
        return [["#new", "LocalDateTime", args, kw], draw(st.lists(ops.op, max_size=1))]
    return [["#new", k, args, kw], draw(st.lists(ops.op, max_size=1))]


@st.composite
def _pair_job(draw, key=None):
    """two related values"""
    j = draw(ints(0, 3))
    if j == 0 or key is not None:
        k, *loc = draw(gen.zone_local if key is None else gen.zone_local_in(key))
        n = cal.local_ns(*loc) + draw(weighted((1, gen.small_td_ns), (2, ints(-48, 48).map(lambda x: x * 1800 * NS))))
        a = ["LocalDateTime", *loc]
        b = ["LocalDateTime", *cal.split_local(clampn(n))]
    elif j == 1:
        k, n1, n2 = draw(gen.astride)
        a, b = ["ZonedDateTime", k, n1], ["ZonedDateTime", k, n2]
    else:
        a = draw(any_value(KINDS))
        b = draw(any_value([a[0]] if j == 2 else KINDS))
    if draw(st.booleans()):
        a, b = b, a
    return [["#pair", a, b], []]


job = weighted((4, job), (3, _parse_job()), (2, _new_job()), (2, _pair_job()))
job_lists = weighted((4, st.lists(job, min_size=1, max_size=3)), (1, _twin_jobs()))


@st.composite
def _at_home(draw):
    """a timezone, and jobs on values around its transitions"""
    key = draw(gen.tzkey)
    loc = gen.zone_local_in(key)
    one = weighted((2, _pair_job(key)), (3, st.tuples(loc.map(lambda v: ["LocalDateTime", *v[1:]]), st.lists(ops.op, min_size=1, max_size=3)).map(list)),
                   (1, st.tuples(loc.map(lambda v: ["OffsetDateTime", 0, cal.local_ns(*v[1:])]), st.lists(ops.op, min_size=1, max_size=3)).map(list)))
    return [draw(st.lists(one, min_size=1, max_size=3)), key]


jobs_and_key = weighted((2, st.tuples(job_lists, gen.tzkey).map(list)), (1, _at_home()))


def compare(ctx, got, want, js, what):
    for g, w, j in zip(got, want, js):
        if g != w:
            a, b = next(((a, b) for a, b in zip(g + [None], w + [None]) if a != b))
            fail(f"{what}: job {j} gives {a}, otherwise {b}")


def interest(ctx, res):
    for r in res:
        if r[0][0] == "err":
            ctx.nontrivial(label="nothing to start with: " + r[0][1])
        for a in r[1:]:
            if a[0] == "pair":
                ctx.nontrivial(label="two values related")
            elif len(a) == 2 and a[1][0] == "err":
                ctx.label("an operation refused")
            elif len(a) == 2:
                ctx.nontrivial(label="an operation done")


def in_thread(f):
    out = []

    def g():
        try:
            out.append(f())
        except BaseException as e:  # handed on to the caller
            out.append(e)

    t = threading.Thread(target=g)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


@check("C25", lambda: st.tuples(jobs_and_key, gen.instant_ns, st.booleans(), job_lists), quick=6000,
       rule="at least one operation succeeded, or two values were related, or a text or constructor arguments were refused")
def surroundings(ctx, case):
    """the outcome of the same jobs under another TZ, another clock, after other work, ..."""
    (js, key), n, tick, others = case
    with system_tz("UTC"):
        want = [jobs.run(j) for j in js]
    interest(ctx, want)
    compare(ctx, [jobs.run(j) for j in js], want, js, "a second time")
    with system_tz(key):
        compare(ctx, [jobs.run(j) for j in js], want, js, f"with TZ={key}")
        compare(ctx, in_thread(lambda: [jobs.run(j) for j in js]), want, js, f"with TZ={key}, in a thread")
        zoneinfo.ZoneInfo.clear_cache()
        for j in others:
            jobs.run(j)
        compare(ctx, [jobs.run(j) for j in js[::-1]][::-1], want, js, f"after jobs {others} in reverse order")
    with W.patch_current_time(mk_instant(clampn(n)), keep_ticking=tick):
        compare(ctx, [jobs.run(j) for j in js], want, js, f"with the clock patched to {n}")
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        compare(ctx, [jobs.run(j) for j in js], want, js, "with warnings as errors")
    first = calendar.firstweekday()
    calendar.setfirstweekday(6 - first)
    try:
        with decimal.localcontext(decimal.Context(prec=3, rounding=decimal.ROUND_UP, traps=[decimal.FloatOperation])):
            compare(ctx, [jobs.run(j) for j in js], want, js, "with another decimal context and another first weekday")
    finally:
        calendar.setfirstweekday(first)


def scene():
    """what every part of a process shares, and an operation on values has no business with"""
    c = decimal.getcontext()
    return {
        "environment": dict(os.environ), "system timezone": (time.tzname, time.timezone, time.altzone), "warning filters": list(warnings.filters),
        "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, sorted(map(str, (k for k, v in c.traps.items() if v)))),
        "random state": random.getstate(), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(), "timezone path": zoneinfo.TZPATH, "working directory": os.getcwd(), "module path": list(sys.path),
        "first weekday": calendar.firstweekday(), "garbage collection": (gc.isenabled(), gc.get_threshold()), "digits limit": sys.get_int_max_str_digits(),
        "hooks": (sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook, warnings.showwarning, threading.excepthook),
    }


@contextlib.contextmanager
def unusual():
    """surroundings that differ from the usual ones, so that a change back to those is seen"""
    loc, first, limit, digits = locale.setlocale(locale.LC_ALL), calendar.firstweekday(), sys.getrecursionlimit(), sys.get_int_max_str_digits()
    try:
        with warnings.catch_warnings(), decimal.localcontext(decimal.Context(prec=17, rounding=decimal.ROUND_UP)):
            warnings.simplefilter("error", ImportWarning)
            try:
                locale.setlocale(locale.LC_ALL, "C.UTF-8")
            except locale.Error:
                pass
            calendar.setfirstweekday(3)
            sys.setrecursionlimit(limit + 17)
            sys.set_int_max_str_digits(5000)
            yield
    finally:
        locale.setlocale(locale.LC_ALL, loc)
        calendar.setfirstweekday(first)
        sys.setrecursionlimit(limit)
        sys.set_int_max_str_digits(digits)


NOWS = {"Instant": (), "ZonedDateTime": ("key",), "OffsetDateTime": ("off",), "SystemDateTime": (), "Date": ()}


def _now(k, b):
    if k == "Date":
        return W.Date.today_in_system_tz()
    if k == "OffsetDateTime":
        return W.OffsetDateTime.now(b["off"] and W.seconds(b["off"]), ignore_dst=True)
    return getattr(W, k).now(*[b[a] for a in NOWS[k]])


@check("C25", lambda: st.tuples(any_value(ALL_KINDS), st.lists(ops.op, min_size=1, max_size=4), job_lists, gen.tzkey, pick(*NOWS)), quick=4000,
       rule="at least one operation succeeded, or two values were related, or a text or constructor arguments were refused")
def leaves_no_trace(ctx, case):
    """operations - those asking for the system timezone or the present time too - leave their surroundings as they were, and print nothing"""
    v, steps, js, key, k = case
    with system_tz(key), unusual():
        before, threads_before = scene(), threading.active_count()
        with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(io.StringIO()) as err:
            x = prev = build(v)
            for op in steps:
                name, f = ops.get(x, op, prev)
                r = outcome(f)
                if r[0] == "ok":
                    prev, x = x, r[1]
                    ctx.nontrivial(label=name.partition(":")[0] if "system" in name else "an operation")
                if type(x) not in ops.OPS:
                    break
            outcome(lambda: _now(k, steps[0][1]))
            try:
                with W.patch_current_time(mk_instant(0), keep_ticking=bool(len(steps) % 2)) as p:
                    outcome(lambda: p.shift(hours=1))
                    outcome(lambda: _now(k, steps[0][1]))
                    raise KeyError
            except KeyError:
                pass
            interest(ctx, [jobs.run(j) for j in js])
        after = scene()
        for nm in before:
            if before[nm] != after[nm]:
                fail(f"{case}: the {nm} was {_short(before[nm], after[nm])[0]}, and is {_short(before[nm], after[nm])[1]} afterwards")
        eq(threading.active_count(), threads_before, f"{case}: number of threads")
        eq((out.getvalue(), err.getvalue()), ("", ""), f"{case}: printed")


def _short(a, b):
    if isinstance(a, dict):
        return {k: v for k, v in a.items() if b.get(k) != v}, {k: v for k, v in b.items() if a.get(k) != v}
    return str(a)[:300], str(b)[:300]


@check("C25", lambda: st.tuples(st.lists(job_lists, min_size=2, max_size=4), ints(1, 3)), quick=2000,
       rule="at least one operation succeeded, or two values were related, or a text or constructor arguments were refused")
def threads(ctx, case):
    """several threads at once, each going through all jobs from another starting point"""
    lists, rounds = case
    js = [j for l in lists for j in l]
    want = [jobs.run(j) for j in js]
    interest(ctx, want)
    found, start = [], threading.Barrier(4)

    def work(i):
        try:
            start.wait()
            for r in range(rounds):
                for k in range(len(js)):
                    k = (k * (1 if i % 2 else -1) + i * len(js) // 4) % len(js)
                    compare(ctx, [jobs.run(js[k])], [want[k]], [js[k]], f"with four threads on {len(js)} jobs")
        except BaseException as e:
            found.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if found:
        raise found[0]


READINGS = ("format_common_iso", "format_rfc3339", "format_rfc2822", "__repr__", "__hash__", "is_ambiguous", "day_length", "start_of_day", "timestamp_nanos", "instant", "local", "py_datetime", "in_hrs_mins_secs_nanos")


@st.composite
def _same_operation(draw):
    """one operation, on two or three values or with two or three sets of arguments (or both)"""
    k = draw(pick(*KINDS))
    vs = draw(st.lists(any_value([k]), min_size=2, max_size=3))
    i = draw(weighted((3, ints(0, 999)), (1, ints(1000, 1000 + len(READINGS) - 1))))
    bs = draw(st.lists(ops.bundle, min_size=2, max_size=3))
    how = draw(ints(0, 2))
    if i >= 1000:
        return [[v, i, None] for v in vs]
    if how == 0:
        return [[vs[0], i, b] for b in bs]
    if how == 1:
        return [[v, i, bs[0]] for v in vs]
    return [[v, i, b] for v, b in zip(vs, bs)]


PACKAGE = os.path.dirname(os.path.abspath(W.__file__)) + os.sep


def interrupted(f, g, at):
    """f's outcome, when another thread carries out g between the at-th and the next step (line or call) of
    f in the library; g's outcome; and whether f had so many steps. Where g waits for f (for a lock it
    holds, say), f goes on."""
    n, inner, t = 0, [], None

    def other():
        inner.append(outcome(g))

    def step():
        nonlocal n, t
        if n == at:
            t = threading.Thread(target=other)
            t.start()
            t.join(0.1)
        n += 1

    def line(frame, event, arg):
        if event == "line":
            step()
        return line

    def call(frame, event, arg):
        if frame.f_code.co_filename.startswith(PACKAGE):
            step()
            return line

    old = sys.gettrace()
    sys.settrace(call)
    try:
        r = outcome(f)
    finally:
        sys.settrace(old)
    if t is None:
        return r, None, n
    t.join(60)
    return r, inner[0] if inner else ("err", TimeoutError("never came to an end")), n


@check("C25", lambda: st.tuples(st.one_of(_same_operation(), _same_operation(), st.lists(weighted((2, _parse_job()), (1, _new_job())), min_size=2, max_size=3),
                                          st.lists(job.map(lambda j: ["#job", j]), min_size=2, max_size=3)), ints(0, 999), st.booleans()), quick=6000,
       rule="an operation was interrupted at several of its steps by another thread doing the same with other or with the same operands, or something else")
def one_operation(ctx, case):
    """one operation in the middle of another of the same kind: neither has a glimpse of the other's operands"""
    cs, seed, same = case
    todo = []
    for c in cs:
        if c[0] == "#job":
            f = (lambda j: lambda: jobs.run(j))(c[1])
        elif len(c) == 2:
            f = (lambda v: lambda: jobs.start(v))(c[0])
        else:
            v, i, b = c
            x = build(v)
            if i >= 1000:
                f = getattr(x, READINGS[i - 1000], None)
                if f is None:
                    return
            else:
                name, f = ops.get(x, (i, b))
                if not jobs.usable(name):
                    return
                ctx.label(name.partition(": ")[0])
        todo.append((f, c))

    def told(o):
        if o[0] == "ok" and not type(o[1]).__module__.startswith("whenever"):
            return repr(o[1])
        return jobs.account(o[1])

    want = [told(outcome(f)) for f, _ in todo]
    if not same and len({str(w) for w in want}) < 2:
        return
    # first another one, then the one (twice), so that nothing of it is remembered from the turn before
    (f, c), (g, d) = todo[0], todo[0 if same else 1]
    outcome(todo[1][0])
    steps = interrupted(f, g, -1)[2]
    if not steps:
        return
    ctx.nontrivial()
    r = random.Random(seed)
    for at in sorted(r.sample(range(steps), min(steps, 12))):
        outcome(todo[-1][0])
        t0 = time.perf_counter()
        a, b, _ = interrupted(f, g, at)
        if b is not None:
            eq(told(b), want[0 if same else 1], f"{d}, between two steps (after {at} of {steps}) of {c}")
        eq(told(a), want[0], f"{c}, interrupted (after {at} steps of {steps}) by {d}")
        if time.perf_counter() - t0 > 0.1:
            return  # one waits for the other (or the machine is busy): not that again


HELPERS = {}
FLAGS = {"OO": ["-OO"], "dev": ["-X", "dev", "-W", "error"], "plain": []}


def helper(kind):
    """a helper process of this worker (never inherited across a fork)"""
    k = (os.getpid(), kind)
    h = HELPERS.get(k)
    if h is None or h.poll() is not None:
        env = {**os.environ, "PYTHONHASHSEED": {"OO": "7", "dev": "99", "plain": "12345"}[kind], "TZ": {"OO": "Asia/Tokyo", "dev": "America/St_Johns", "plain": "Europe/Dublin"}[kind], "LC_ALL": "C.UTF-8"}
        h = HELPERS[k] = subprocess.Popen([sys.executable, "-B", *FLAGS[kind], "-m", "vf.jobs"], cwd=core.VERIF, env=env,
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        atexit.register(h.kill)
    return h


@check("C25", lambda: st.tuples(job_lists, pick(*FLAGS)), quick=6000, rule="at least one operation succeeded, or two values were related, or a text or constructor arguments were refused")
def another_interpreter(ctx, case):
    """the same jobs in another process: other hash seed, TZ, locale; optimised, or in development mode"""
    js, kind = case
    want = [jobs.run(j) for j in js]
    interest(ctx, want)
    h = helper(kind)
    try:
        h.stdin.write(json.dumps(js) + "\n")
        h.stdin.flush()
        line = h.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        raise core.HarnessError(f"helper process ended ({h.poll()})")
    compare(ctx, json.loads(line), want, js, f"in another interpreter ({kind})")
