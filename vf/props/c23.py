"""C23: the patched current time."""
import functools
import inspect
import sys
import time as _time

from .common import *

_real = _time.time_ns
patch = W.patch_current_time


@st.composite
def _pin(draw):
    """value to patch the time with: [kind, ...] well inside the range"""
    k = draw(exact_kind)
    if k == "ZonedDateTime":
        key, n = draw(gen.zoned_mid)
        return [k, key, clampn(n, 800 * DAY_NS)]
    n = clampn(draw(gen.instant_ns), 800 * DAY_NS)
    return [k, draw(gen.offset), n] if k == "OffsetDateTime" else [k, n]


sys_zones = pick("UTC", "Europe/Amsterdam", "America/New_York", "Australia/Lord_Howe", "Asia/Kathmandu")
shift = st.tuples(st.just("shift"), weighted((2, st.just(0)), (1, ints(-8, 8))), weighted((2, st.just(0)), (1, ints(-20, 20))),
                  weighted((1, st.just(0)), (3, gen.small_td_ns))).map(list)
inner = weighted((3, st.just(["read"])), (3, shift), (1, st.just(["wait"])), (1, st.just(["bad shift"])),
                 (1, pick(["far shift", 1], ["far shift", -1])), (2, shift.map(lambda s: ["shift by value", *s[1:]])))
block = st.tuples(_pin(), st.booleans(), st.lists(inner, max_size=6), pick("normal", "error", "decorator", "generator")).map(list)
history = st.tuples(sys_zones, gen.tzkey, gen.offset, st.lists(block, min_size=1, max_size=3))


SLACK = 20_000   # ns; the clock behind now() and the one read here may be different ones


def steady(fn):
    """run the case again when it fails while the machine's clock was set"""
    @functools.wraps(fn)
    def run(ctx, case):
        for _ in range(3):
            w, m = _real(), _time.monotonic_ns()
            try:
                return fn(ctx, case)
            except core.Violation:
                if abs((_real() - w) - (_time.monotonic_ns() - m)) < 10**6:
                    raise
                ctx.reset()
    return run


class Boom(Exception):
    pass


def instant_of(pin):
    return pin[-1]


class State:
    """patched minus real time, as an interval (or the frozen instant)"""

    def __init__(self, syskey, key, off):
        self.syskey, self.key, self.off = syskey, key, off
        self.frozen = None
        self.delta = (0, 0)

    def interval(self, t0, t1):
        """where now() may lie when read between the real times t0 and t1"""
        if self.frozen is not None:
            return self.frozen, self.frozen
        return self.delta[0] + t0 - SLACK, self.delta[1] + t1 + SLACK

    def read_all(self, what):
        true(_time.time_ns is _real, f"{what}: the standard library's clock was replaced")

        def read(name, f, observe, off_at=None):
            t0 = _real()
            x = f()
            t1 = _real()
            lo, hi = self.interval(t0, t1)
            r = observe(x)
            true(lo <= r[0] <= hi, f"{what}: {name} gave {x!r}, {r[0]}, not within {lo}..{hi}")
            if off_at is not None:
                eq(r[1], off_at(r[0]), f"{what}: offset of {name}")
            return r[0]

        zoff = lambda key: (lambda n: tz.zone(key).offset_at(n // NS))
        seq = [read("Instant.now()", W.Instant.now, lambda x: (obs_instant(x),)),
               read("ZonedDateTime.now()", lambda: W.ZonedDateTime.now(self.key), obs_zoned, zoff(self.key)),
               read("OffsetDateTime.now()", lambda: W.OffsetDateTime.now(W.seconds(self.off), ignore_dst=True), obs_offset, lambda n: self.off),
               read("SystemDateTime.now()", W.SystemDateTime.now, obs_system, zoff(self.syskey))]
        true(all(a <= b for a, b in zip(seq, seq[1:])), f"{what}: time goes backwards {seq}")
        t0 = _real()
        d = W.Date.today_in_system_tz()
        t1 = _real()
        lo, hi = self.interval(t0, t1)
        days = {cal.split_local(n + tz.zone(self.syskey).offset_at(n // NS) * NS)[:3] for n in (lo, hi)}
        true(obs_date(d) in days, f"{what}: today_in_system_tz() gave {d!r}, expected {days}")


def shifted(pin, n, syskey, mo, da, ns):
    """model of pin.add(...) at instant n; None when refused"""
    k = pin[0]
    try:
        if k == "Instant":
            r = n + ns
            if not cal.in_range(r):
                return None
            return r
        if k == "OffsetDateTime":
            y, m, d, t = cal.split_local(n + pin[1] * NS)
            q = cal.shift_date(y, m, d, mo, da)
            if q is None:
                return None
            r = cal.local_ns(*q, t) - pin[1] * NS + ns
            return r if cal.in_range(r) and cal.in_range(r + pin[1] * NS) else None
        key = pin[1] if k == "ZonedDateTime" else syskey
        return model.shift_zoned(key, n, mo, da, ns, None)[0]
    except model.Refused:
        return None


def in_bounds(n):
    return cal.in_range(n - 600 * DAY_NS) and cal.in_range(n + 600 * DAY_NS)


def do_steps(S, p, pin, ticking, steps, what, ctx):
    S.read_all(f"{what}: on entry")
    for s in steps:
        w = f"{what}: {s}"
        if s[0] == "wait":
            t = _real() + 300_000
            while _real() < t:
                pass
        elif s[0] == "bad shift":
            expect_raises((TypeError,), lambda: p.shift(parsecs=3), w)
        elif s[0] == "far shift":
            kw = {"ignore_dst": True} if pin[0] == "OffsetDateTime" else {}
            expect_raises((ValueError, OverflowError), lambda: p.shift(hours=s[1] * 24 * 3_653_000, **kw), w)
        elif s[0] in ("shift", "shift by value"):
            _, mo, da, ns = s
            args, kw = (), {"nanoseconds": ns}
            if s[0] == "shift by value" and pin[0] != "Instant":
                mo, da, ns = abs(mo), abs(da), abs(ns)
                args = (W.DateTimeDelta(months=mo, days=da, nanoseconds=ns) if mo and ns or not mo and not da and ns % 3 == 0 else
                        W.TimeDelta(nanoseconds=ns) if ns and not da else W.DateDelta(months=mo, days=da),)
                if isinstance(args[0], W.DateDelta):
                    ns = 0
                elif isinstance(args[0], W.TimeDelta):
                    mo = da = 0
            if pin[0] != "Instant":
                kw.update(months=mo, days=da)
            else:
                mo = da = 0
            if args:
                kw = {}
            elif pin[0] != "Instant":
                kw = {**spread(mo, da, ns, abs(mo + da + ns)), **{k: v for k, v in kw.items() if k == "ignore_dst"}}
            if pin[0] == "OffsetDateTime":
                kw["ignore_dst"] = True
            if S.frozen is not None:
                if not in_bounds(S.frozen):
                    continue
                r = shifted(pin, S.frozen, S.syskey, mo, da, ns)
                if r is None or not in_bounds(r):
                    continue
                p.shift(*args, **kw)
                S.frozen = r
            else:
                t0 = _real()
                lo, hi = S.interval(t0, t0 + 30 * NS)
                if not in_bounds(lo) or not in_bounds(hi):
                    continue
                a, b = shifted(pin, lo, S.syskey, mo, da, ns), shifted(pin, hi, S.syskey, mo, da, ns)
                if a is None or b is None or a - lo != b - hi or not in_bounds(a) or not in_bounds(b):
                    continue   # not a plain shift of the timeline here
                d = a - lo
                t0 = _real()
                p.shift(*args, **kw)
                t1 = _real()
                if t1 - t0 > 20 * NS:
                    S.delta = None
                    return False
                S.delta = (S.delta[0] + d - (t1 - t0), S.delta[1] + d)
            ctx.nontrivial(bool(mo or da or ns), "ticking shift" if ticking else "frozen shift")
        S.read_all(w)
    return True


@check("C23", lambda: history, quick=8000, rule="a shift was applied")
@steady
def histories(ctx, case):
    syskey, key, off, blocks = case
    with system_tz(syskey):
        real = State(syskey, key, off)
        real.read_all("before any patch")
        for pin, ticking, steps, leave in blocks:
            if not in_bounds(instant_of(pin)):
                continue
            value = build(pin)
            S = State(syskey, key, off)
            what = f"patched with {value!r} ({'ticking' if ticking else 'frozen'})"

            def entered(t0, t1):
                if ticking:
                    S.frozen, S.delta = None, (instant_of(pin) - t1, instant_of(pin) - t0)
                else:
                    S.frozen = instant_of(pin)

            if leave == "decorator":
                got = []

                @patch(value, keep_ticking=ticking)
                def decorated(x):
                    entered(t0, _real())
                    S.read_all(what + " by decorator")
                    if x:
                        raise Boom
                    got.append(x)
                    return "result"

                for x in (0, 1, 0):
                    t0 = _real()
                    if x:
                        expect_raises((Boom,), lambda: decorated(x), what)
                    else:
                        eq(decorated(x), "result", what)
                    real.read_all(what + ", after the decorated function")
                eq(got, [0, 0], "calls of the decorated function")
            else:
                cm = patch(value, keep_ticking=ticking)
                real.read_all(what + ", before entry")
                t0 = _real()
                if leave == "error":
                    try:
                        with cm as p:
                            entered(t0, _real())
                            do_steps(S, p, pin, ticking, steps, what, ctx)
                            raise Boom
                    except Boom:
                        pass
                    else:
                        fail(what + ": the exception was swallowed")
                elif leave == "generator":
                    def g():
                        with cm as p:
                            entered(t0, _real())
                            yield p
                    it = g()
                    do_steps(S, next(it), pin, ticking, steps, what, ctx)
                    it.close()
                else:
                    with cm as p:
                        entered(t0, _real())
                        do_steps(S, p, pin, ticking, steps, what, ctx)
            real.read_all(what + f", after leaving ({leave})")
            eq(obs(value), obs(build(pin)), "the value passed in")
            ctx.label(f"{pin[0]} {'ticking' if ticking else 'frozen'} {leave}")


@check("C23", lambda: st.tuples(exact_kind, st.booleans(), ints(1, 1500), ints(-3, 3)), quick=150, thorough=1500,
       rule="more than a hundred shifts")
@steady
def many_shifts(ctx, case):
    """the number of shifts does not matter"""
    kind, ticking, count, step = case
    n = 1_600_000_000 * NS
    pin = {"ZonedDateTime": [kind, "Europe/Amsterdam", n], "OffsetDateTime": [kind, 3600, n]}.get(kind, [kind, n])
    ctx.nontrivial(count > 100, f"{kind} {'ticking' if ticking else 'frozen'}")
    kw = {"ignore_dst": True} if kind == "OffsetDateTime" else {}
    t0 = _real()
    limit, depth = sys.getrecursionlimit(), len(inspect.stack())
    try:
        sys.setrecursionlimit(depth + 900)   # about the usual one, which Hypothesis raises
        with system_tz("America/New_York"), patch(build(pin), keep_ticking=ticking) as p:
            for _ in range(count):
                p.shift(seconds=step, **kw)
            now = W.Instant.now().timestamp_nanos()
            t1 = _real()
    finally:
        sys.setrecursionlimit(limit)
    base = n + count * step * NS
    true(base <= now <= base + ((t1 - t0 + SLACK) if ticking else 0), f"{count} shifts by {step}s from {n}: {now}")


@check("C23", lambda: st.tuples(_pin(), st.booleans(), _pin(), st.booleans(), st.just(False)), quick=300,
       rule="the two patches differ")
@steady
def nested(ctx, case):
    """a patch within a patch; the last item asks for the outer time between the two exits"""
    outer, t_out, inner_, t_in, read_outer = case
    ctx.nontrivial(outer != inner_)
    with system_tz("Europe/Amsterdam"):
        t0 = _real()
        with patch(build(outer), keep_ticking=t_out):
            a = W.Instant.now().timestamp_nanos()
            t1 = _real()
            true(instant_of(outer) <= a <= instant_of(outer) + (t1 - t0 + SLACK) * t_out, f"outer patch: {a}")
            t0_in = _real()
            with patch(build(inner_), keep_ticking=t_in):
                b = W.Instant.now().timestamp_nanos()
                t1 = _real()
                true(instant_of(inner_) <= b <= instant_of(inner_) + (t1 - t0_in + SLACK) * t_in, f"inner patch: {b}")
            if read_outer:
                c = W.Instant.now().timestamp_nanos()
                t1 = _real()
                true(instant_of(outer) <= c <= instant_of(outer) + (t1 - t0 + SLACK) * t_out,
                     f"after leaving the inner patch, still within the outer one at {outer}: now() is {c}")
        t0 = _real()
        d = W.Instant.now().timestamp_nanos()
        true(t0 - SLACK <= d <= _real() + SLACK, f"after leaving both: {d}")
