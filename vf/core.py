"""Harness: registration of sub-checks, case bookkeeping, violation classification, replay."""
import hashlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "pysrc")


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """Something went wrong in the machinery, not in the code under test."""


def load_library():
    """Import the library from the working tree, never from stale byte code."""
    if "whenever" not in sys.modules:
        sys.path.insert(0, SRC)
        import whenever  # noqa
    import whenever
    if not os.path.realpath(whenever.__file__).startswith(os.path.realpath(SRC) + os.sep):
        raise HarnessError(f"library imported from {whenever.__file__}")
    return whenever


class Ctx:
    """Per-case reporting by the check functions."""

    __slots__ = ("interesting", "labels")

    def __init__(self):
        self.reset()

    def reset(self):
        self.interesting = False
        self.labels = []

    def nontrivial(self, cond=True, label=None):
        if cond:
            self.interesting = True
            if label:
                self.labels.append(label)

    def label(self, name):
        self.labels.append(name)


def fail(msg):
    raise Violation(msg)


def eq(actual, expected, what):
    """plain data comparison (ints, strings, tuples)"""
    if not (actual == expected and type(actual) is type(expected)):
        raise Violation(f"{what}: got {actual!r}, expected {expected!r}")


def true(cond, what):
    if not cond:
        raise Violation(what)


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule


SUBS = {}


def check(prop, strategy, quick=4000, thorough=None, rule=""):
    """register a sub-check; `strategy` is a zero-argument function giving a Hypothesis strategy
    of JSON-able cases"""

    def deco(fn):
        s = Sub(prop, fn.__name__, strategy, fn, quick, thorough or quick * 12, rule)
        assert fn.__name__ not in SUBS.setdefault(prop, {}), fn.__name__
        SUBS[prop][fn.__name__] = s
        return fn

    return deco


def _in_library(exc):
    root = os.path.realpath(SRC) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, ctx, case):
    """run one case; only Violation or HarnessError can come out"""
    ctx.reset()
    try:
        sub.fn(ctx, case)
    except Violation:
        raise
    except Exception as e:
        if _in_library(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"unexpected {type(e).__name__}: {e} (raised at {os.path.basename(last.filename)} "
                f"in {last.name})"
            ) from e
        if isinstance(e, (MemoryError, OSError, ImportError, HarnessError)):
            raise HarnessError(
                f"{sub.prop}/{sub.name} on {case!r}:\n{traceback.format_exc()}"
            ) from e
        # The check functions and the oracle run cleanly on every answer allowed by the
        # property, so an answer they cannot digest (a wrong type, a missing attribute, a field
        # out of its range) is itself a violation.
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            f"answer of the library could not be interpreted: {type(e).__name__}: {e} "
            f"(at {os.path.basename(last.filename)}:{last.lineno})"
        ) from e


class LibRaise(Exception):
    pass


def outcome(f, *a, **k):
    """('ok', value) or ('err', exception); exceptions not deriving from Exception propagate"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err", e


RANGE = (ValueError, OverflowError)


def expect_raises(excs, f, what):
    try:
        v = f()
    except Exception as e:
        if isinstance(e, excs):
            return e
        if not _in_library(e):
            # a plain call error such as a missing attribute raised at our call site still
            # comes from the library's surface
            raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {excs}")
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {excs}") from e
    raise Violation(f"{what}: returned {v!r}, expected {excs} to be raised")


def chash(case):
    return int.from_bytes(hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


def task_seed(seed, name, shard):
    return int.from_bytes(hashlib.sha256(f"{seed}/{name}/{shard}".encode()).digest()[:6], "big")


def run_task(sub, n, seed, deadline):
    """drive one sub-check; returns a plain-data result"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity

    ctx = Ctx()
    st = {"n": 0, "skipped": 0, "hashes": set(), "labels": {}, "samples": [], "fail": None,
          "first_fail": None, "t_fail": None}

    def body(case):
        now = time.time()
        if now > deadline and st["fail"] is None:
            st["skipped"] += 1
            return
        st["n"] += 1
        try:
            run_case(sub, ctx, case)
        except Violation as v:
            st["fail"] = (case, str(v))
            if st["first_fail"] is None:
                st["first_fail"] = st["fail"]
            raise
        if st["fail"] is None:
            if ctx.interesting:
                h = chash(case)
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2 and (len(st["hashes"]) % 7 == 3):
                        st["samples"].append({"sub": sub.name, "case": case, "labels": list(ctx.labels)})
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1

    test = hypothesis.seed(seed)(
        settings(
            max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
            print_blob=False, verbosity=Verbosity.quiet,
        )(given(sub.strategy())(body))
    )
    note = None
    try:
        test()
    except Violation:
        pass
    except HarnessError as e:
        return {"sub": sub.name, "harness_error": str(e)}
    except Exception as e:
        if st["fail"] is None:
            return {"sub": sub.name, "harness_error": f"{sub.prop}/{sub.name}: {traceback.format_exc()}"}
        note = f"not deterministic across re-executions ({type(e).__name__})"
    res = {"sub": sub.name, "n": st["n"], "skipped": st["skipped"], "labels": st["labels"],
           "hashes": st["hashes"], "samples": st["samples"]}
    if st["fail"] is not None:
        case, msg = st["fail"]
        try:  # keep the smallest case that really fails when run on its own
            run_case(sub, ctx, case)
            case, msg = st["first_fail"]
            note = (note or "") + " shrunk case passes alone; first failing case reported"
        except Violation as v:
            msg = str(v)
        except HarnessError as e:
            return {"sub": sub.name, "harness_error": str(e)}
        res["violation"] = {"case": case, "message": msg, "note": note}
    return res
