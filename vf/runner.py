"""Command line driver:  python -m vf.runner C10 [--tier quick|thorough] [--replay FILE] [--sub NAME]"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_property(prop):
    core.load_library()
    importlib.import_module(f"vf.props.{prop.lower()}")
    return core.SUBS[prop]


_SUBS = None


def _work(args):
    name, n, seed, deadline = args
    try:
        return core.run_task(_SUBS[name], n, seed, deadline)
    except BaseException as e:  # pragma: no cover
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"sub": name, "harness_error": traceback.format_exc()}


def write_replay(prop, sub, v):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{core.chash(v['case']):016x}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": v["case"], "message": v["message"],
                   "note": v.get("note"),
                   "replay_cmd": f"bash {core.VERIF}/check.sh {prop} --replay {path}"}, f, indent=1)
    return path


def known_findings(prop):
    p = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(argv=None):
    global _SUBS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prop = a.prop
    try:
        _SUBS = load_property(prop)
    except Exception:
        traceback.print_exc()
        print("ERROR: could not load the library or the check")
        return 3

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sub = _SUBS[r["sub"]]
        try:
            core.run_case(sub, core.Ctx(), r["case"])
        except core.Violation as v:
            print(f"case: {r['case']!r}\n{v}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replayed case passes")
        return 0

    # known findings: run their exact cases, report, never add
    for k in known_findings(prop):
        sub = _SUBS.get(k["sub"])
        if sub is None:
            print(f"ERROR: known finding names unknown sub-check {k['sub']}")
            return 3
        try:
            core.run_case(sub, core.Ctx(), k["case"])
            print(f"note: known finding no longer reproduces: {k['what']}")
        except core.Violation:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    budget = 420 if a.tier == "quick" else 3 * 3600
    deadline = t0 + budget
    tasks = []
    for name, s in _SUBS.items():
        if a.sub and name not in a.sub:
            continue
        total = int((s.quick if a.tier == "quick" else s.thorough) * a.scale)
        # two passes, so that on a slow machine every sub-check gets its first part before the time budget ends
        for part, share in (("", .35), ("/more", .65)):
            count = int(total * share)
            shards = max(1, min(WORKERS * (1 if a.tier == "quick" else 4), count // 150))
            for i in range(shards):
                tasks.append((part, name, max(1, count // shards), core.task_seed(seed, f"{prop}/{name}{part}", i), deadline))
    # within a pass, long sub-checks start first
    tasks.sort(key=lambda t: (t[0], -t[2]))
    tasks = [t[1:] for t in tasks]

    results = []
    viol = None
    err = None
    with multiprocessing.get_context("fork").Pool(WORKERS) as pool:
        for r in pool.imap_unordered(_work, tasks):
            if "harness_error" in r:
                err = r["harness_error"]
                continue
            results.append(r)
            if "violation" in r:
                viol = r
                pool.terminate()
                break

    hashes, labels, samples, per = set(), {}, [], {}
    n = skipped = 0
    for r in results:
        n += r["n"]
        skipped += r["skipped"]
        hashes |= {(r["sub"], h) for h in r["hashes"]}
        p = per.setdefault(r["sub"], {"evaluations": 0, "labels": {}})
        p["evaluations"] += r["n"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        if sum(s["sub"] == r["sub"] for s in samples) < 2:
            samples += r["samples"][:1]
    for s, _ in hashes:
        per[s]["distinct_nontrivial"] = per[s].get("distinct_nontrivial", 0) + 1
    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hashes),
            "rule": "Cases are drawn by Hypothesis from the strategies of each sub-check and judged by "
                    "an independent oracle; non-trivial: " + "; ".join(
                        f"{s.name}: {s.rule}" for s in _SUBS.values() if s.rule),
            "samples": samples[:40], "per_subcheck": per,
            "budget_reached": skipped > 0, "not_run_because_of_budget": skipped,
        },
        "assumptions": [
            "the pure-Python implementation is the one imported (the build removes the extension)",
            "the timezone database installed on the machine is read identically by the oracle",
        ],
        "wall_s": wall, "violations": 1 if viol else 0,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if viol:
        v = viol["violation"]
        path = write_replay(prop, viol["sub"], v)
        print(f"sub-check {viol['sub']}: case {v['case']!r}\n{v['message']}")
        if v.get("note"):
            print("note:", v["note"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if err:
        print(err)
        print("ERROR: harness error (no verdict)")
        return 3
    print(f"{prop} held on {n} cases ({len(hashes)} distinct non-trivial) in {wall}s"
          + (f"; time budget reached, {skipped} cases not run" if skipped else ""))
    for k, v in per.items():
        print(f"  {k}: {v['evaluations']} cases, {v.get('distinct_nontrivial', 0)} non-trivial {v['labels']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
