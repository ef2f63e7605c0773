"""Plant bugs: for every entry of seeds.SEEDS, make the change in a scratch copy of /repo, check that
it only touches original lines, still passes the repository's tests, that the demonstration tells
the two apart, and whether the property's check notices. Writes /verif/seeded/<id>/.

usage: plant.py [ID...] [--no-check] [--jobs N] [--recheck]   (--force: run the check also where the tests notice; --recheck: only run the checks on what is in /verif/seeded)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
V = HERE.parent
sys.path.insert(0, str(HERE))
PY = "/opt/venv/bin/python"
PYW = "pysrc/whenever/_pywhenever.py"
DEMO = """#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=pysrc exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
ENV = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)} | {"PYTHONDONTWRITEBYTECODE": "1"}


def run(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=ENV | (env or {}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    return d


def original_lines(patch):
    "all removed lines must be from the base commit"
    base = {}
    fname = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            fname = line[6:]
            base[fname] = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", fname], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m[1])
        elif line.startswith("-") and not line.startswith("---"):
            if not base[fname][n - 1].startswith("^"):
                return f"touches a line of a fix: {line}"
            n += 1
        elif line.startswith(" "):
            n += 1
    return None


def check(prop, d):
    rc, out = run(["bash", str(V / "check.sh"), prop, "--no-evidence"], V, {"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
    first = next((l for l in out.splitlines() if l and not l.startswith("VIOLATION")), "")
    return rc, first[:110]


def one(spec, do_check=True):
    id_, prop = spec["id"], spec["property"]
    d = copy()
    try:
        for edit in spec["edits"]:
            f, at, old, new = PYW, 0, *edit[-2:]
            p = Path(d, f)
            if len(edit) == 3 and not edit[0].startswith("@"):
                p = Path(d, edit[0])
            src = p.read_text()
            if len(edit) == 3 and edit[0].startswith("@"):  # the first match in that function
                for i, name in enumerate(edit[0][1:].split(".")):
                    at = re.compile(r"^ *(class|def) %s\b" % name, re.M).search(src, at).start()
                if old not in src[at:at + 6000]:
                    return id_, f"BAD: no match for {old[:50]!r}"
                at = src.index(old, at)
                p.write_text(src[:at] + new + src[at + len(old):])
                continue
            if src.count(old) != 1:
                return id_, f"BAD: {src.count(old)} matches for {old[:50]!r}"
            p.write_text(src.replace(old, new))
        out = ""
        for f in sorted({e[0] if len(e) == 3 and e[0][0] != "@" else PYW for e in spec["edits"]}):
            out += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, d + "/" + f],
                                  stdout=subprocess.PIPE, text=True).stdout
        if bad := original_lines(out):
            return id_, "BAD: " + bad
        demo = Path(d, "_demo"); demo.mkdir()
        (demo / "demo.py").write_text(spec["demo"]); (demo / "demo.sh").write_text(DEMO)
        rc0, o0 = run(["bash", str(demo / "demo.sh")], "/repo")
        rc1, o1 = run(["bash", str(demo / "demo.sh")], d)
        if rc0 != 0 or rc1 == 0:
            return id_, f"BAD demo: unchanged rc={rc0} {o0[-300:] if rc0 else ''} patched rc={rc1}"
        shutil.rmtree(demo)
        rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--no-header", "tests"], d, {"PYTHONPATH": d + "/pysrc"})
        tail = o.strip().splitlines()[-1]
        if "1352 passed" not in tail or rc:
            if "--force" in sys.argv:
                rc, first = check(prop, d)
                return id_, f"tests notice; {prop} {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc}  {first}"
            fails = [l for l in o.splitlines() if l.startswith("FAILED")]
            return id_, f"tests notice: {tail} {fails[:1]}"
        s = V / "seeded" / id_
        s.mkdir(parents=True, exist_ok=True)
        (s / "patch.diff").write_text(out)
        (s / "demo.sh").write_text(DEMO)
        (s / "demo.py").write_text(spec["demo"])
        (s / "meta.json").write_text(json.dumps({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, indent=1) + "\n")
        if not do_check:
            return id_, "kept"
        rc, first = check(prop, d)
        return id_, f"kept; {prop} {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc}  {first}"
    finally:
        shutil.rmtree(d)


def recheck(id_):
    s = V / "seeded" / id_
    prop = json.loads((s / "meta.json").read_text())["property"]
    d = copy()
    try:
        rc, o = run(["patch", "-p1", "-s", "-i", str(s / "patch.diff")], d)
        if rc:
            return id_, "does not apply"
        rc, first = check(prop, d)
        return id_, f"{prop} {'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc}  {first}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    jobs = 6
    if "--recheck" in sys.argv:
        ids = [p.name for p in sorted((V / "seeded").iterdir()) if not args or p.name in args]
        f = recheck
    else:
        from seeds import SEEDS
        ids = [s for s in SEEDS if not args or s["id"] in args]
        f = lambda s: one(s, "--no-check" not in sys.argv)
    with ThreadPoolExecutor(jobs) as ex:
        for id_, res in ex.map(f, ids):
            print(f"{id_:28s} {res}", flush=True)
