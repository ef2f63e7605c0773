"""Mutation run over the library, to find behaviour which no check judges.

usage: mutants.py gen OUT.jsonl                      list all single-edit mutants of the library
       mutants.py tests IN.jsonl OUT.jsonl [JOBS]    keep those which pass the repository's tests
       mutants.py checks IN.jsonl OUT.jsonl SCALE [JOBS]   run every check (one process each) against them

A mutant is {"file", "start", "end", "new", "line", "func", "old", "op"} (byte offsets).
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
FILES = ["pysrc/whenever/_pywhenever.py", "pysrc/whenever/__init__.py"]
BASE = os.environ.get("MUT_BASE", "/repo")  # a snapshot, so that /repo may change meanwhile
PY = "/opt/venv/bin/python"
ENV = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"} | {"PYTHONDONTWRITEBYTECODE": "1"}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.FloorDiv: ["*", "/"], ast.Mod: ["//"], ast.Div: ["//"], ast.BitXor: ["|", "&"], ast.BitOr: ["&"], ast.BitAnd: ["|"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
       ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/", ast.BitXor: "^", ast.BitOr: "|", ast.BitAnd: "&"}


def gen_file(fname):
    src = Path(BASE, fname).read_bytes()
    tree = ast.parse(src)
    lines = src.split(b"\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, col: off[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))].decode()
    out = []

    def add(n, a, b, new, op, func):
        old = src[a:b].decode()
        if old != new:
            out.append({"file": fname, "start": a, "end": b, "new": new, "line": n.lineno, "func": func, "old": old, "op": op})

    def between(left, right, sym, new, n, op, func):
        a, b = span(left)[1], span(right)[0]
        seg = src[a:b].decode()
        i = seg.find(sym)
        if i >= 0:
            add(n, a + i, a + i + len(sym), new, op, func)

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = (func + "." if func else "") + n.name
        if isinstance(n, ast.FunctionDef):
            body = n.body
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                visit(d, func)
            for s in body:
                visit(s, func)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, func)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return  # docstring
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            items = [n.left] + n.comparators
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    between(items[i], items[i + 1], SYM[type(o)], new, n, "cmp", func)
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                between(n.left, n.right, SYM[type(n.op)], new, n, "bin", func)
        if isinstance(n, ast.BoolOp):
            s = "and" if isinstance(n.op, ast.And) else "or"
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, s, "or" if s == "and" else "and", n, "bool", func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            add(n, a, b, text(n.operand) if not isinstance(n.operand, (ast.BoolOp, ast.Compare)) else "(" + text(n.operand) + ")", "unary", func)
        if isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                add(n, a, b, str(not n.value), "const", func)
            elif isinstance(n.value, int):
                add(n, a, b, str(n.value + 1), "const", func)
                add(n, a, b, "(%d)" % (n.value - 1), "const", func)
            elif isinstance(n.value, float):
                add(n, a, b, repr(n.value + 1), "const", func)
        if isinstance(n, ast.IfExp):
            a, b = span(n)
            add(n, a, b, f"({text(n.body)})", "ifexp", func)
            add(n, a, b, f"({text(n.orelse)})", "ifexp", func)
        if isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            for new in ("True", "False") if isinstance(n, ast.If) else ("False",):
                add(n, a, b, new, "cond", func)
        if isinstance(n, ast.BoolOp):
            a, b = span(n)
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                add(n, a, b, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(text(v) for v in rest) + ")", "drop term", func)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if func and not (isinstance(n, ast.Assign) and func.count(".") == 0 and func[0].isupper()):
                add(n, *span(n), "pass", "delete", func)
        if isinstance(n, ast.Call):
            args = [(a, None) for a in n.args] + [(k.value, k) for k in n.keywords]
            for a, k in args:
                if k is not None and k.arg:
                    s, e = span(a)[0] - len(k.arg) - 1, span(a)[1]
                    if src[s:s + len(k.arg)].decode() != k.arg:
                        continue
                    t = src[e:e + 40].decode(errors="replace")
                    j = len(t) - len(t.lstrip())
                    if t[j:j + 1] == ",":
                        add(n, s, e + j + 1, "", "drop kw", func)
                    else:
                        add(n, s, e, "", "drop kw", func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("replace", "strip", "upper", "lower", "astimezone"):
                add(n, *span(n), "(" + text(n.func.value) + ")", "drop call", func)
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                add(n, *span(n.func), "max" if n.func.id == "min" else "min", "minmax", func)
            if isinstance(n.func, ast.Name) and n.func.id in ("abs", "int", "round", "cast", "bool") and len(n.args) == 1:
                add(n, *span(n), "(" + text(n.args[0]) + ")", "drop call", func)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and func.count(".") == 0 and ("\\d" in n.value or "[+-]" in n.value or "?:" in n.value):
            a, b = span(n)
            t = src[a:b].decode()
            for i, ch in enumerate(t):
                if ch in "?+*" and i > 1 and t[i - 1] not in "([\\":
                    add(n, a + i, a + i + 1, "", "regex", func)
                if ch.isdigit() and t[i - 1] in "{,-[":
                    add(n, a + i, a + i + 1, str((int(ch) + 1) % 10), "regex", func)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.arguments, ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
                continue
            visit(c, func)

    for s in tree.body:
        visit(s, "")
    return out


def key(m):
    return (m["file"], m["start"], m["end"], m["new"])


def tree():
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mut")
    subprocess.run(f"cp -a {BASE}/. {d}", shell=True, check=True)
    return d


local = threading.local()


def with_mutant(m, f):
    if not hasattr(local, "d"):
        local.d = tree()
    p = Path(local.d, m["file"])
    src = Path(BASE, m["file"]).read_bytes()
    new = src[:m["start"]] + m["new"].encode() + src[m["end"]:]
    try:
        compile(new, "x", "exec")
    except (SyntaxError, ValueError):
        return None
    p.write_bytes(new)
    try:
        return f(local.d)
    finally:
        p.write_bytes(src)


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV | env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


def tests(m):
    def f(d):
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--no-header", "tests"], d, {"PYTHONPATH": d + "/pysrc"}, 240)
        return rc == 0 and "1352 passed" in out.strip().splitlines()[-1]
    return with_mutant(m, f)


PROPS = os.environ.get("MUT_PROPS", "").split() or [f"C{i:02}" for i in range(1, 31)]


# which checks to try first
HINTS = [("parse_rfc|format_rfc|_parse_rfc|_match_.*rfc", "C15"), ("Delta.*(parse|format)_common|_component|_parse_seconds|_match_.*delta|_match_next", "C14 C30"), ("parse_common_iso|_match_|_RE", "C13 C12"),
         ("format_common_iso|__str__|__repr__", "C12 C27 C14"), ("py_|strptime", "C17"), ("timestamp", "C18"), ("round|increment", "C10 C11"), ("day_length|start_of_day|ambiguous", "C11 C22"), ("reduce|unpkl|copy", "C16"),
         ("patch_|_Frozen|__init__.py", "C23"), ("now", "C23"), ("Date.__sub__", "C07"), ("^DateTimeDelta|^DateDelta", "C09 C06"), ("^TimeDelta", "C08 C05"), ("resolve|disambig|fold|_adjust", "C03 C22 C04"),
         ("System", "C22 C03 C24"), ("__(lt|le|gt|ge|eq|ne|hash)__|exact_eq|difference", "C01 C21 C28 C05"), ("^Zoned", "C04 C03 C02 C19"), ("^Offset", "C02 C06 C20 C24"), ("^Local|^Date|^Time|^Month|^Year", "C06 C24 C21 C20"), ("", "C19 C02 C03 C25 C26")]


def order(m):
    first = [p for pat, ps in HINTS if re.search(pat, m["func"] + " " + m["file"][-11:] + " " + m["old"]) for p in ps.split()]
    return sorted(PROPS, key=lambda p: first.index(p) if p in first else 99)


def checks(m, scale):
    def f(d):
        bad = []
        for p in order(m):
            rc, out = run(["bash", str(V / "check.sh"), p, "--no-evidence", "--scale", scale], str(V), {"VERIF_WORKERS": "1", "VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 1200)
            if rc == 1:
                first = next((l for l in out.splitlines() if l and not l.startswith("VIOLATION")), "")
                return {"caught": p, "by": first[:200]}
            if rc:
                bad.append((p, rc, out[-300:]))
        return {"caught": None, "bad": bad}
    return with_mutant(m, f)


def drive(inp, outp, f, jobs, keep):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(outp + ".done"):
        done = {tuple(json.loads(l)) for l in open(outp + ".done")}
    ms = [m for m in ms if key(m) not in done]
    random.Random(1).shuffle(ms)
    lock = threading.Lock()
    o, dn = open(outp, "a"), open(outp + ".done", "a")

    def one(m):
        r = f(m)
        with lock:
            if keep(r):
                o.write(json.dumps(m | ({"result": r} if isinstance(r, dict) else {})) + "\n"); o.flush()
            dn.write(json.dumps(key(m)) + "\n"); dn.flush()

    with ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(one, ms):
            pass
    for d in Path("/tmp/mut").glob("mut.*"):
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen":
        ms = [m for f in FILES for m in gen_file(f)]
        seen, out = set(), []
        for m in ms:
            if key(m) not in seen:
                seen.add(key(m)); out.append(m)
        Path(sys.argv[2]).write_text("".join(json.dumps(m) + "\n" for m in out))
        print(len(out))
    elif cmd == "tests":
        drive(sys.argv[2], sys.argv[3], tests, int((sys.argv + ["6"])[4]), lambda r: r)
    else:
        sc = sys.argv[4]
        drive(sys.argv[2], sys.argv[3], lambda m: checks(m, sc), int((sys.argv + ["7"])[5]), lambda r: r is not None)
