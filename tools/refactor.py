"""Makes a copy of the library which behaves the same but is written differently: private attributes renamed, error messages changed,
comparisons swapped, conditions inverted, keyword-free temporaries, comments and docstrings gone.  usage: refactor.py SRC_TREE DST_TREE"""
import ast, re, shutil, sys
from pathlib import Path

src, dst = Path(sys.argv[1]), Path(sys.argv[2])
shutil.copytree(src / "pysrc", dst / "pysrc", dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
p = dst / "pysrc/whenever/_pywhenever.py"
tree = ast.parse(p.read_text())
private = {a.attr for a in ast.walk(tree) if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and re.fullmatch("_[a-z]\\w*", a.attr)}
private |= {n.name for c in tree.body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, ast.FunctionDef) and re.fullmatch("_[a-z]\\w*", n.name)}
private -= {"_py_datetime"}
count = [0, 0, 0, 0]


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.Attribute) and simple(n.value) or isinstance(n, ast.BinOp) and simple(n.left) and simple(n.right)


class T(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in private:
            n.attr += "_v2"
            count[0] += 1
        return n

    def visit_FunctionDef(self, n):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
            n.body = n.body[1:]
        self.generic_visit(n)
        if n.name in private:
            n.name += "_v2"
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        for s in n.body:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and t.id == "__slots__":
                for e in ast.walk(s.value):
                    if isinstance(e, ast.Constant) and e.value in private:
                        e.value += "_v2"
            elif isinstance(t, ast.Name) and t.id in private:
                t.id += "_v2"
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP and simple(n.left) and simple(n.comparators[0]):
            count[1] += 1
            return ast.Compare(n.comparators[0], [SWAP[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and not any(isinstance(x, (ast.ClassDef, ast.FunctionDef, ast.Import, ast.ImportFrom)) for x in n.body + n.orelse):
            count[2] += 1
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Raise(self, n):
        self.generic_visit(n)
        if "--messages" in sys.argv and isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) and n.exc.args:
            count[3] += 1
            n.exc.args = [ast.Constant("another message")]
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, ast.Constant):
            return [ast.Assign([ast.Name("result__", ast.Store())], n.value), ast.Return(ast.Name("result__", ast.Load()))]
        return n


# module-level names stay: "_unpkl_..." are part of the pickle format
tree = T().visit(tree)
text = ast.unparse(ast.fix_missing_locations(tree))
for f in (src / "pysrc/whenever/__init__.py",):
    t = f.read_text()
    for a in private:
        t = re.sub(r"(?<=\.)%s\b" % a, a + "_v2", t)
    (dst / "pysrc/whenever/__init__.py").write_text(t)
p.write_text(text)
print(count, sorted(private))
