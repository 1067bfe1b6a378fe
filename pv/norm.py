"""Normal forms under which two conversions count as the same."""
import ast
import re

TMP = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*_\d+$")


def idents(tree):
    s = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            s.add(n.id)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, ast.Attribute):
            s.add(n.attr)
        elif isinstance(n, ast.alias):
            s.add(n.asname or n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            s.add(n.name)
        elif isinstance(n, ast.keyword) and n.arg:
            s.add(n.arg)
    return s


class _Norm(ast.NodeTransformer):
    def __init__(self, keep, sort_kw):
        self.map = {}
        self.keep = keep
        self.sort_kw = sort_kw

    def _n(self, name):
        if name in self.keep or not TMP.match(name):
            return name
        if name not in self.map:
            self.map[name] = "%s__T%d" % (name.rsplit("_", 1)[0], len(self.map))
        return self.map[name]

    def visit_Name(self, n):
        n.id = self._n(n.id)
        return n

    def visit_FunctionDef(self, n):
        n.name = self._n(n.name)
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.sort_kw and all(k.arg for k in n.keywords):
            n.keywords = sorted(n.keywords, key=lambda k: k.arg)
        return n

    def visit_Constant(self, n):
        n.kind = None
        return n


def norm_tree(tree, keep=(), sort_kw=True):
    """Alpha-rename generated temporaries (names ending in a counter that the
    input does not contain), drop literal kinds, order keyword arguments."""
    return _Norm(set(keep), sort_kw).visit(tree)


def dump(tree):
    if isinstance(tree, list):
        return "[" + ",\n".join(ast.dump(t) for t in tree) + "]"
    return ast.dump(tree)


def strip_kind(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
            n.kind = None
    return tree


def first_diff(a, b, ctx=90):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return "...%s <<VS>> ...%s" % (
        a[max(0, i - ctx): i + ctx],
        b[max(0, i - ctx): i + ctx],
    )


def is_import(n):
    return isinstance(n, (ast.Import, ast.ImportFrom))
