"""C03: a call converts the same wherever it stands, and its helper statements run
exactly when it does."""
import ast
import copy

from pv import api, frag, mapping
from pv.conv import MARK, Violation, convert_dir, strip_marks
from pv.norm import dump, first_diff, is_import, norm_tree, strip_kind
from pv.pygen import Gen, L, name, render
from pv.runner import Check, Family, Info

_c = {}
VALS = ["u", "w", "p", "q", "v"]


def multi():
    """APIs some call of which needs helper statements before it, with those calls'
    shapes (from the recorded mapping; only used to aim the generator)."""
    if "m" not in _c:
        gold = mapping.load()
        out = {}
        for nm in sorted(api.apis()):
            if api.apis()[nm]["kind"] != "api" or api.owner(nm) not in ("torch",):
                continue
            for e, row in zip(mapping.cases(nm), gold["table"][nm]):
                if not row or row[2]:
                    continue
                body = ast.parse(gold["texts"][row[0]]).body
                pre = [s for s in body[:-1] if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))]
                pre = [s for s in pre if not (isinstance(s, ast.Expr) and ast.unparse(s).startswith("setattr("))]
                if pre and all(isinstance(n, (ast.Call, ast.Name, ast.Attribute, ast.keyword, ast.expr_context)) for n in ast.walk(ast.parse(e, mode="eval").body)) and "torch.float" not in e and not e.startswith(("self", "xt.T.", "xt.data.")):
                    out.setdefault(nm, []).append(e)
        _c["m"] = [(k, v) for k, v in out.items()]
    return _c["m"]


def plain():
    if "p" not in _c:
        _c["p"] = [n for n in frag.by_group("rich") + frag.by_group("prefix")[::3] if api.owner(n) == "torch"]
    return _c["p"]


def no_imports(stmts):
    return [s for s in stmts if not is_import(s) and not ast.unparse(s).startswith("sys.path.append(")]


def run(src):
    out, ok, fail = convert_dir({"a.py": src})
    text = out["a.py"]
    try:
        t = ast.parse(strip_marks(text))
    except SyntaxError as e:
        raise Violation("output is not valid Python: %s\n%s\n%s" % (e, src, text), "invalid-output")
    t.body = no_imports(t.body)
    # a note about an unsupported method is a string statement of its own
    for x in ast.walk(t):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list):
                setattr(x, f, [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and "Not Support auto convert" in s.value.value)])
    return t, ok, fail, text


def alone(expr):
    """(helper statements, converted value or None, ok, fail) of `y = expr`."""
    k = "a:" + expr
    if k not in _c:
        t, ok, fail, text = run("import torch\ny = " + expr + "\n")
        last = t.body[-1] if t.body else None
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and getattr(last.targets[0], "id", "") == "y"):
            _c[k] = ([], None, ok, fail)
        else:
            _c[k] = (t.body[:-1], last.value, ok, fail)
        if len(_c) > 20000:
            for x in [x for x in _c if x.startswith("a:")][:10000]:
                del _c[x]
    return _c[k]


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return copy.deepcopy(self.m[n.id]) if n.id in self.m else n


class Model:
    """Expected program: the converted value at each hole, the helper statements before
    the enclosing statement if the hole is evaluated exactly once with it."""

    def __init__(self, holes):
        self.holes = holes
        self.ok = self.fail = 0
        self.unsafe_seen = self.pre_seen = 0
        self.tmp = 0

    def module(self, tree):
        self.block(tree, "body")
        return tree

    def block(self, node, field):
        out = []
        for st in getattr(node, field):
            pre = []
            self.fields(st, pre, True)
            seen = []
            for s in pre:
                k = ast.dump(s)
                if k not in seen:
                    seen.append(k)
                    out.append(s)
            out.append(st)
        setattr(node, field, out)

    def fields(self, node, pre, safe):
        """Visit the expressions of a statement (or part of one) in field order."""
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    self.block(node, f)
                    continue
                new = []
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        x = self.sub(node, f, i, x, pre, safe)
                    new.append(x)
                v[:] = new
            elif isinstance(v, ast.AST):
                setattr(node, f, self.sub(node, f, None, v, pre, safe))

    def sub(self, parent, f, i, x, pre, safe):
        s = safe
        if isinstance(parent, ast.ExceptHandler) and f == "type":
            s = False
        elif isinstance(parent, ast.Lambda) and f == "body":
            s = False
        elif isinstance(parent, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if f == "generators" and i == 0:
                # its iter alone is evaluated at once
                g = x
                g.target = self.sub(g, "target", None, g.target, pre, False)
                g.iter = self.sub(g, "iter", None, g.iter, pre, safe)
                g.ifs = [self.sub(g, "ifs", j, y, pre, False) for j, y in enumerate(g.ifs)]
                return g
            s = False
        elif isinstance(parent, ast.BoolOp) and f == "values" and i > 0:
            s = False
        elif isinstance(parent, ast.IfExp) and f != "test":
            s = False
        elif isinstance(parent, ast.Compare) and f == "comparators" and i > 0:
            s = False
        elif isinstance(parent, ast.While) and f == "test":
            s = False
        elif isinstance(parent, ast.Assert) and f == "msg":
            s = False
        elif isinstance(parent, (ast.With, ast.AsyncWith)) and f == "items" and i > 0:
            s = False
        elif isinstance(parent, ast.match_case) and f == "guard":
            s = False
        if isinstance(x, ast.Name) and x.id in self.holes:
            return self.hole(x.id, pre, s)
        if isinstance(x, ast.ExceptHandler):
            # fields of a handler: its type is unsafe, its body a block
            self.fields(x, pre, False)
            return x
        self.fields(x, pre, s)
        return x

    def hole(self, h, pre, safe):
        src = self.holes[h]
        e = ast.parse(src, mode="eval").body
        inner = {}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in self.holes:
                inner[n.id] = None
        order = []

        class O(ast.NodeVisitor):
            def visit_Name(s, n):
                if n.id in inner and n.id not in order:
                    order.append(n.id)

        O().visit(e)
        for k in order:
            inner[k] = self.hole(k, pre, safe)
        p, val, ok, fail = alone(src)
        if val is None:
            raise _Skip()
        if p and not safe:
            self.unsafe_seen += 1
            self.fail += ok + fail
            return Sub(inner).visit(copy.deepcopy(e))
        self.ok += ok
        self.fail += fail
        ren = {}
        if p:
            self.pre_seen += 1
            self.tmp += 1
            for s in p:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        ren[n.id] = "%s_%d" % (n.id.rsplit("_", 1)[0], 9000 + self.tmp)
        out = []
        for s in p:
            out.append(Sub(inner).visit(Ren(ren).visit(copy.deepcopy(s))))
        pre.extend(out)
        return Sub(inner).visit(Ren(ren).visit(copy.deepcopy(val)))


# argument expressions in which something may be recognised that is not there
ARGS = [
    "sys.path[0]", "f('sys.path')", "'sys.path.append(0)'", "'import torch'", "'paddle_utils'", "os.environ['torch']", "x_[u]", "(u, *w)", "u.zeta", "lambda: u",
    "f'{u}'", "not u", "u if w else p", "await_", "'tmp_u_0'", "'HOLES'", "{'k': u}", "u[1:, ...]", "g(u)(w)", "-1", "None", "'\\n'",
]


class SubName(ast.NodeTransformer):
    def __init__(self, node, text):
        self.node, self.text = node, text

    def visit_Name(self, n):
        return ast.parse(self.text, mode="eval").body if n is self.node else n


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


class _Skip(Exception):
    pass


class Ctx(Gen):
    """Programs with holes; none in annotations that are not evaluated."""

    def other_import(self):
        return ast.Pass()

    def stmt(self, n):
        r = super().stmt(n)
        for s in r:
            if isinstance(s, ast.AnnAssign):
                s.annotation = name("int")
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                # a tuple is no context manager
                for it in s.items:
                    if isinstance(it.context_expr, ast.Name):
                        it.context_expr = ast.Call(func=name("cfg"), args=[it.context_expr], keywords=[])
            elif isinstance(s, ast.TypeAlias):
                s.value = name("int")
        return r


def pick_call(d, use_multi):
    if use_multi:
        _, es = d.choice(multi())
        e = d.choice(es)
        names = sorted({n.id for n in ast.walk(ast.parse(e)) if isinstance(n, ast.Name)} - {"torch"})
        m = {k: name(VALS[i % len(VALS)]) for i, k in enumerate(names)}
        return ast.unparse(Sub(m).visit(ast.parse(e, mode="eval")).body)
    nm = d.choice(plain())
    i = [0]

    def val(p):
        i[0] += 1
        return name(VALS[i[0] % len(VALS)])

    return ast.unparse(frag.api_call(d, nm, val))


class Context(Family):
    name = "call_in_context"
    quick, thorough = 330, 16000
    nested = False

    def gen(self, d):
        holes = {}

        def new(depth):
            h = "HOLE%d" % (len(holes) + 1)
            holes[h] = None
            e = pick_call(d, d.bool(60))
            if depth == 0 and d.bool(20):
                # an argument that is an ordinary expression
                t = ast.parse(e, mode="eval")
                cands = [n for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in VALS]
                if cands:
                    e = ast.unparse(SubName(d.choice(cands), d.choice(ARGS)).visit(t))
            if depth > 0:
                t = ast.parse(e, mode="eval")
                cands = [n for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in VALS]
                if cands:
                    c = d.choice(cands)
                    if t.body.func is not c and not (isinstance(t.body.func, ast.Attribute) and t.body.func.value is c):
                        c.id = new(depth - 1)
                        e = ast.unparse(t.body)
            holes[h] = e
            return h

        def extra(g, n):
            return name(new(d.int(0, 2) if self.nested else 0))

        g = Ctx(d, extra_expr=extra, extra_rate=10)
        src = render(g.module(3, 1, 4, future=False))
        if src is None or not holes or len(holes) > 12:
            return None
        return {"src": src, "holes": holes}

    def shrinks(self, c):
        for h, e in c["holes"].items():
            if "HOLE" not in e and e != "torch.slogdet(u)":
                yield dict(c, holes=dict(c["holes"], **{h: "torch.slogdet(u)"}))

    def check(self, c):
        holes = c["holes"]
        m = {}

        def text(h):
            t = ast.parse(holes[h], mode="eval").body
            return Sub({k: text(k) for k in holes if k in {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}}).visit(t)

        m = {h: text(h) for h in holes}
        tree = Sub(m).visit(ast.parse(c["src"]))
        i = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant) and isinstance(tree.body[0].value.value, str) else 0
        tree.body.insert(i, ast.parse("import torch").body[0])
        src = render(tree)
        if src is None:
            return Info(False)
        mod = Model(holes)
        try:
            exp = mod.module(ast.parse(c["src"]))
        except _Skip:
            return Info(False)
        got, ok, fail, out = run(src)
        exp = ast.parse(ast.unparse(ast.fix_missing_locations(exp)))
        a, b = (dump(norm_tree(strip_kind(t))) for t in (exp, got))
        if a != b:
            raise Violation("a call converts differently in its context, or its helper statements are misplaced: %s\n--- input\n%s\n--- output\n%s\n--- expected\n%s" % (first_diff(a, b), src[:3000], out[:3000], ast.unparse(exp)[:3000]), "context")
        if (ok, fail) != (mod.ok, mod.fail):
            raise Violation("counts (converted, not converted) = %r, but the calls alone give %r\n%s\n%s" % ((ok, fail), (mod.ok, mod.fail), src[:3000], out[:2000]), "context-counts")
        return Info(mod.pre_seen + mod.unsafe_seen > 0)


class Nested(Context):
    name = "nested_calls_in_context"
    quick, thorough = 330, 16000
    nested = True


class C(Check):
    id = "C03"
    rule = "the program contains at least one call whose conversion needs helper statements; distinct programs"
    assumptions = [
        "contexts are drawn from the Python 3.12 grammar of pv/pygen.py without imports; calls have plain names as arguments (or further calls)",
        "the reference is the conversion of the same call as `y = <call>`; a nested argument is substituted for a plain name",
        "the order of helper statements of one statement relative to other parts of that statement is not part of the property; annotations that are never evaluated are left out",
        "projects are converted as directories, so that helper functions are in another file",
    ]
    families = [Context(), Nested()]


CHECK = C()
