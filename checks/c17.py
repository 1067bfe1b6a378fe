"""C17: names that only look like PyTorch are not touched."""
import ast
import copy

from pv import api, frag
from pv.conv import MARK, Violation, convert, convert_dir, strip_marks
from pv.norm import dump, first_diff, is_import, norm_tree, strip_kind
from pv.pygen import ATTRS, Gen, name, render
from pv.runner import Check, Family, Info
from checks.c04 import Respell, idents, skip_head

PKGS = sorted({n.split(".")[0] for n in api.apis()})
# packages of the PyTorch family, as far as the tool knows them
FAMILY = ["torch", "torchvision", "transformers", "datasets", "timm", "mmcv", "torchaudio", "kornia", "lightning", "accelerate", "diffusers", "fairscale", "flash_attn", "mmseg", "mmdet", "jieba", "fasttext", "detectron", "torch_xla", "einops", "audiotools"]
LEAVES = ["Tensor", "nn", "F", "optim", "relu", "Linear", "add", "functional", "cuda", "data", "utils", "autograd", "Module", "float32", "device", "distributed", "Parameter", "DataLoader", "Dataset", "zeros", "random"]
INTERNAL = ["other_packages", "torch_packages", "may_torch_packages", "api_alias_name_map"]
LOOKALIKE = ["torch_", "_torch", "torchx", "my_torch", "torch2", "torch_utils", "torchvision_ext", "mytransformers", "transformers_js", "datasets2", "my_datasets", "audiotools_x", "my_audiotools", "einopsx", "timm_models", "mmcv_full", "oss", "setuptools_scm"]


class Ren(ast.NodeTransformer):
    """Renames identifiers (not attributes, not keyword names)."""

    def __init__(self, m):
        self.m = m

    def visit(self, n):
        for f in ("id", "arg", "name", "asname", "rest"):
            v = getattr(n, f, None)
            if isinstance(v, str) and not isinstance(n, ast.keyword) and not (isinstance(n, ast.alias) and f == "name"):
                setattr(n, f, self.m.get(v, v))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            n.names = [self.m.get(x, x) for x in n.names]
        return self.generic_visit(n)


def rest(text):
    t = norm_tree(strip_kind(ast.parse(strip_marks(text))))
    return [s for s in t.body if not is_import(s) and not ast.unparse(s).startswith("sys.path.append(")]


def same(want, got, what, src, text, sig):
    a = dump(ast.Module(body=want, type_ignores=[]))
    b = dump(ast.Module(body=got, type_ignores=[]))
    if a != b:
        raise Violation("%s: %s\n--- input\n%s\n--- output\n%s" % (what, first_diff(a, b), src[:2500], text[:2500]), sig)


def marks(a, b, what, sig):
    """the same number of marked statements"""
    n, m = (len({s for s in marked(t)}) for t in (a, b))
    if n != m:
        raise Violation("%s: %d marked statements instead of %d\n--- output\n%s" % (what, m, n, b[:2500]), sig)


def marked(text):
    lines = text.split("\n")
    t = ast.parse(strip_marks(text))
    out = []
    for n, l in enumerate(lines, 1):
        if l.startswith(MARK):
            best = None
            for s in ast.walk(t):
                if isinstance(s, (ast.stmt, ast.ExceptHandler, ast.match_case)) and getattr(s, "lineno", 0) <= n <= getattr(s, "end_lineno", 0):
                    best = s
            out.append(id(best))
    return out


# ---------------------------------------------------------------- own names
UNAMES = ["usr_a", "usr_b", "usr_c", "usr_d", "usr_e", "usr_f"]


def own_program(d, imports=True):
    """A program whose own identifiers are all in UNAMES, with API uses."""

    def extra(g, m):
        k = d.int(0, 6)
        val = (lambda p: frag.literalish(d, g, m - 1)) if m > 0 else (lambda p: name("usr_a"))
        if k == 0:
            nm = name(g.nm())
            f = d.choice(["setattr", "hasattr", "isinstance", "getattr", "super", "partial"])
            return ast.Call(func=name(f), args=[nm, val(0)], keywords=[])
        if k == 1:
            return ast.Attribute(value=name(g.nm()), attr=d.choice(["attr_q", "size_q", "zeta"]), ctx=ast.Load())
        if k == 2:
            return ast.Call(func=name(g.nm()), args=[val(0)], keywords=[])
        nm = frag.pick_api(d, ("prefix", "rich"))
        return frag.api_call(d, nm, val, name(g.nm()))

    g = Gen(d, names=UNAMES, attrs=["attr_q", "size_q", "zeta"], extra_expr=extra, extra_rate=14)
    tree = g.module(3, 1, 4)
    # other identifiers the grammar makes up
    fix = {}
    for n in ast.walk(tree):
        for f in ("id", "arg", "name", "rest"):
            v = getattr(n, f, None)
            if isinstance(v, str) and not isinstance(n, (ast.keyword, ast.alias)) and v in ("self", "cls", "args", "arg", "kwargs", "data", "ndarray", "paddle", "x", "y"):
                fix[v] = "own_" + v
    tree = Ren(fix).visit(tree)
    return tree


def with_imports(d, tree, respell):
    # dotted names of packages other than torch keep the plain import
    if respell:
        rs = Respell(d, idents(tree) | set(PKGS) | set(LEAVES) | set(FAMILY) | {"self", "data", "args", "arg", "ndarray", "paddle"})
        tree = rs.visit(tree)
        imps = rs.imports + [ast.Import(names=[ast.alias(name="torch")])]
    else:
        pk = sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id in PKGS} | {"torch"})
        imps = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
    i = skip_head(tree.body)
    tree.body[i:i] = imps
    return tree


class OwnNames(Family):
    """Renaming the program's own variables, parameters, functions and classes to names
    of packages (not imported), APIs or the tool's internals renames them in the output
    and changes nothing else."""

    name = "own_names"
    quick, thorough = 700, 40000

    def gen(self, d):
        tree = with_imports(d, own_program(d), d.bool(50))
        src = render(tree)
        if src is None:
            return None
        imported = {a.name.split(".")[0] if isinstance(n, ast.Import) else n.module.split(".")[0] for n in ast.walk(ast.parse(src)) for a in getattr(n, "names", []) if isinstance(n, (ast.Import, ast.ImportFrom)) and getattr(n, "level", 0) == 0}
        imported |= {(a.asname or a.name).split(".")[0] for n in ast.walk(ast.parse(src)) for a in getattr(n, "names", []) if isinstance(n, (ast.Import, ast.ImportFrom))}
        used = idents(ast.parse(src))
        pool = [x for x in FAMILY + LEAVES + INTERNAL + LOOKALIKE if x not in imported and x not in used]
        to = d.sample(pool, len(UNAMES))
        return {"src": src, "m": dict(zip(UNAMES, to))}

    def check(self, c):
        m = c["m"]
        t = ast.parse(c["src"])
        src2 = render(Ren(m).visit(t))
        if src2 is None:
            return Info(False)
        a, ok, fail = convert_dir({"a.py": c["src"]})
        b, ok2, fail2 = convert_dir({"a.py": src2})
        want = [Ren(m).visit(s) for s in rest(a["a.py"])]
        same(want, rest(b["a.py"]), "own names %r are treated as something else" % m, src2, b["a.py"], "own-names")
        if (ok, fail) != (ok2, fail2):
            raise Violation("counts %r instead of %r with own names %r\n%s" % ((ok2, fail2), (ok, fail), m, src2[:2500]), "own-names-count")
        marks(a["a.py"], b["a.py"], "own names %r" % m, "own-names-mark")
        return Info(ok + fail > 0)


# ---------------------------------------------------------------- locals
IMPORTS = [
    ("from torch.utils import data", "data"), ("from torch import nn", "nn"), ("import torch.nn.functional as F", "F"), ("from torch import optim", "optim"),
    ("from torch.nn import Linear", "Linear"), ("from torch import Tensor", "Tensor"), ("from torch import device", "device"), ("import torch as th", "th"),
    ("from torch.nn.functional import relu", "relu"), ("from torch import zeros as zz", "zz"), ("from torchvision import transforms", "transforms"), ("from torch import float32 as dt", "dt"),
    ("import torchvision", "torchvision"), ("import transformers", "transformers"), ("import torch", "torch"),
]


class Locals(Family):
    """A parameter, local variable or comprehension variable that bears an imported name
    is converted as one with any other name."""

    name = "local_variables"
    quick, thorough = 700, 40000

    def gen(self, d):
        imp, nm = d.choice(IMPORTS)
        k = d.int(0, 24)
        body = []
        inner = Gen(d, names=["usr_a", "usr_b", "usr_c", "usr_d", "usr_e", "usr_f"], attrs=["attr_q", "zeta"], extra_expr=lambda g, m: self.use(d, g, m), extra_rate=25)
        inner.in_func = True
        for _ in range(d.int(1, 3)):
            body += inner.stmt(2)
        body = [s for s in body if not isinstance(s, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))] or [ast.Pass()]
        b = ast.unparse(ast.fix_missing_locations(ast.Module(body=body, type_ignores=[])))
        ind = "\n".join("    " + l for l in b.split("\n"))
        e = ast.unparse(ast.fix_missing_locations(self.use(d, inner, 1)))
        if k == 0:
            f = "def fn(usr_a, usr_b=1):\n" + ind
        elif k == 1:
            f = "def fn(usr_b, *usr_a, usr_c=2):\n" + ind
        elif k == 2:
            f = "def fn(usr_b):\n    usr_a = usr_b\n" + ind
        elif k == 3:
            f = "def fn(usr_b):\n    for usr_a in usr_b:\n" + "\n".join("    " + l for l in ind.split("\n"))
        elif k == 4:
            f = "class Kc:\n    def m(self, usr_a):\n" + "\n".join("    " + l for l in ind.split("\n"))
        elif k == 5:
            f = "y0 = lambda usr_a, usr_b: " + e
        elif k == 6:
            f = "y0 = %s" % d.choice(["[%s for usr_a in usr_b]", "{%s for usr_a in usr_b if usr_a.attr_q}", "{usr_a: %s for usr_a in usr_b}", "list(%s for usr_b, usr_a in usr_c)", "[1 for usr_b in usr_c for usr_a in usr_b if %s]"]) % e
        elif k == 7:
            f = "def fn(usr_b):\n    with usr_b as usr_a:\n        y0 = %s\n    return y0" % e
        elif k == 8:
            f = "def fn(usr_b):\n    try:\n        usr_c()\n    except Exception as usr_a:\n        y0 = %s\n" % e
        elif k == 9:
            f = "def fn(usr_a):\n    def inner(usr_b):\n        return %s\n    return inner" % e
        else:
            f = d.choice([
                "def fn(usr_b):\n    def usr_a(usr_c):\n        return usr_c\n    return %s",
                "def fn(usr_b):\n    class usr_a(object):\n        pass\n    return %s",
                "def fn(usr_b):\n    async def usr_a(usr_c):\n        return usr_c\n    return %s",
                "def fn(usr_b):\n    if (usr_a := usr_b):\n        return %s",
                "def fn(usr_b):\n    (usr_c, [usr_d, *usr_a]) = usr_b\n    return %s",
                "def fn(usr_b):\n    match usr_b:\n        case {'k': usr_a}:\n            return %s",
                "def fn(usr_b):\n    match usr_b:\n        case [usr_c, *usr_a]:\n            return %s",
                "def fn(usr_b):\n    match usr_b:\n        case {'k': 1, **usr_a}:\n            return %s",
                "def fn(usr_b):\n    match usr_b:\n        case (1 | 2) as usr_a:\n            return %s",
                "def fn(usr_b):\n    def inner(usr_c):\n        nonlocal usr_a\n        usr_a = usr_c\n        return %s\n    usr_a = None\n    return inner",
                "def fn(usr_b):\n    usr_a: object = usr_b\n    return %s",
                # the variable of a comprehension is not one of the function around it
                "def fn(usr_b):\n    y0 = {usr_a: %s for usr_a in usr_b}\n    return {n}(usr_b)",
                "def fn(usr_b):\n    y0 = {usr_a for usr_a in usr_b if %s}\n    return [y0 for usr_a in usr_b], {n}(usr_b)",
                "def fn(usr_b):\n    y0 = [%s for usr_a in usr_b]\n    return {n}(y0)",
                "def fn(usr_b):\n    y0 = list(%s for usr_a in usr_b)\n    return {n}(y0)",
                "def fn(usr_b):\n    y0 = lambda usr_a: %s\n    return {n}(y0)",
                "def fn(usr_b):\n    for usr_c, usr_a in usr_b:\n        pass\n    else:\n        return %s",
                "def fn(usr_b, /, usr_a, *, usr_c):\n    while usr_c:\n        y0 = %s\n    return y0",
                "def fn(usr_b, **usr_a):\n    def inner():\n        return lambda usr_e: %s\n    return inner",
                "async def fn(usr_b):\n    async for usr_a in usr_b:\n        y0 = %s\n    async with usr_c as usr_d:\n        return y0",
                "class Kc:\n    @staticmethod\n    def m(usr_a):\n        class Inner:\n            def n(self):\n                return %s\n        return Inner",
                "def fn(usr_b):\n    y0 = lambda usr_a: (lambda usr_c: %s)\n    return y0",
                "def fn(usr_b):\n    y0 = [[%s for usr_c in usr_a] for usr_a in usr_b]\n    return y0",
                "def fn(usr_b):\n    for usr_a in usr_b:\n        try:\n            with usr_c:\n                y0 = %s\n        finally:\n            pass",
                "def fn(usr_b):\n    y0 = usr_b\n    usr_a += 1\n    del usr_a\n    usr_a = y0\n    return %s",
            ])
            f = f.replace("%s", e)
        if d.bool(40) and imp != "import torch":
            # the imported name itself, where it is not shadowed
            f = d.choice(["%s\ny9 = {n}(usr_q)" % f, "y9 = {n}.zeta(usr_q)\n%s" % f, "%s\ndef fn9(usr_q):\n    return {n}(usr_q)" % f, "def fn9(usr_q):\n    return {n}.abs(usr_q)\n%s" % f, "%s\nclass K9:\n    def m(self):\n        return {n}(1)" % f])
        if imp == "import torch":
            f = f.replace("{n}(", "tq_.abs(")
        if "{n}" in f:
            f = f.replace("{n}", nm) if nm in ("relu", "Linear", "Tensor", "device", "zz") else f.replace("{n}(", "{n}.abs(").replace("{n}", nm)
        src = "%s\n%s\n%s\n" % (imp, "" if imp == "import torch" else "import torch as tq_", f)
        try:
            compile(src, "x", "exec", dont_inherit=True)
        except (SyntaxError, ValueError):
            return None
        return {"src": src, "nm": nm}

    def use(self, d, g, m):
        k = d.int(0, 8)
        u = "usr_a"
        pk = "tq_" if d.bool(50) else None
        return ast.parse(d.choice([
            "%s.attr_q" % u, "%s.attr_q(usr_b)" % u, "%s[0]" % u, "%s(usr_b)" % u, "usr_b(%s)" % u, "isinstance(usr_b, %s)" % u, "setattr(%s, 'k', usr_b)" % u,
            "hasattr(%s, 'zeta')" % u, "tq_.abs(%s)" % u, "tq_.add(usr_b, %s.zeta)" % u, "[%s, usr_c]" % u, "{%s: 1}" % u, "usr_b(usr_c, key_q=%s)" % u, "tq_.nn.Linear(%s, usr_b)" % u,
            "%s.Linear" % u, "%s.zeros(usr_b)" % u, "%s.DataLoader" % u, "%s.functional.relu(usr_b)" % u, "usr_b[%s]" % u, "%s.attr_q.zeta" % u, "lambda usr_d: %s.attr_q" % u, "-%s" % u, "%s + 1" % u,
        ]), mode="eval").body

    def check(self, c):
        nm = c["nm"]
        src = c["src"]
        has_t = "import torch as tq_" in src
        if not has_t:
            src = src.replace("tq_.", "torch.")
            if "torch." in src and nm == "torch":
                # the package itself is not visible where its name is a variable
                src = src.replace("torch.", "usr_b.")
        ref = src
        head, tail = src.split("\n", 1)
        t = ast.parse(tail)
        t = Ren({"usr_a": nm}).visit(t)
        src2 = head + "\n" + ast.unparse(t) + "\n"
        try:
            compile(src2, "x", "exec", dont_inherit=True)
        except SyntaxError:
            return Info(False)
        a, ok, fail = convert_dir({"a.py": ref})
        b, ok2, fail2 = convert_dir({"a.py": src2})
        want = [Ren({"usr_a": nm}).visit(s) for s in rest(a["a.py"])]
        same(want, rest(b["a.py"]), "a variable named %s is taken for the imported one" % nm, src2, b["a.py"], "local:%s" % nm)
        if (ok, fail) != (ok2, fail2):
            raise Violation("counts %r instead of %r with a variable named %s\n%s\n->\n%s" % ((ok2, fail2), (ok, fail), nm, src2[:2500], b["a.py"]), "local-count:%s" % nm)
        marks(a["a.py"], b["a.py"], "a variable named %s" % nm, "local-mark:%s" % nm)
        return Info("usr_a" in src.split("\n", 2)[2])


# ---------------------------------------------------------------- other packages
def foreign_chain(d, root, m=2):
    """An expression rooted at a foreign name: root(.attr | (args))*, ends in anything."""
    attrs = LEAVES + ["view", "item", "numpy", "size", "abs", "transpose", "cuda", "to", "detach", "backward", "step", "load", "attr_q", "linalg", "T", "weight"]
    e = name(root)
    for _ in range(d.int(0 if d.bool(30) else 1, 3)):
        if d.bool(65) or isinstance(e, ast.Call):
            e = ast.Attribute(value=e, attr=d.choice(attrs), ctx=ast.Load())
        else:
            args = [ast.Constant(d.int(0, 3)) if d.bool(50) or m <= 0 else foreign_chain(d, root, m - 1) for _ in range(d.int(0, 2))]
            kws = [ast.keyword(arg=d.choice(["dim", "device", "requires_grad", "out", "kq"]), value=ast.Constant(d.choice([1, None, "a"])))] if d.bool(30) else []
            e = ast.Call(func=e, args=args, keywords=kws)
    return e


def foreign_imports(d, mods):
    """(import line, bound name)"""
    mod = d.choice(mods)
    k = d.int(0, 5)
    leaf = d.choice(LEAVES + ["array", "load_it"])
    if k == 0:
        return "import %s" % mod, mod.split(".")[0]
    if k == 1:
        n = d.choice(LEAVES + ["np", "T"])
        return "import %s as %s" % (mod, n), n
    if k == 2:
        return "from %s import %s" % (mod, leaf), leaf
    if k == 3:
        return "from %s import %s as %s" % (mod, leaf, leaf + "_z"), leaf + "_z"
    if k == 4:
        return "from %s.sub_q import %s" % (mod, leaf), leaf
    return "import %s.%s as %s" % (mod, "sub_q", leaf), leaf


STM = ["y{i} = {e}", "{e}", "if {e}:\n    z = 1", "def fn{i}(p=None):\n    return {e}", "class Kc{i}({e}):\n    v = {e2}", "for i in {e}:\n    y{i} = {e2}", "y{i}: {e} = {e2}", "with {e} as q:\n    pass", "@{r}\ndef fn{i}():\n    pass", "assert isinstance(x, {e})", "y{i} = [{e}, {e2}]", "y{i} = g(k={e})"]
TORCH = ["t{i} = torch.abs(u)", "t{i} = torch.add(u, v)", "t{i} = torch.nn.Linear(u, v)", "t{i} = torch.unknown_q(u)", "t{i} = torch.max(u, dim=1)"]


class Foreign(Family):
    """Names imported from other libraries, and everything reached from them, stay."""

    name = "other_libraries"
    quick, thorough = 700, 40000
    mods = ["numpy", "zeta_lib", "jax.numpy", "my_project.nn", "project_q.torch", "project_q.transformers", "lib_q.audiotools.ml"] + LOOKALIKE

    def setting(self, d):
        return self.mods, {}

    def relative(self, d, line, nm):
        return line, nm

    def gen(self, d):
        mods, files = self.setting(d)
        imps = []
        for _ in range(d.int(1, 3)):
            line, nm = self.relative(d, *foreign_imports(d, mods))
            if nm not in [x for _, x in imps] and nm not in ("torch", "os", "einops", "setuptools"):
                imps.append((line, nm))
        if d.bool(20):
            # options of the program and numpy arrays: known by their conventional names
            nm = d.choice(["args", "arg", "ndarray"])
            if nm not in [x for _, x in imps]:
                imps.append((None, nm))
        if not imps:
            return None
        parts = []
        for i in range(d.int(1, 4)):
            if d.bool(25):
                parts.append(["t", d.choice(TORCH).format(i=i)])
                continue
            nm = d.choice(imps)[1]
            e, e2 = (ast.unparse(ast.fix_missing_locations(foreign_chain(d, nm))) for _ in range(2))
            r = nm + d.choice(["", ".register", "(1)", ".cuda(2)"])
            parts.append(["f", d.choice(STM).format(i=i, e=e, e2=e2, r=r)])
        head = [l for l, _ in imps if l]
        if d.bool(80):
            head.insert(d.int(0, len(head)), d.choice(["import torch", "import torch as torch", "import torch, json"]))
        else:
            parts = [p for p in parts if p[0] == "f"]
        src = "\n".join(head + [p for _, p in parts]) + "\n"
        try:
            compile(src, "x", "exec", dont_inherit=True)
        except (SyntaxError, ValueError):
            return None
        return {"head": head, "parts": parts, "files": files}

    path = "a.py"

    def check(self, c):
        src = "\n".join(c["head"] + [p for _, p in c["parts"]]) + "\n"
        at = c.get("at", "a.py")
        out, ok, fail = convert_dir(dict(c["files"], **{at: src}))
        if "torch" in src:
            alone, ok2, fail2 = convert_dir({"a.py": "\n".join(["import torch"] + [p for k, p in c["parts"] if k == "t"]) + "\n"})
        want, t_out = [], []
        ts = rest(alone["a.py"]) if "torch" in src else []
        if (ok, fail) != ((ok2, fail2) if "torch" in src else (0, 0)):
            raise Violation("names of other modules are counted: %r\n--- input\n%s\n--- output\n%s" % ((ok, fail), src, out[at]), "foreign-count")
        got = rest(out[at])
        n = sum(l.startswith(MARK) for l in out[at].split("\n"))
        n2 = sum(l.startswith(MARK) for l in alone["a.py"].split("\n")) if "torch" in src else 0
        if n != n2:
            raise Violation("a line of other modules is marked, or one with PyTorch is not\n--- input\n%s\n--- output\n%s" % (src[:2500], out[at][:2500]), "foreign-mark")
        # every statement that uses no PyTorch comes out as it was, in order
        keep = [dump(strip_kind(s)) for k, p in c["parts"] if k == "f" for s in ast.parse(p).body]
        have = [dump(s) for s in got]
        pos = 0
        for k in keep:
            try:
                pos = have.index(k, pos) + 1
            except ValueError:
                raise Violation("a statement that uses only names of other modules was changed\n--- input\n%s\n--- output\n%s" % (src[:2500], out[at][:2500]), "foreign-changed")
        if len(have) != len(keep) + len(ts):
            raise Violation("statements appeared or were lost\n--- input\n%s\n--- output\n%s" % (src[:2500], out[at][:2500]), "foreign-extra")
        # the imports are still there (with formatting off they are not moved)
        def imports(text):
            s = set()
            for n in ast.walk(ast.parse(strip_marks(text))):
                if isinstance(n, ast.Import):
                    s |= {("", 0, a.name, a.asname) for a in n.names}
                elif isinstance(n, ast.ImportFrom):
                    s |= {(n.module, n.level, a.name, a.asname) for a in n.names}
            return s
        need = imports("\n".join(h for h in c["head"] if not h.startswith("import torch,") and h not in ("import torch", "import torch as torch")) + "\n")
        lost = need - imports(out[at])
        if lost:
            raise Violation("an import of another module was changed or removed: %r\n--- input\n%s\n--- output\n%s" % (sorted(map(str, lost)), src[:2500], out[at][:2500]), "foreign-import")
        extra = {x for x in imports(out[at]) - need if not (x[2] in ("paddle", "sys", "*", "json") or x[2].startswith("paddle"))}
        if extra:
            raise Violation("an import appeared: %r\n--- input\n%s\n--- output\n%s" % (sorted(map(str, extra)), src[:2500], out[at][:2500]), "foreign-import-extra")
        return Info(len(keep) > 0 and any(h.startswith("import torch") for h in c["head"]))


class ProjectModules(Foreign):
    """Modules and packages of the project that are named like PyTorch packages."""

    name = "project_modules"

    def setting(self, d):
        mods = d.sample([x for x in FAMILY if x not in ("torch", "einops")] + ["nn", "optim", "utils"], d.int(1, 3))
        at = d.choice(["a.py", "pkg/m.py"])
        base = at.rsplit("/", 1)[0] + "/" if "/" in at else ""
        files = {}
        for m in mods:
            if d.bool(50):
                files[base + m + ".py"] = "v = 1\n"
            else:
                files[base + m + "/__init__.py"] = "v = 1\n"
                files[base + m + "/sub_q.py"] = "v = 1\n"
        self.at = at
        self.pk = [m for m in mods if base + m + "/sub_q.py" in files]
        return mods, files

    def relative(self, d, line, nm):
        # a submodule exists only in a package; relative imports need no file
        m = line.split()[1]
        if "sub_q" in line and m.split(".")[0] not in self.pk:
            return line.replace(".sub_q", ""), nm
        if line.startswith("from ") and d.bool(30):
            # what lies beside the importing file does not matter for a relative import
            mod = d.choice([m, d.choice(FAMILY), "torch.nn", "torch", "nn"])
            return "from %s%s%s" % (d.choice([".", "..", "..."]), mod, line[5 + len(m) :]), nm
        if line.startswith("from ") and d.bool(15):
            return "from . import %s" % line.split(" import ")[1], nm
        return line, nm

    def gen(self, d):
        c = super().gen(d)
        if c:
            c["at"] = self.at
        return c


class C(Check):
    id = "C17"
    rule = "own_names: the program uses APIs; local_variables: the variable is used; other families: at least one statement of foreign names in a file that imports PyTorch; distinct cases"
    assumptions = [
        "in a file that imports PyTorch, a method of an object of unknown origin is taken for a tensor method by design; only names imported from other modules and what is reached from them by attributes and calls is known not to be PyTorch",
        "a module of the project is one that lies beside the importing file or is imported relatively",
        "names rebound at module level after being imported are not covered",
    ]
    families = [OwnNames(), Locals(), Foreign(), ProjectModules()]


CHECK = C()
