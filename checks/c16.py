"""C16: converted programs compute what the original computes."""
import ast
import contextlib
import copy
import inspect
import io
import json
import lzma
import multiprocessing
import os
import random
import re
import shutil
import warnings
import zlib

from pv import api, env, nets
from pv.conv import Violation, convert, parse_out, strip_marks
from pv.iso import ChildDied, in_child
from pv.pygen import D, L, S, name
from pv.runner import Check, Family, Info
from checks.c18 import marked
from checks.c19 import bound

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
_c = {}


def corpus():
    if "c" not in _c:
        with lzma.open(os.path.join(CORPUS, "exec.json.xz"), "rt") as f:
            _c["c"] = json.load(f)
    return _c["c"]


# ---------------------------------------------------------------- execution
def compare(a, b, opt, path="result"):
    """None, or how the Paddle value b differs from the PyTorch value a."""
    import numpy as np
    import paddle
    import torch

    value, shape, dtype, grad, rtol, atol = opt
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return "%s: %r vs %r" % (path, type(a), type(b))
        for i, (x, y) in enumerate(zip(list(a.values()), list(b.values()))):
            r = compare(x, y, opt, "%s{%d}" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)) or len(a) != len(b):
            return "%s: %r vs %r" % (path, a if len(str(a)) < 300 else type(a), b if len(str(b)) < 300 else type(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = compare(x, y, opt, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, torch.Tensor):
        if not isinstance(b, paddle.Tensor):
            return "%s: tensor vs %r" % (path, type(b))
        if a.is_sparse or a.is_quantized or a.layout is not torch.strided:
            return None
        if grad and a.requires_grad == b.stop_gradient:
            return "%s: requires_grad %s vs stop_gradient %s" % (path, a.requires_grad, b.stop_gradient)
        if a.dtype is torch.bfloat16:
            a, b = a.float(), b.astype("float32")
        x, y = a.detach().resolve_conj().resolve_neg().cpu().numpy(), b.detach().numpy()
    elif isinstance(a, (np.ndarray, np.generic)):
        x, y = np.asarray(a), np.asarray(b)
    elif isinstance(a, (bool, int, float, str, type(None))):
        if type(a) is not type(b):
            return "%s: %r vs %r" % (path, a, b)
        if value is True and not (a == b or (isinstance(a, float) and (abs(a - b) <= max(1e-5, rtol) * abs(a) + atol or (a != a and b != b)))):
            return "%s: %r vs %r" % (path, a, b)
        return None
    else:
        return None
    if not shape:
        x, y = x.flatten(), y.flatten()
    if dtype and x.dtype != y.dtype:
        return "%s: dtype %s vs %s" % (path, x.dtype, y.dtype)
    if value:
        if x.shape != y.shape:
            return "%s: shape %s vs %s" % (path, x.shape, y.shape)
    if value is True:
        t = 2e-2 if x.dtype == np.float16 else 1e-5
        try:
            np.testing.assert_allclose(y, x, rtol=max(rtol, t), atol=max(atol, t / 10))
        except AssertionError:
            return "%s: values\n%s\nvs\n%s" % (path, str(x)[:600], str(y)[:600])
    return None


def same(a, b):
    """Whether two PyTorch results are the same."""
    import torch

    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, torch.Tensor):
        if a.shape != b.shape or a.dtype != b.dtype or a.requires_grad != b.requires_grad or a.layout is not b.layout:
            return False
        if a.layout is not torch.strided or a.is_quantized:
            return True
        return bool(torch.equal(a, b)) or bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (int, float, str, bool, type(None))):
        return a == b or (a != a and b != b)
    return True


def run_both(d, src, out, names, opt, orig=None):
    """'ok', 'torch: ...' (the original does not run, or is not equivalent to `orig`),
    'paddle: ...' or 'diff: ...'"""
    os.chdir(d)
    warnings.simplefilter("ignore")
    import torch

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        torch.manual_seed(1)
        ns = {"__name__": "prog"}
        try:
            exec(compile(src, "<torch>", "exec"), ns)
            a = [ns[n] for n in names]
        except Exception as e:
            return "torch: %s: %s" % (type(e).__name__, str(e)[:300])
        if orig is not None:
            torch.manual_seed(1)
            ns0 = {"__name__": "prog"}
            try:
                exec(compile(orig, "<orig>", "exec"), ns0)
                a0 = [ns0[n] for n in names]
            except Exception as e:
                return "torch: %s: %s" % (type(e).__name__, str(e)[:300])
            if not all(map(same, a, a0)):
                return "torch: other result"
        else:
            # what is random differs with another seed: compare its shape and type only
            torch.manual_seed(2)
            torch.manual_seed = torch.random.manual_seed = lambda seed: None
            ns1 = {"__name__": "prog"}
            try:
                exec(compile(src, "<torch2>", "exec"), ns1)
                fixed = [same(x, ns1[n]) for n, x in zip(names, a)]
            except Exception:
                fixed = [False] * len(names)
        with warnings.catch_warnings():
            ns2 = {"__name__": "prog"}
            try:
                exec(compile(out, "<paddle>", "exec"), ns2)
                b = [ns2[n] for n in names]
            except Exception as e:
                return "paddle: %s: %s" % (type(e).__name__, str(e)[:600])
        for i, (n, x, y, o) in enumerate(zip(names, a, b, opt if isinstance(opt[0], (list, tuple)) else [opt] * len(names))):
            r = compare(x, y, o if orig is not None or fixed[i] else [o[0] and 'shape'] + list(o[1:]), n)
            if r:
                return "diff: " + r
        import paddle

        for n, x in ns.items():
            y = ns2.get(n)
            if isinstance(x, torch.nn.Module) and isinstance(y, paddle.nn.Layer) and not any(isinstance(m, (torch.nn.Embedding, torch.nn.AdaptiveLogSoftmaxWithLoss)) for m in x.modules()):
                p = sum(int(v.numel()) for v in x.parameters() if v.requires_grad)
                q = sum(int(v.size) for v in y.parameters() if not v.stop_gradient)
                if p != q:
                    return "diff: %s has %d learnable numbers vs %d" % (n, p, q)
    return "ok"


def execute(*a):
    d = env.fresh_dir("exec")
    try:
        return in_child(run_both, d, *a)
    except ChildDied as e:
        return "paddle: died %s" % str(e)[-300:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def skips():
    """{test module: [kinds of variation]} where the pinned Paddle is known to differ"""
    if "s" not in _c:
        with open(os.path.join(CORPUS, "exec_skip.json")) as f:
            _c["s"] = {k: set(v) for k, v in json.load(f).items()}
    return _c["s"]


def blocked(ident, kind):
    return kind in skips().get(ident.split("::")[0], ())


# ---------------------------------------------------------------- mutations
def is_call_to_data(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("tensor", "Tensor", "as_tensor", "FloatTensor", "IntTensor", "LongTensor", "DoubleTensor", "HalfTensor") and n.args


def sites(tree):
    """{kind: [mutation functions d -> None]}"""
    out = {}

    def add(kind, f):
        out.setdefault(kind, []).append(f)

    alias = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                if isinstance(n, ast.Import) and x.asname:
                    alias[x.asname] = x.name
                elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                    alias[x.asname or x.name] = n.module + "." + x.name
    inside = set()
    for n in ast.walk(tree):
        if is_call_to_data(n):
            consts = [x for x in ast.walk(n.args[0]) if isinstance(x, ast.Constant) and type(x.value) in (int, float)]
            inside.update(map(id, consts))

            def data(d, consts=consts):
                for x in consts:
                    if d.bool(50):
                        v = x.value
                        if type(v) is int:
                            w = d.choice([v, v + 1, v + 2, abs(v - 1)])
                            x.value = w if v >= 0 else -abs(w)
                        else:
                            x.value = round(v * d.choice([0.5, 0.9, 1.1, 1.5, 2.0]), 4)

            def edge(d, consts=consts):
                for x in d.sample([c for c in consts if type(c.value) is float], d.int(1, 2)):
                    x.value = d.choice([0.0, 1.0, 20.0, 200.0, 1e-6])

            if consts:
                add("data", data)
            if any(type(c.value) is float for c in consts):
                add("edge", edge)
            a = n.args[0]
            if isinstance(a, ast.List) and a.elts and all(isinstance(x, ast.List) for x in a.elts):
                def rows(d, a=a):
                    k = d.int(0, 2)
                    if k == 0:
                        a.elts.append(copy.deepcopy(a.elts[0]))
                    elif k == 1 and len(a.elts) > 1:
                        a.elts.pop()
                    else:
                        for r in a.elts:
                            if isinstance(r, ast.List) and r.elts:
                                r.elts.append(copy.deepcopy(r.elts[0]))

                add("shape", rows)
        if isinstance(n, ast.keyword) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == "torch" and n.value.attr in ("float32", "float64", "int32", "int64", "float", "double", "int", "long"):
            def dt(d, n=n):
                n.value.attr = d.choice(["float32", "float64", "int32", "int64"])

            add("dtype", dt)
    flt = [n for n in ast.walk(tree) if is_call_to_data(n) and n.func.attr == "tensor" and not any(k.arg in ("dtype", None) for k in n.keywords) and any(isinstance(x, ast.Constant) and type(x.value) is float for x in ast.walk(n.args[0])) and not any(isinstance(x, ast.Constant) and type(x.value) is complex for x in ast.walk(n.args[0]))]
    into = any(isinstance(n, ast.Name) and "out" in n.id or isinstance(n, ast.keyword) and n.arg == "out" for n in ast.walk(tree))
    if flt and not into:  # assign() to a tensor of another type changes the type of the tensor
        def double(d):
            for n in flt:
                n.keywords.append(ast.keyword(arg="dtype", value=ast.parse("torch.float64", mode="eval").body))

        add("double", double)
    for n in ast.walk(tree):
        if not isinstance(n, ast.Call):
            continue
        if not is_call_to_data(n):
            for i, x in enumerate(list(n.args) + [k.value for k in n.keywords]):
                neg = isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub)
                y = x.operand if neg else x
                if isinstance(y, ast.Constant) and type(y.value) is int and id(y) not in inside:
                    def num(d, n=n, i=i, y=y):
                        v = d.choice([0, 1, 2, 3, -1, -2])
                        e = ast.Constant(value=v) if v >= 0 else ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=-v))
                        if i < len(n.args):
                            n.args[i] = e
                        else:
                            n.keywords[i - len(n.args)].value = e

                    add("int", num)
                elif isinstance(y, ast.Constant) and type(y.value) is bool:
                    def flip(d, y=y):
                        y.value = not y.value

                    add("bool", flip)
                elif isinstance(y, ast.Constant) and type(y.value) is float and id(y) not in inside:
                    def fl(d, y=y):
                        y.value = round(y.value * d.choice([0.5, 0.9, 1.1, 1.5, 2.0]), 4)

                    add("float", fl)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            def perm(d, n=n):
                n.keywords = d.perm(n.keywords)

            add("kwperm", perm)
        if n.keywords:
            def drop(d, n=n):
                n.keywords.pop(d.int(0, len(n.keywords) - 1))

            add("kwdrop", drop)
        full = dotted_name(n.func)
        if full and full.split(".")[0] in alias:
            full = alias[full.split(".")[0]] + full[full.index("."):]
        info = api.apis().get(full) if full else None
        if info is None and isinstance(n.func, ast.Attribute):
            info = api.apis().get("torch.Tensor." + n.func.attr)
        if info and not info["prefix"] and n.args and len(n.args) <= len(info["pos"]) and not any(isinstance(a, ast.Starred) for a in n.args):
            def tokw(d, n=n, info=info):
                k = d.int(0, len(n.args) - 1)
                new = [ast.keyword(arg=p, value=v) for p, v in zip(info["pos"][k:], n.args[k:])]
                if {x.arg for x in new} & {x.arg for x in n.keywords}:
                    return
                n.args = n.args[:k]
                n.keywords = d.perm(new + n.keywords)

            add("tokw", tokw)
        if info and not info["prefix"] and n.keywords and all(k.arg in info["pos"] for k in n.keywords[:1]):
            def topos(d, n=n, info=info):
                while n.keywords:
                    i = len(n.args)
                    nx = [k for k in n.keywords if i < len(info["pos"]) and k.arg == info["pos"][i]]
                    if not nx:
                        break
                    n.args.append(nx[0].value)
                    n.keywords.remove(nx[0])

            add("topos", topos)
        if info and not info["prefix"]:
            def dflt(d, n=n, info=info, full=full if full in api.apis() else "torch.Tensor." + n.func.attr):
                ds = defaults(full)
                given = set(info["pos"][:len(n.args)]) | {k.arg for k in n.keywords}
                ps = [p for p in ds if p not in given and p in info["pos"] + info["kwo"]]
                for p in d.sample(ps, d.int(1, 2)):
                    n.keywords.insert(d.int(0, len(n.keywords)), ast.keyword(arg=p, value=ast.parse(repr(ds[p]), mode="eval").body))

            if not any(k.arg is None for k in n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args):
                add("default", dflt)

            def todflt(d, n=n, info=info, full=full if full in api.apis() else "torch.Tensor." + n.func.attr):
                ds = defaults(full)
                slots = [(n.args, i, p) for i, p in enumerate(info["pos"][:len(n.args)]) if p in ds]
                slots += [(k, None, k.arg) for k in n.keywords if k.arg in ds]
                if slots and not any(isinstance(a, ast.Starred) for a in n.args):
                    o, i, p = d.choice(slots)
                    e = ast.parse(repr(ds[p]), mode="eval").body
                    if i is None:
                        o.value = e
                    else:
                        o[i] = e

            add("todefault", todflt)
        if n.args or n.keywords:
            def opaque(d, n=n):
                slots = [(n.args, j) for j, a in enumerate(n.args) if not isinstance(a, ast.Starred)] + [(k, None) for k in n.keywords if k.arg]
                o, j = d.choice(slots) if slots else (None, None)
                if o is None:
                    return
                e = o[j] if j is not None else o.value
                k = d.int(0, 3)
                if k == 0:
                    w = ast.Subscript(value=ast.List(elts=[e], ctx=L), slice=ast.Constant(value=0), ctx=L)
                elif k == 1:
                    w = ast.IfExp(test=ast.Constant(value=True), body=e, orelse=ast.Constant(value=0))
                elif k == 2:
                    w = ast.Call(func=ast.parse("(lambda v: v)", mode="eval").body, args=[e], keywords=[])
                else:
                    w = ast.BoolOp(op=ast.And(), values=[ast.Constant(value=True), e])
                if j is not None:
                    o[j] = w
                else:
                    o.value = w

            add("opaque", opaque)
        if full and full.startswith("torch.") and full.count(".") == 1 and "torch.Tensor." + n.func.attr in api.apis() and n.args and not isinstance(n.args[0], ast.Starred):
            def meth(d, n=n):
                n.func = ast.Attribute(value=n.args[0], attr=n.func.attr, ctx=L)
                n.args = n.args[1:]

            add("method", meth)
        if not full and isinstance(n.func, ast.Attribute) and "torch." + n.func.attr in api.apis() or full and full.count(".") == 1 and not full.startswith("torch.") and "torch." + n.func.attr in api.apis():
            def func(d, n=n):
                n.args = [n.func.value] + n.args
                n.func = ast.Attribute(value=name("torch"), attr=n.func.attr, ctx=L)

            add("method", func)
    for b in blocks(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b) and isinstance(b[i + 1], (ast.Assign, ast.Expr)):
                v = s.targets[0].id
                uses = [x for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(b[i + 1].value) if isinstance(x, ast.Name) and x.id == v]
                if len(uses) == 2 and len(here) == 1 and not lambda_in(b[i + 1]):
                    def inline(d, b=b, s=s, t=b[i + 1], v=v):
                        if s in b and t in b:
                            t.value = _In(v, s.value).visit(t.value)
                            b.remove(s)

                    add("inline", inline)
            if isinstance(s, (ast.Assign, ast.Expr)):
                cs = [c for c in ast.walk(s) if isinstance(c, ast.Call)]
                cs = [c for c in cs if any(movable(a) for a in list(c.args) + [k.value for k in c.keywords])]
                if cs:
                    def hoist(d, b=b, s=s, cs=cs):
                        c = d.choice(cs)
                        slots = [(c.args, j) for j, a in enumerate(c.args) if movable(a)] + [(k, None) for k in c.keywords if movable(k.value)]
                        if not slots or s not in b or lambda_in(s):
                            return
                        o, j = d.choice(slots)
                        v = "hoisted_%s" % "abcdefgh"[sum(isinstance(x, ast.Assign) and getattr(x.targets[0], "id", "").startswith("hoisted_") for x in ast.walk(tree)) % 8]
                        e = o[j] if j is not None else o.value
                        if j is not None:
                            o[j] = name(v)
                        else:
                            o.value = name(v)
                        b.insert(b.index(s), ast.Assign(targets=[ast.Name(id=v, ctx=S)], value=e, lineno=1))

                    add("hoist", hoist)
    return out


class _In(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e = v, e

    def visit_Name(self, n):
        return self.e if n.id == self.v else n


def defaults(full):
    """{parameter: default} of a PyTorch API, from its signature or documentation."""
    k = "d:" + full
    if k not in _c:
        out = {}
        try:
            import torch  # noqa: F401

            o = __import__(full.split(".")[0])
            for p in full.split(".")[1:]:
                o = getattr(o, p)
            try:
                out = {p.name: p.default for p in inspect.signature(o).parameters.values() if p.default is not p.empty}
            except (ValueError, TypeError):
                m = re.search(r"%s\((.*?)\)\s*->" % re.escape(full.rsplit(".", 1)[1]), (o.__doc__ or "")[:600], re.S)
                for p, v in re.findall(r"(\w+)\s*=\s*([-\w.]+|\(\))", m[1] if m else ""):
                    try:
                        out[p] = ast.literal_eval(v)
                    except (ValueError, SyntaxError):
                        pass
        except Exception:
            pass
        _c[k] = {p: v for p, v in out.items() if isinstance(v, (int, float, str, bool, type(None))) and v == v and abs(v if isinstance(v, (int, float)) else 0) < 1e300 and p not in ("out", "device")}
    return _c[k]


def movable(e):
    return isinstance(e, (ast.Constant, ast.UnaryOp, ast.List, ast.Tuple, ast.BinOp)) and not any(isinstance(x, (ast.Starred, ast.Name, ast.Call, ast.NamedExpr, ast.Lambda)) for x in ast.walk(e)) and not (isinstance(e, ast.Constant) and isinstance(e.value, str))


def lambda_in(s):
    return any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(s))


def dotted_name(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    return ".".join([n.id] + p[::-1]) if isinstance(n, ast.Name) and p else None


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def context(d, tree, names):
    """The statements after the imports inside a function, a loop, a branch, a class."""
    i = 0
    while i < len(tree.body) and isinstance(tree.body[i], (ast.Import, ast.ImportFrom)):
        i += 1
    body = tree.body[i:]
    if any(isinstance(s, (ast.Import, ast.ImportFrom)) and any(a.name == "*" for a in s.names) for s in ast.walk(tree) if isinstance(s, (ast.Import, ast.ImportFrom))):
        return
    k = d.int(0, 4)
    ret = ast.Return(value=ast.Tuple(elts=[name(n) for n in names], ctx=L))
    tgt = ast.Tuple(elts=[ast.Name(id=n, ctx=S) for n in names], ctx=S)
    if k == 0:
        f = ast.parse("def main_fn():\n    pass").body[0]
        f.body = body + [ret]
        tree.body[i:] = [f, ast.Assign(targets=[tgt], value=ast.parse("main_fn()", mode="eval").body, lineno=1)]
    elif k == 1:
        f = ast.parse("for step_i in range(1):\n    pass").body[0]
        f.body = body
        tree.body[i:] = [f]
    elif k == 2:
        f = ast.parse("if len('ab') == 2:\n    pass\nelse:\n    other = 1").body[0]
        f.body = body
        tree.body[i:] = [f]
    elif k == 3:
        f = ast.parse("class Runner:\n    def go(self):\n        pass").body[0]
        f.body[0].body = body + [ret]
        tree.body[i:] = [f, ast.Assign(targets=[tgt], value=ast.parse("Runner().go()", mode="eval").body, lineno=1)]
    else:
        f = ast.parse("try:\n    pass\nfinally:\n    other = 1").body[0]
        f.body = body
        tree.body[i:] = [f]


KEEP = {"kwperm", "tokw", "topos", "hoist", "context", "default", "opaque", "inline", "method"}
KINDS = sorted(KEEP) + ["double", "todefault", "kwdrop", "edge", "data", "shape", "dtype", "int", "bool", "float"]


# data types, sizes and values that Paddle's kernels refuse (loudly)
LIMIT = re.compile(r"^paddle: .*(\(InvalidArgument\)|\(InvalidType\)|\(OutOfRange\)|AssertionError|manual_seed\(\)|The kernel with key|Type promotion only support|does not match the type of data|ZeroDivisionError|to\(\) received too many)", re.S)


# writing into a tensor of another data type changes the tensor's type
INTO = re.compile(r"out\s*=|\w_\(")


class Same(Family):
    """Variants of the repository's own test programs: the PyTorch program and its
    conversion are executed and their results compared."""

    name = "same_results"
    quick, thorough = 220, 20000

    def setup_main(self):
        os.environ["GLOG_minloglevel"] = "2"
        import paddle  # noqa: F401  once, before the workers fork
        import torch

        torch.set_num_threads(1)
        paddle.set_device("cpu")
        corpus()
        changed()

    def gen(self, d):
        i = d.int(0, len(corpus()) - 1)
        if changed() and d.bool(80):
            i = d.choice(changed())
        return self.variant(d, i)

    def variant(self, d, i):
        ident, nm, src, names, opt = corpus()[i]
        try:
            tree = ast.parse(src)
        except SyntaxError:
            return None
        ops = []
        for _ in range(d.int(1, 3)):
            st = sites(tree)
            ks = [k for k in KINDS if (k in st or k == "context") and not blocked(ident, k)]
            if not ks:
                return None
            k = d.choice(ks)
            if k == "context":
                if "context" in ops:
                    continue
                context(d, tree, names)
            else:
                d.choice(st[k])(d)
            ops.append(k)
        try:
            new = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
            compile(new, "<x>", "exec")
        except (SyntaxError, ValueError):
            return None
        return {"id": ident, "src": new, "names": names, "opt": opt, "ops": ops, "orig": src if set(ops) <= KEEP else None}

    def check(self, c):
        r = convert(c["src"])
        if marked(r.code) or r.fail:
            return Info(False)
        res = execute(c["src"], r.code, c["names"], c["opt"], c["orig"])
        if res.startswith("torch"):
            return Info(False)
        if not c["orig"] and (LIMIT.search(res) or ": dtype " in res and INTO.search(c["src"])):
            return Info(False)
        if res != "ok":
            raise Violation("%s %s\n--- input\n%s\n--- output\n%s" % (c["id"], res, c["src"], r.code), ("edge:" if "edge" in c["ops"] else "differs:") + c["id"].split("::")[0])
        return Info(True)


def fingerprints(part):
    """What the conversions of the programs `part` and of fixed variants of them look like."""
    fam, out = Same(), []
    for i in part:
        h = []
        for k in range(VARIANTS):
            try:
                c = fam.variant(D(random.Random(1000 * i + k)), i) if k else {"src": corpus()[i][2]}
                r = convert(c["src"]) if c else None
                text = "" if r is None else "%d %d %s" % (r.ok, r.fail, re.sub(r"_\d+|\s+", "_", r.code).replace("_", ""))
            except Exception as e:
                text = type(e).__name__
            h.append(zlib.crc32(text.encode("utf-8", "surrogatepass")) & 0xFFFF)
        out.append(h)
    return out


def all_fingerprints():
    n = len(corpus())
    parts = [range(k, n, 64) for k in range(64)]
    with multiprocessing.get_context("fork").Pool(8) as p:
        rs = p.map(fingerprints, parts, chunksize=1)
    out = [None] * n
    for part, r in zip(parts, rs):
        for i, h in zip(part, r):
            out[i] = h
    return out


def changed():
    """The programs that are not converted as they were when the fingerprints were taken:
    not wrong for that, but where to look first."""
    if "ch" not in _c:
        with lzma.open(os.path.join(CORPUS, "exec_out.json.xz"), "rt") as f:
            old = json.load(f)
        _c["ch"] = [i for i, (a, b) in enumerate(zip(old, all_fingerprints())) if any(x != y for x, y in zip(a, b) if x >= 0)]
    return _c["ch"]


VARIANTS = 2


class Pairs(Family):
    """Two test programs in one file, their statements interleaved: each must compute what
    it computes alone."""

    name = "pairs"
    quick, thorough = 70, 10000
    setup_main = Same.setup_main

    def gen(self, d):
        progs = []
        for k in range(d.int(2, 3)):
            ident, nm, src, names, opt = corpus()[d.int(0, len(corpus()) - 1)]
            tree = ast.parse(src)
            imps = [s for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom))]
            if any(a.name == "*" for s in imps if isinstance(s, ast.ImportFrom) for a in s.names) or blocked(ident, "pair"):
                return None
            own = bound(tree)
            _Ren({n: "%s_%d" % (n, k + 1) for n in own} if k else {}).visit(tree)
            progs.append((ident, imps, [s for s in tree.body if s not in imps], ["%s_%d" % (n, k + 1) if k and n in own else n for n in names], opt))
        names = [n for p in progs for n in p[3]]
        heads, alias = [], {}
        for p in progs:
            for s in p[1]:
                for a in s.names:
                    what = (getattr(s, "module", None), a.name)
                    if alias.setdefault(a.asname or a.name.split(".")[0] if isinstance(s, ast.Import) else a.asname or a.name, what) != what and not (isinstance(s, ast.Import) and not a.asname):
                        return None
                t = ast.unparse(s)
                if t not in heads:
                    heads.append(t)
        if len(set(names)) < len(names) or set(alias) & {n for p in progs for s in p[2] for n in bound(s)}:
            return None
        body, left = [], [list(p[2]) for p in progs]
        k = d.int(0, 2)
        while any(left):
            q = [x for x in left if x]
            # interleaved, one after the other, or in reverse
            body.append((d.choice(q) if k == 0 else q[0] if k == 1 else q[-1]).pop(0))
        src = "\n".join(d.perm(heads) + [ast.unparse(ast.fix_missing_locations(s)) for s in body]) + "\n"
        try:
            compile(src, "<x>", "exec")
        except (SyntaxError, ValueError):
            return None
        return {"ids": [p[0] for p in progs], "src": src, "names": names, "opt": [p[4] for p in progs for _ in p[3]]}

    def check(self, c):
        r = convert(c["src"])
        if marked(r.code) or r.fail:
            return Info(False)
        res = execute(c["src"], r.code, c["names"], c["opt"])
        if res.startswith("torch"):
            return Info(False)
        if res != "ok":
            raise Violation("%s %s\n--- input\n%s\n--- output\n%s" % (" + ".join(c["ids"]), res, c["src"], r.code), "pair:" + "+".join(sorted({i.split("::")[0] for i in c["ids"]})))
        return Info(True)


class Training(Family):
    """A whole script: a model, data, a loss, an optimizer, a loop; its losses, gradients,
    weights and predictions."""

    name = "training"
    quick, thorough = 50, 10000
    setup_main = Same.setup_main

    def gen(self, d):
        src, names = nets.program(d)
        return {"src": src, "names": names}

    def check(self, c):
        r = convert(c["src"])
        if marked(r.code) or r.fail:
            return Info(False)
        res = execute(c["src"], r.code, c["names"], [True, True, True, False, 2e-3, 2e-4])
        if res.startswith("torch"):
            return Info(False)
        if res != "ok":
            raise Violation("%s\n--- input\n%s\n--- output\n%s" % (res, c["src"], r.code), "training:" + re.sub(r"[\d.e+-]+", "0", res.split(" ", 2)[1])[:30])
        return Info(True)


class _Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def visit_arg(self, n):
        n.arg = self.m.get(n.arg, n.arg)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.m.get(n.name, n.name)
        return self.generic_visit(n)

    visit_ClassDef = visit_FunctionDef

    def visit_Global(self, n):
        n.names = [self.m.get(x, x) for x in n.names]
        return n

    visit_Nonlocal = visit_Global


class C(Check):
    id = "C16"
    rule = "the original runs, its conversion is unmarked, and both were executed; distinct programs"
    assumptions = []
    families = [Same(), Pairs(), Training()]


CHECK = C()
