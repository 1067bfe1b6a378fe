"""C14: conversion is idempotent and leaves Paddle code alone."""
import ast

from pv import api, frag, mapping
from pv.conv import Violation, convert, parse_out, strip_marks
from pv.norm import dump, first_diff, is_import, norm_tree, strip_kind
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info
from checks.c02 import PKGS

NOTE = "Not Support auto convert"  # the line after it is marked whenever it is seen
RELOC = {"os", "setuptools", "einops"}  # imports of these are moved to the top
NOISE = ["import torch_geometric", "import torchmetrics as tm", "import numpy as np", "from mytorch import nn", "import paddle.nn as nn", "import paddle.nn.functional as F", "from paddle import Tensor, abs as torch_abs"]


def roots(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            out |= {a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            out.add(n.module.split(".")[0])
    return out


def again(src, kw, what):
    """Converting `src` must change nothing and count nothing."""
    t = ast.parse(src)
    if RELOC & roots(t):
        return None
    want = ast.dump(strip_kind(t))
    r = convert(src, **kw)
    got = ast.dump(strip_kind(parse_out(r, src)))
    if NOTE not in src and any(l.startswith(">>>>>>") for l in r.code.split("\n")) and not any(l.startswith(">>>>>>") for l in src.split("\n")):
        raise Violation("%s is marked when converted\n--- input\n%s\n--- output\n%s" % (what, src[:2500], r.code[:2500]), "marked")
    if want != got:
        raise Violation("%s changes when converted: %s\n--- input\n%s\n--- output\n%s" % (what, first_diff(want, got), src[:2500], r.code[:2500]), "changed")
    if (r.ok, r.fail) != (0, 0):
        raise Violation("%s counts %r\n%s" % (what, (r.ok, r.fail), src[:2500]), "counted")
    return r


def torch_left(tree):
    return bool(roots(tree) & set(PKGS))


class Twice(Family):
    """The output of a conversion (marks removed) is a fixpoint."""

    name = "convert_twice"
    quick, thorough = 450, 25000
    kw = {}

    def gen(self, d):
        k = d.int(0, 9)
        if k <= 2:
            sn = api.harvested()
            return sn[d.int(0, len(sn) - 1)]["code"] + "\n"

        def extra(g, m):
            j = d.int(0, 9)
            if j == 0:
                return frag.dotted(d.choice(frag.UNKNOWN))
            if j == 1:
                return frag.dotted(d.choice(frag.prefix_attrs()))
            return frag.api_call(d, frag.pick_api(d), lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u"), g.expr(0) if d.bool(40) else None)

        g = Gen(d, extra_expr=extra, extra_rate=25)
        t = g.module(2, 1, 3)
        pk = sorted({n.id for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in PKGS} | {"torch"})
        t.body[0:0] = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
        return render(t)

    def check(self, case):
        r = convert(case, **self.kw)
        t = parse_out(r, case)
        if torch_left(t):
            return Info(False)
        again(strip_marks(r.code), self.kw, "converted code")
        return Info(r.ok > 0)


class TwiceFmt(Twice):
    name = "convert_twice_formatted"
    quick, thorough = 50, 3000
    kw = {"no_format": False}


class Swept(Family):
    """Every API of the tables in a rotating call shape, converted and converted again."""

    name = "api_sweep"

    def cases(self, tier, seed):
        out = []
        for nm in sorted(api.apis()):
            cs = mapping.cases(nm)
            n = 2 if tier == "quick" else 40
            for i in range(n):
                e = cs[(seed * 131 + i * 17 + len(nm)) % len(cs)]
                if [nm, e] not in out[-n:]:
                    out.append([nm, e])
        return out

    def check(self, case):
        src = mapping.source(*case)
        try:
            ast.parse(src)
        except SyntaxError:
            return Info(False)
        r = convert(src)
        parse_out(r, src)
        again(strip_marks(r.code), {}, "converted code of %s" % case[1])
        return Info(r.ok > 0)


class Paddle(Family):
    """A program written with Paddle: API names of Paddle (often the same as PyTorch's),
    tensor methods in PyTorch's and Paddle's spelling, imported in any form."""

    name = "paddle_program"
    quick, thorough = 450, 25000
    kw = {}

    def gen(self, d):
        def extra(g, m):
            nm = frag.pick_api(d)
            val = lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u")
            call = frag.api_call(d, nm, val, g.expr(0) if d.bool(40) else None)
            if not api.is_method(nm):
                call.func = frag.dotted(d.choice(["paddle", "paddle", "F", "nn", "pd", "self"]) + "." + d.choice([nm.split(".", 1)[1], nm.rsplit(".", 1)[1]]))
            return call.func if d.bool(10) else call

        g = Gen(d, extra_expr=extra, extra_rate=25)
        t = g.module(2, 1, 3)
        body = [frag_stmt for s in d.sample(NOISE, d.int(0, 3)) for frag_stmt in ast.parse(s).body]
        t.body[0:0] = ast.parse(d.choice(["import paddle", "import paddle as pd", "import paddle"])).body + body
        return render(t)

    def check(self, case):
        again(case, self.kw, "a Paddle program")
        return Info(case.count("\n") > 3)


class PaddleMin(Paddle):
    name = "paddle_program_min_mode"
    quick, thorough = 120, 6000
    kw = {"mode": "min"}


class _Lib(ast.NodeTransformer):
    """The library called qlib is Paddle."""

    def visit_Name(self, n):
        n.id = "paddle" if n.id == "qlib" else n.id
        return n


FORMS = ["import qlib", "import qlib", "import qlib as ql", "import qlib.nn as qn", "import qlib.nn.functional as QF", "from qlib import nn as qn2", "from qlib.nn import functional as QF2", "import qlib.nn"]


def paddled(src):
    return src.replace("qlib", "paddle")


class Mixed(Family):
    """Paddle used beside PyTorch in one file: it is left alone as any other library is."""

    name = "mixed_program"
    quick, thorough = 300, 20000

    def gen(self, d):
        forms = d.sample(FORMS, d.int(1, 4))
        here = sorted(({"qlib", "qlib.nn", "qlib.nn.functional"} if any(" as " not in f and f[0] == "i" for f in forms) else set()) | {f.split()[-1] for f in forms} - {"qlib.nn"})

        def extra(g, m):
            val = lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u")
            obj = g.expr(0) if d.bool(40) else None
            nm = frag.pick_api(d)
            call = frag.api_call(d, nm, val, obj)
            if d.bool(50):
                call.func = frag.dotted(d.choice(here) + "." + d.choice([nm.split(".", 1)[1], nm.rsplit(".", 1)[1]]))
            elif obj is not None and d.bool(40) and isinstance(call.func, ast.Attribute) and api.is_method(nm):
                inner = frag.api_call(d, frag.pick_api(d), val, None)
                inner.func = frag.dotted(d.choice(here) + "." + d.choice(["max", "zeros", "nn.functional.relu", "reshape", "to_tensor"]))
                call.func.value = inner
            return call.func if d.bool(10) else call

        g = Gen(d, extra_expr=extra, extra_rate=30)
        t = g.module(2, 1, 3)
        pk = sorted({n.id for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in PKGS} | {"torch"})
        heads = d.perm(forms + ["import " + p for p in pk])
        code = render(t)
        return code and {"src": "\n".join(heads) + "\n" + code, "kw": {"mode": "min"} if d.bool(20) else {}}

    def check(self, c):
        src = c["src"]
        a = convert(src, **c["kw"])
        b = convert(paddled(src), **c["kw"])
        x, y = (_Lib().visit(norm_tree(strip_kind(parse_out(r, src)))) for r in (a, b))
        for t in (x, y):
            for n in ast.walk(t):
                for f in ("body", "orelse", "finalbody"):
                    v = getattr(n, f, None)
                    if isinstance(v, list) and v:
                        setattr(n, f, [s for s in v if not is_import(s)])
        x, y = dump(x), dump(y)
        if x != y:
            raise Violation("Paddle beside PyTorch is not left alone as another library is: %s\n--- input\n%s\n--- output\n%s\n--- output with another library in its place\n%s" % (first_diff(x, y), paddled(src)[:2500], b.code[:2500], a.code[:2500]), "mixed")
        if (a.ok, a.fail) != (b.ok, b.fail):
            raise Violation("Paddle beside PyTorch counts %r, another library %r\n%s" % ((b.ok, b.fail), (a.ok, a.fail), paddled(src)[:2500]), "mixed-count")
        return Info(a.ok > 0)


class C(Check):
    id = "C14"
    rule = "convert_twice/api_sweep: at least one API was converted the first time; paddle_program: more than three lines; distinct sources"
    assumptions = [
        "the marks >>>>>> are removed before converting again (they are not Python); outputs that keep an import of a PyTorch-family package are left out",
        "equality is AST equality",
    ]
    families = [Twice(), Swept(), Paddle(), TwiceFmt(), PaddleMin(), Mixed()]


CHECK = C()
