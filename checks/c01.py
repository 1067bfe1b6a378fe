"""C01: code that does not use PyTorch comes out meaning the same."""
import ast
import copy

from pv import frag
from pv.conv import Violation, convert, parse_out
from pv.fmt import fmt_norm
from pv.norm import first_diff, strip_kind
from pv.pygen import ATTRS, NAMES, STRS, Gen, L, name, render
from pv.runner import Check, Family, Info

# without a PyTorch import nothing is a tensor: these must survive untouched too
TENSORISH = ["add", "view", "max", "size", "numpy", "cuda", "device", "T", "svd", "step", "share_memory_", "requires_grad", "eq_", "type", "data", "split"]


def same(exp, got, src, out, sig):
    a, b = ast.dump(exp), ast.dump(got)
    if a != b:
        raise Violation("program changed: %s\n--- input\n%s\n--- output\n%s" % (first_diff(a, b), src[:3000], out[:3000]), sig)


class Free(Family):
    name = "torch_free"
    quick, thorough = 900, 60000
    fmt = False

    def gen(self, d):
        g = Gen(d, attrs=ATTRS + TENSORISH)
        src = render(g.module(3, 1, 4))
        return None if src is None else {"src": src}

    def check(self, case):
        src = case["src"]
        res = convert(src, no_format=not self.fmt)
        got = parse_out(res, src)
        norm = fmt_norm if self.fmt else strip_kind
        same(norm(ast.parse(src)), norm(got), src, res.code, "changed" + (":fmt" if self.fmt else ""))
        if res.ok or res.fail:
            raise Violation("reports %d APIs in a program without PyTorch\n%s" % (res.ok + res.fail, src[:2000]), "counted")
        return Info(len(src.splitlines()) >= 3)


class FreeFmt(Free):
    name = "torch_free_formatted"
    quick, thorough = 120, 6000
    fmt = True


class FreeMin(Free):
    name = "torch_free_min_mode"
    quick, thorough = 250, 8000

    def check(self, case):
        src = case["src"]
        res = convert(src, mode="min")
        same(strip_kind(ast.parse(src)), strip_kind(parse_out(res, src)), src, res.code, "changed:min")
        return Info(len(src.splitlines()) >= 3)


class _ToPaddle(ast.NodeTransformer):
    """Reference model: prefix-only APIs change their package, nothing else does."""

    def visit_Name(self, n):
        if n.id == "torch":
            n.id = "paddle"
        return n


class Mixed(Family):
    """A program using prefix-only APIs everywhere must equal the input with
    `torch.` replaced by `paddle.` and nothing else."""

    name = "mixed_prefix"
    quick, thorough = 900, 60000
    fmt = False

    def gen(self, d):
        pf, pa = frag.prefix_funcs(), frag.prefix_attrs()

        def extra(g, n):
            if d.bool(70):
                args, kws = g.call_args(max(n, 1))
                stars = [k for k in kws if k.arg is None]
                return ast.Call(func=frag.dotted(d.choice(pf)), args=args, keywords=[k for k in kws if k.arg] + stars)
            # in a list: an attribute of an API reference is another (unknown) API
            return ast.List(elts=[frag.dotted(d.choice(pa if d.bool(50) else pf))], ctx=L)

        g = Gen(d, extra_expr=extra, extra_rate=18)
        tree = g.module(3, 1, 4)
        i = 0
        while i < len(tree.body) and (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__" or (i == 0 and isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant) and isinstance(tree.body[i].value.value, str))):
            i += 1
        tree.body.insert(i, ast.Import(names=[ast.alias(name="torch")]))
        src = render(tree)
        return None if src is None else {"src": src}

    def check(self, case):
        src = case["src"]
        res = convert(src, no_format=not self.fmt)
        got = parse_out(res, src)
        exp = ast.parse(src)
        uses = sum(isinstance(n, ast.Name) and n.id == "torch" for n in ast.walk(exp))
        exp = _ToPaddle().visit(exp)
        for s in exp.body:
            if isinstance(s, ast.Import) and s.names[0].name == "torch":
                s.names[0].name = "paddle"
        norm = fmt_norm if self.fmt else strip_kind
        same(norm(exp), norm(got), src, res.code, "changed" + (":fmt" if self.fmt else ""))
        return Info(uses >= 2)


class MixedFmt(Mixed):
    name = "mixed_prefix_formatted"
    quick, thorough = 120, 6000
    fmt = True


class C(Check):
    id = "C01"
    rule = "torch-free families: the program has at least 3 lines; mixed families: it uses PyTorch at least twice besides importing it; distinct source texts"
    assumptions = [
        "programs are drawn from a grammar of Python 3.12 (all statement and most expression kinds), rendered by ast.unparse",
        "equality is AST equality without literal kinds; with formatting on, additionally modulo import sorting/splitting and docstring whitespace",
        "`import os/setuptools/einops`, which the tool moves to the top of the module, are not generated here",
    ]
    families = [Free(), Mixed(), FreeFmt(), MixedFmt(), FreeMin()]


CHECK = C()
