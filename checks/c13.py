"""C13: helper code is complete, present once and bound where it is used."""
import ast
import copy

from pv import api, frag, mapping
from pv.conv import Violation, convert, convert_dir, parse_out, strip_marks
from pv.freen import free, scan
from pv.fmt import fmt_norm
from pv.iso import ChildDied, in_child
from pv.norm import dump, first_diff, is_import, norm_tree, strip_kind
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info
from checks.c03 import Ren, Sub

_c = {}
UTIL = "paddle_utils.py"


def helped():
    """[(api, [expr])] of the calls that need helper code (from the recorded mapping,
    used only to aim the generator)."""
    if "h" not in _c:
        gold = mapping.load()
        out = {}
        for nm in sorted(api.apis()):
            for e, row in zip(mapping.cases(nm), gold["table"][nm]):
                if not row or row[2]:
                    continue
                body = ast.parse(gold["texts"][row[0]]).body
                if any(isinstance(s, (ast.FunctionDef, ast.ClassDef)) for s in body):
                    out.setdefault(nm, []).append(e)
        _c["h"] = sorted(out.items())
    return _c["h"]


def owners(e):
    return {n.id for n in ast.walk(ast.parse(e)) if isinstance(n, ast.Name) and n.id in OWN}


OWN = {"torch", "transformers", "flash_attn", "fairscale", "torchvision"}


def helper_stmts(text):
    return [strip_kind(s) for s in ast.parse(text).body if not is_import(s)] if text else []


def needs(e):
    """{dump: source} of the helper statements of one call alone."""
    k = "n:" + e
    if k not in _c:
        out, ok, fail = convert_dir({"a.py": "".join("import %s\n" % o for o in sorted(owners(e) | {"torch"})) + "y = " + e + "\n"})
        _c[k] = {dump(s): ast.unparse(s) for s in helper_stmts(out.get(UTIL))}
    return _c[k]


def gather(calls):
    """{dump: (source, number of different helper codes it is part of)}"""
    sets = {tuple(sorted(needs(e))): needs(e) for e in calls}
    return {k: (v, sum(k in s for s in sets.values())) for x in sets.values() for k, v in x.items()}


def free_of(text, provided=()):
    """names used but never bound, except the packages of uses that were kept and marked"""
    return free(text, provided) - OWN


IMPS = [
    "import numpy as np", "from zeta_package.some_module import first_long_name, second_long_name, third_long_name, fourth_long_name",
    "from . import sibling_mod", "import json, sys", "try:\n    import fast_json\nexcept ImportError:\n    fast_json = None",
    "if cond_flag:\n    import maybe_mod", "from collections import (OrderedDict, deque)", "from typing import Any; tv = Any", "import a_b.c_d as e_f",
    "from zeta_package import single_name  # torch",
]


def call(d, helper):
    if helper:
        # the helper of torch.onnx.export is a known finding, see SelfContained
        _, es = d.choice([x for x in helped() if x[0] != "torch.onnx.export"])
        return d.choice(es)
    nm = frag.pick_api(d, ("rich", "prefix"))
    if api.owner(nm) not in OWN or nm == "torch.onnx.export":
        nm = "torch.abs"
    i = [0]

    def val(p):
        i[0] += 1
        return name(["va", "vb", "vc", "vd"][i[0] % 4])

    return ast.unparse(frag.api_call(d, nm, val))


def program(d):
    """(source, calls): calls needing helper code at various places of a module."""
    calls = [call(d, d.bool(70)) for _ in range(d.int(1, 4))]
    imps = ["import %s" % o for o in sorted(set().union({"torch"}, *[owners(c) for c in calls]))]
    imps = d.perm(imps + d.sample(IMPS, d.int(0, 3)))
    head = []
    if d.bool(20):
        head.append(d.choice(['"""doc"""', "'''multi\nline import x\n'''", '"""import torch\nfrom x import y\n"""', "'not a doc', 1"]))
    if d.bool(10) and not any("not a doc" in h for h in head):
        head.append("from __future__ import annotations")
    body = []
    for i, c in enumerate(calls):
        k = d.int(0, 6)
        if k <= 1:
            body.append("y%d = %s" % (i, c))
        elif k == 2:
            body.append("def fn_%d(va, xt):\n    y = %s\n    return y" % (i, c))
        elif k == 3:
            body.append("class Kc%d:\n    def m(self, xt):\n        return g(%s)" % (i, c))
        elif k == 4:
            body.append("if cond:\n    y%d = %s\nelse:\n    y%d = 0" % (i, c, i))
        elif k == 5:
            body.append("for i in va:\n    y%d = %s" % (i, c))
        else:
            body.append("%s" % c)
    if d.bool(20):
        body.insert(d.int(0, len(body)), d.choice(["import late_mod", "from late_pkg import late_name", "x0 = 1", "'text'"]))
    if d.bool(30):
        k = d.int(0, len(imps))
        imps.insert(k, d.choice(["x1 = 2", "# note", "os_flag = 'a'"]))
    src = "\n".join(head + imps + body) + "\n"
    try:
        compile(src, "x", "exec", dont_inherit=True)
    except SyntaxError:
        return None, None
    return src, calls


def cut(text, need, what, src):
    """Check the helper statements of a module; returns the other statements."""
    tree = strip_kind(ast.parse(strip_marks(text)))
    rest, pos, first = [], {}, None
    for i, s in enumerate(tree.body):
        k = dump(s)
        if k in need:
            pos.setdefault(k, []).append(i)
            continue
        if is_import(s):
            continue
        rest.append(s)
        if first is None and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            if any(isinstance(n, ast.Name) and n.id.startswith("paddle") for n in ast.walk(s)):
                first = i
    for k, (v, most) in need.items():
        n = len(pos.get(k, []))
        if not 1 <= n <= most:
            raise Violation("%s: helper code is present %d times\n%s\n--- input\n%s\n--- output\n%s" % (what, n, v[:500], src[:2000], text[:4000]), "helper-missing" if n == 0 else "helper-twice")
        if first is not None and pos[k][0] > first:
            raise Violation("%s: helper code is defined after code that uses Paddle\n%s\n--- output\n%s" % (what, v[:300], text[:4000]), "helper-late")
    return rest


class Single(Family):
    name = "helpers_in_one_file"
    quick, thorough = 260, 12000

    def gen(self, d):
        src, calls = program(d)
        if src is None:
            return None
        return {"src": src, "calls": calls, "fmt": d.bool(35), "min": d.bool(15)}

    def check(self, c):
        src = c["src"]
        need = gather(c["calls"])
        kw = dict(mode="min" if c["min"] else "default", no_format=not c["fmt"] or c["min"])
        r = convert(src, **kw)
        parse_out(r, src)
        rest = cut(r.code, need, "single file", src)
        out, ok, fail = convert_dir({"a.py": src}, **kw)
        d = [s for s in strip_kind(ast.parse(strip_marks(out["a.py"]))).body if not is_import(s) and not ast.unparse(s).startswith("sys.path.append(")]
        a, b = (dump(norm_tree(ast.Module(body=copy.deepcopy(x), type_ignores=[]))) for x in (d, rest))
        if a != b:
            raise Violation("besides the needed helper code, the file is not the one a project conversion writes: %s\n--- input\n%s\n--- file\n%s\n--- project\n%s" % (first_diff(a, b), src[:2000], r.code[:4000], out["a.py"][:3000]), "helper-extra")
        new = free_of(strip_marks(r.code)) - free(src)
        if new:
            raise Violation("the output uses undefined names %s\n--- input\n%s\n--- output\n%s" % (sorted(new), src[:2000], r.code[:4000]), "undefined")
        if (ok, fail) != (r.ok, r.fail):
            raise Violation("counts differ between file and project: %r %r\n%s" % ((r.ok, r.fail), (ok, fail), src), "counts")
        return Info(len(need) > 0)


PATHS = ["a.py", "b.py", "pkg/__init__.py", "pkg/m.py", "pkg/sub/deep.py", "z/last.py"]


class Project(Family):
    name = "helpers_in_a_project"
    quick, thorough = 130, 6000

    def gen(self, d):
        files = {}
        for p in d.sample(PATHS, d.int(1, 4)):
            src, calls = program(d)
            if src is None:
                continue
            if d.bool(25):
                src, calls = d.choice(["x = 1\n", "import torch\ny = torch.abs(va)\n"]), []
            files[p] = [src, calls]
        return {"files": files, "fmt": d.bool(30)} if files else None

    def check(self, c):
        files = c["files"]
        out, ok, fail = convert_dir({k: v[0] for k, v in files.items()}, no_format=not c["fmt"])
        per = {}
        for k, (src, calls) in files.items():
            per[k] = gather(calls)
        need = gather([e for _, calls in files.values() for e in calls])
        allsrc = "\n".join("# %s\n%s" % (k, v[0]) for k, v in files.items())
        util = out.get(UTIL)
        if (util is not None) != bool(need):
            raise Violation("helper file %s\n%s" % ("missing" if need else "written although no file needs it", allsrc[:3000]), "helper-file")
        provided = set()
        if util is not None:
            try:
                rest = cut(util, need, "helper file", allsrc)
                provided = {x for x in scan(util)[1] if not x.startswith("_")}
                fr = free(util)
            except SyntaxError as e:
                raise Violation("the helper file is not valid Python: %s\n%s" % (e, util[:4000]), "helper-invalid")
            if rest:
                raise Violation("the helper file holds code no file needs\n%s\n--- input\n%s" % (ast.unparse(rest[0])[:500], allsrc[:3000]), "helper-extra")
            if fr:
                raise Violation("the helper file uses undefined names %s\n%s" % (sorted(fr), util[:4000]), "undefined-helper")
        for k, (src, calls) in files.items():
            text = strip_marks(out[k])
            tree = ast.parse(text)
            star = [i for i, s in enumerate(tree.body) if isinstance(s, ast.ImportFrom) and s.module == "paddle_utils"]
            path = [i for i, s in enumerate(tree.body) if ast.unparse(s).startswith("sys.path.append(") and "/T/out" in ast.unparse(s)]
            if bool(per[k]) != bool(star):
                raise Violation("%s %s the helper file\n--- input\n%s\n--- output\n%s" % (k, "does not import" if per[k] else "imports for nothing", src[:2000], out[k][:3000]), "helper-import")
            if star:
                first = next((i for i, s in enumerate(tree.body) if not is_import(s) and i not in path and any(isinstance(n, ast.Name) and n.id.startswith("paddle") for n in ast.walk(s))), 10**6)
                if len(star) != 1 or len(path) != 1 or star[0] > first or path[0] > star[0]:
                    raise Violation("%s imports the helper file %d times, extends the path %d times, or does so after use\n%s" % (k, len(star), len(path), out[k][:3000]), "helper-import-order")
            new = free_of(text, provided if star else ()) - free(src)
            if new:
                raise Violation("%s uses undefined names %s\n--- input\n%s\n--- output\n%s" % (k, sorted(new), src[:2000], out[k][:3000]), "undefined")
        return Info(len(need) > 0 and len(files) > 1)


def _exec(src, calls):
    import importlib

    import paddle  # noqa: F401

    tree = ast.parse(src)
    for n in ast.walk(tree):
        for m in [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) else []:
            try:
                importlib.import_module(m)
            except Exception:
                return "skip"
    if "paddleformers" in src:
        return "skip"
    ns = {}
    try:
        exec(compile(src, "<helper>", "exec"), ns)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    miss = [m for m in calls if not hasattr(paddle.Tensor, m)]
    return "paddle.Tensor has no %s" % miss if miss else "ok"


class SelfContained(Family):
    """The helper code of every API, alone, is executed with Paddle; the methods that the
    converted call uses on its tensor exist afterwards."""

    name = "helper_code_executes"

    def setup_main(self):
        helped()
        import paddle  # noqa: F401  once, before the workers fork

    def cases(self, tier, seed):
        n = 2 if tier == "quick" else 12
        return [{"api": nm, "e": es[(i * 7 + seed) % len(es)]} for nm, es in helped() for i in range(n)]

    def check(self, c):
        src = "".join("import %s\n" % o for o in sorted(owners(c["e"]) | {"torch"})) + "y = " + c["e"] + "\n"
        r = convert(src)
        tree = parse_out(r, src)
        new = free_of(strip_marks(r.code)) - free(src)
        if new:
            raise Violation("the output uses undefined names %s\n--- input\n%s\n--- output\n%s" % (sorted(new), src, r.code[:4000]), "undefined:%s:%s" % (c["api"], ",".join(sorted(new))))
        if not needs(c["e"]):
            raise Violation("the call needs no helper code any more although its conversion was recorded with it\n%s\n%s" % (src, r.code), "helper-missing:" + c["api"])
        keep = [s for s in tree.body if is_import(s) or dump(strip_kind(s)) in needs(c["e"])]
        last = tree.body[-1]
        used = {n.func.attr for n in ast.walk(last) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "xt"}
        res = in_child(_exec, "\n".join(ast.unparse(s) for s in keep), sorted(used) if c["api"].startswith("torch.Tensor.") else [])
        if res not in ("ok", "skip"):
            raise Violation("helper code of %s does not work with Paddle: %s\n%s" % (c["api"], res, r.code[:4000]), "helper-exec")
        return Info(res == "ok")


class Names(Family):
    """Whatever the API and the arguments, the converted code uses no name that neither the
    input uses nor the output defines."""

    name = "names_are_defined"

    def cases(self, tier, seed):
        n = 3 if tier == "quick" else 40
        out = []
        for nm in sorted(api.apis()):
            es = mapping.cases(nm)
            if tier == "quick":
                es = [es[(i * 11 + seed * 3) % len(es)] for i in range(min(n, len(es)))]
                if es[0] != mapping.cases(nm)[0]:
                    es.append(mapping.cases(nm)[0])
            else:
                es = es[:n]
            out += [{"api": nm, "e": e} for e in dict.fromkeys(es)]
        return out

    def check(self, c):
        src = "".join("import %s\n" % o for o in sorted({api.owner(c["api"]), "torch"})) + "y = " + c["e"] + "\n"
        r = convert(src)
        new = free_of(strip_marks(r.code)) - free(src) - {api.owner(c["api"])}
        if new:
            raise Violation("the output uses undefined names %s\n--- input\n%s\n--- output\n%s" % (sorted(new), src, r.code[:4000]), "undefined:%s:%s" % (c["api"], ",".join(sorted(new))))
        return Info(r.ok > 0)


class C(Check):
    id = "C13"
    rule = "helper_in_one_file: the program needs helper code; project: it does and has at least two files; helper_code_executes: the code was executed with Paddle; names_are_defined: something was converted; distinct cases"
    assumptions = [
        "what one call needs is read off the helper file that a project with only this call gets; that it suffices is tested by executing it with Paddle (paddleformers is not installed, its helpers are only checked for undefined names)",
        "helper code of an API in use is accepted even if the particular call could not be converted",
    ]
    families = [SelfContained(), Names(), Single(), Project()]


CHECK = C()
