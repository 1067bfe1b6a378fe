"""C04: how an API is imported and named does not change its conversion."""
import ast
import copy
import random

from pv import api, frag, mapping, shapes
from pv.conv import Violation, convert, parse_out
from pv.norm import dump, first_diff, idents, is_import, norm_tree, strip_kind
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info

PKGS = sorted({n.split(".")[0] for n in api.apis()})
_c = {}


def chain(n):
    """['torch', 'nn', 'Linear'] for torch.nn.Linear, else None."""
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name) and n.id in PKGS:
        return [n.id] + out[::-1]
    return None


class Respell(ast.NodeTransformer):
    """Rewrites each maximal dotted API reference with a drawn import form."""

    def __init__(self, d, used):
        self.d, self.used = d, used
        self.imports = []  # ast statements
        self.seen = {}
        self.k = 0

    def fresh(self, plain):
        d = self.d
        if plain not in self.used and d.bool(40) and plain not in dir(__builtins__) and not plain.startswith("__"):
            self.used.add(plain)
            return plain, None
        self.k += 1
        n = d.choice(["zq", "Tz", "F", "nn", "_m", "tensor"]) + str(self.k) + "z"
        self.used.add(n)
        return n, n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and chain(n.value):
            # `my_add = add` makes my_add another name of the API, `my_add = torch.add`
            # does not: the one place where the tool tells the two apart
            self.add(ast.Import(names=[ast.alias(name=chain(n.value)[0])]))
            return n
        self.generic_visit(n)
        return n

    def visit_Attribute(self, n):
        c = chain(n)
        if c is None or not isinstance(n.ctx, ast.Load):
            # an assignment target keeps its last attribute
            self.generic_visit(n)
            return n
        d = self.d
        form = d.int(0, 5)
        cut = len(c) - 1
        if form == 0 or len(c) < 2:
            self.add(ast.Import(names=[ast.alias(name=c[0])]))
            return n
        if form == 1:
            nm, asn = self.fresh(c[0])
            if asn is None:
                asn, nm = None, c[0]
            self.add(ast.Import(names=[ast.alias(name=c[0], asname=asn)]))
            return self.build([nm] + c[1:])
        if form in (2, 3):
            # from a.b import c
            i = d.int(1, cut)
            nm, asn = self.fresh(c[i])
            self.add(ast.ImportFrom(module=".".join(c[:i]), names=[ast.alias(name=c[i], asname=asn)], level=0))
            return self.build([nm] + c[i + 1:])
        if form == 4 and cut >= 2:
            i = d.int(2, cut)
            nm, asn = self.fresh("\0")
            self.add(ast.Import(names=[ast.alias(name=".".join(c[:i]), asname=asn)]))
            return self.build([nm] + c[i:])
        if cut >= 2:
            # `import a.b` binds a
            self.add(ast.Import(names=[ast.alias(name=".".join(c[:d.int(2, cut)]))]))
        else:
            self.add(ast.Import(names=[ast.alias(name=c[0])]))
        return n

    def add(self, s):
        if not any(ast.dump(s) == ast.dump(x) for x in self.imports):
            self.imports.append(s)

    def build(self, parts):
        e = name(parts[0])
        for p in parts[1:]:
            e = ast.Attribute(value=e, attr=p, ctx=ast.Load())
        return e


def skip_head(body):
    i = 0
    while i < len(body) and (isinstance(body[i], ast.ImportFrom) and body[i].module == "__future__" or (i == 0 and isinstance(body[i], ast.Expr) and isinstance(body[i].value, ast.Constant))):
        i += 1
    return i


def outcome(src):
    r = convert(src)
    t = norm_tree(strip_kind(parse_out(r, src)))
    # imports the tool adds at the top: the set matters, not the order
    imps = sorted({ast.unparse(s) for s in t.body if is_import(s)})
    rest = [ast.dump(s) for s in t.body if not is_import(s)]
    marks = sum(l.startswith(">>>>>>") for l in r.code.split("\n"))
    return imps, rest, (r.ok, r.fail), marks, r


class Forms(Family):
    """A random program, its APIs spelled with `import torch` and full names, against
    the same program with a random import form per use."""

    name = "import_forms"
    quick, thorough = 1500, 60000
    where = False

    def gen(self, d):
        attrs = _c.setdefault("attrs", [a for a, v in sorted(api.apis().items()) if v["kind"] == "attr" and not api.is_method(a) and a.split(".")[0] == "torch" and ".torch." not in a])

        def extra(g, m):
            k = d.int(0, 9)
            if k == 0:
                return frag.dotted(d.choice(frag.UNKNOWN))
            if k <= 2:
                return frag.dotted(d.choice(attrs))
            nm = frag.pick_api(d)
            if k == 3 and not api.is_method(nm):
                return frag.dotted(nm)
            return frag.api_call(d, nm, lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u"), g.expr(0) if d.bool(30) else None)

        g = Gen(d, extra_expr=extra, extra_rate=20)
        tree = g.module(2, 1, 3, future=True)
        t2 = copy.deepcopy(tree)
        used = idents(tree) | set(PKGS) | {"self", "data", "args", "arg", "ndarray", "paddle"}
        rs = Respell(d, set(used))
        t2 = rs.visit(t2)
        pk = sorted({c[0] for c in (chain(x) for x in ast.walk(tree)) if c})
        if not pk:
            return None
        i = skip_head(tree.body)
        tree.body[i:i] = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
        imps = d.perm(rs.imports)
        if imps and d.bool(40):
            # merge `from m import a` statements, or hide the imports in a block
            by = {}
            for s in imps:
                by.setdefault(getattr(s, "module", None), []).append(s)
            out = []
            for m, ss in by.items():
                x = ss[0]
                x.names = [a for s in ss for a in s.names]
                out.append(x)
            imps = out
        if "torch" in pk and d.bool(25):
            # an earlier import of the same name does not count
            names = sorted({x.asname for m in imps for x in m.names if x.asname} | {x.name for m in imps if isinstance(m, ast.ImportFrom) for x in m.names if not x.asname})
            for nm in d.sample(names, d.int(1, 2)):
                i2 = d.choice(["import torch.nn.functional as {}", "from torch import nn as {}", "from torch import add as {}", "import torch as {}", "from torch.optim import Adam as {}", "import torch.linalg as {}", "from torch import Tensor as {}"])
                imps.insert(0, ast.parse(i2.format(nm)).body[0])
        t2.body[i:i] = imps
        a, b = render(tree), render(t2)
        if a is None or b is None:
            return None
        return {"canonical": a, "respelled": b}

    def check(self, case):
        a, b = outcome(case["canonical"]), outcome(case["respelled"])
        for i, what in enumerate(("imports", "code", "counts", "marks")):
            if a[i] != b[i]:
                raise Violation("the import form changes the %s of the result: %s\n--- input 1\n%s\n--- output 1\n%s\n--- input 2\n%s\n--- output 2\n%s" % (what, first_diff(str(a[i]), str(b[i])), case["canonical"][:2000], a[4].code[:2000], case["respelled"][:2000], b[4].code[:2000]), "import-form:" + what)
        return Info(case["canonical"] != case["respelled"] and a[2] != (0, 0))


class ImportPlace(Family):
    """Imports inside functions, branches and try blocks are equivalent to imports at
    the top of the file."""

    name = "import_places"
    quick, thorough = 250, 9000
    TPL = [
        "{imp}\n{body}",
        "if flag:\n    {imp}\n{body}",
        "try:\n    {imp}\nexcept ImportError:\n    flag = 0\n{body}",
        "try:\n    {imp}\nexcept ImportError:\n    pass\nelse:\n    flag = 1\n{body}",
        "def fn():\n    {imp}\n    {body}",
        "class K:\n    {imp}\n    {body}",
        "for i in j:\n    {imp}\n    {body}",
        "with a as b:\n    {imp}\n    {body}",
        "def fn():\n    {imp}\n\ndef gn():\n    {body}",
    ]

    def gen(self, d):
        nm = frag.pick_api(d, ("rich", "prefix", "rich"))
        if api.is_method(nm):
            call = ast.unparse(frag.api_call(d, nm, lambda p: name("u")))
        else:
            call = None
        full = nm if call is None else "torch.zzz"
        c = full.split(".")
        form = d.int(0, 3)
        i = d.int(1, len(c) - 1)
        if form == 0:
            imp, sp = "import %s" % c[0], full
        elif form == 1:
            imp, sp = "import %s as zq" % c[0], ".".join(["zq"] + c[1:])
        elif form == 2:
            imp, sp = "from %s import %s as zr" % (".".join(c[:i]), c[i]), ".".join(["zr"] + c[i + 1:])
        else:
            imp, sp = "import %s as zs" % ".".join(c[:i]), ".".join(["zs"] + c[i:])
        if call is None:
            call = ast.unparse(frag.api_call(d, nm, lambda p: name("u")))
            call2 = call.replace(full, sp, 1)
        else:
            call2 = call
        t = self.TPL[d.int(0, len(self.TPL) - 1)]
        st = d.choice(["y = %s", "%s", "return_(%s)", "y = [%s]"])
        other = d.choice(["", "import json, ", ""]) if not imp.startswith("from") else ""
        return {"a": "import %s\n" % c[0] + t.format(imp="pass", body=st % call), "b": t.format(imp=imp.replace("import ", "import json, ", 1) if other else imp, body=st % call2), "js": bool(other)}

    def check(self, case):
        def norm(src):
            r = convert(src)
            t = norm_tree(strip_kind(parse_out(r, src)))
            for x in ast.walk(t):
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(x, f, None)
                    if isinstance(b, list):
                        b = [s for s in b if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Import) and s.names[0].name == "json")]
                        setattr(x, f, b)
            imps = sorted({ast.unparse(s) for s in t.body if is_import(s)})
            return imps, [ast.dump(s) for s in t.body if not is_import(s)], (r.ok, r.fail), r

        a, b = norm(case["a"]), norm(case["b"])
        if a[:3] != b[:3]:
            raise Violation("the place of the import changes the result\n--- input 1\n%s\n--- output 1\n%s\n--- input 2\n%s\n--- output 2\n%s" % (case["a"], a[3].code, case["b"], b[3].code), "import-place")
        return Info(a[2] != (0, 0))


class Alias(Family):
    """Every alternative name of an API converts as the name it is an alias of."""

    name = "alias_names"
    per = {"quick": 6000, "thorough": 100000}

    def cases(self, tier, seed):
        out = []
        for al, canon in sorted(api.alias().items()):
            if canon not in api.apis() or api.is_method(al) != api.is_method(canon) or al.split(".")[0] != canon.split(".")[0]:
                continue
            for e in mapping.cases(canon):
                a, c = (al.rsplit(".", 1)[1], canon.rsplit(".", 1)[1]) if api.is_method(al) else (al, canon)
                pre = "." if api.is_method(al) else ""
                if (pre + c) not in e:
                    continue
                out.append([canon, e, al, e.replace(pre + c, pre + a, 1)])
        random.Random(seed).shuffle(out)
        return out[: self.per[tier]]

    def check(self, case):
        canon, e1, al, e2 = case
        s1, s2 = mapping.source(canon, e1), mapping.source(al, e2)
        try:
            ast.parse(s1)
        except SyntaxError:
            return Info(False)
        a, b = outcome(s1), outcome(s2)
        n1, n2 = canon.rsplit(".", 1)[1], al.rsplit(".", 1)[1]
        same = a[:4] == b[:4]
        if not same and api.is_method(canon):
            # what is left unconverted keeps the name the user wrote
            same = a[0] == b[0] and a[2:4] == b[2:4] and str(a[1]).replace("'%s'" % n1, "'%s'" % n2).replace("*." + n1, "*." + n2) == str(b[1])
        if not same:
            raise Violation("%s -> %s\nbut %s -> %s" % (s1, a[4].code, s2, b[4].code), "alias:" + al)
        return Info(True)


class Moved(Family):
    """Packages that are replaced as a whole (GlobalManager.IMPORT_PACKAGE_MAPPING):
    every import of the package or of a module in it names the same module of the
    replacement, binds the same name, and nothing else changes."""

    name = "moved_packages"
    quick, thorough = 400, 8000
    PARTS = ["core", "ml", "my_audiotools", "audiotools_util", "audiotools", "paddlespeech", "data", "audiotools2", "nn", "torch"]
    OTHER = ["import audiotools_x", "from audiotoolsx import ml", "import my.audiotools", "from my.audiotools import core", "from .audiotools import core", "import os_audiotools as oa", "from numpy import audiotools as na"]

    def gen(self, d):
        from pv import conv  # noqa: F401  (makes paconvert importable)
        from paconvert.global_var import GlobalManager

        moved = {k: v for k, v in sorted(GlobalManager.IMPORT_PACKAGE_MAPPING.items())}
        pk = d.choice(sorted(moved))
        new = moved[pk]
        src, want, k = [], [], 0
        for _ in range(d.int(1, 4)):
            ind = d.choice(["", "", "", "def fn%d():\n    %%s\n    return 1", "if flag:\n    %s", "try:\n    %s\nexcept ImportError:\n    pass"])
            if ind.startswith("def"):
                ind = ind % k
            f = d.int(0, 6)
            mod = ".".join([pk] + [d.choice(self.PARTS) for _ in range(d.int(0, 3))])
            nmod = new + mod[len(pk):]
            k += 1
            if f == 0:
                a = b = d.choice(self.OTHER)
            elif f == 1:
                a, b = "import %s as z%d" % (mod, k), "import %s as z%d" % (nmod, k)
            elif f == 2:
                a, b = "import %s" % mod, "import %s as %s" % (new, pk)
            elif f == 3:
                a, b = "from %s import *" % mod, "from %s import *" % nmod
            elif f == 4:
                a, b = "import json, %s as z%d, numpy as np%d" % (mod, k, k), "import json, %s as z%d, numpy as np%d" % (nmod, k, k)
            else:
                ns = ", ".join(d.choice(["load", "AudioSignal", pk, "my_" + pk, "f"]) + d.choice(["", " as w%d" % k]) for _ in range(d.int(1, 2)))
                a, b = "from %s import %s" % (mod, ns), "from %s import %s" % (nmod, ns)
            src.append(ind % a if ind else a)
            want.append(ind % b if ind else b)
            if d.bool(50):
                u = d.choice(["y = %s.core.f(u)" % pk, "z%d.g(1, k=u)" % k, "u = AudioSignal(v)", "w%d(x)" % k])
                src.append(u)
                want.append(u)
        return {"src": "\n".join(src) + "\n", "want": "\n".join(want) + "\n"}

    def check(self, case):
        try:
            w = ast.parse(case["want"])
        except SyntaxError:
            return Info(False)
        r = convert(case["src"])
        t = parse_out(r, case["src"])
        a, b = dump(t), dump(w)
        if a != b or r.ok or r.fail or ">>>>>>" in r.code:
            raise Violation("imports of a moved package\n--- input\n%s\n--- output (%d converted, %d not)\n%s\n--- expected\n%s" % (case["src"], r.ok, r.fail, r.code, case["want"]), "moved-package")
        return Info(case["src"] != case["want"])


class C(Check):
    id = "C04"
    rule = "the two spellings differ and at least one API is counted; distinct pairs"
    assumptions = [
        "the names bound by the imports are not bound by anything else in the same program",
        "`from torch import *` is not generated",
        "in `name = <API>` the API is spelled in full (a bare imported name there makes `name` an alias of the API)",
        "equality is AST equality modulo import order and names of generated temporaries, plus equal counts and number of marked lines",
    ]
    families = [Forms(), ImportPlace(), Alias(), Moved()]


CHECK = C()
