"""C15: min mode changes only what has to change."""
import ast
import copy

from pv import api, frag, mapping
from pv.conv import Violation, convert, parse_out
from pv.norm import first_diff, is_import, norm_tree, strip_kind
from pv.runner import Check, Family, Info
from checks import c04

_c = {}


def renamed():
    """API -> Paddle expression, for the APIs whose conversion is only a rename."""
    if "r" not in _c:
        m = mapping.load()
        out = {}
        for nm, v in api.apis().items():
            if not v["prefix"] or v["off"] or api.is_method(nm):
                continue
            cs = mapping.cases(nm)
            if nm not in cs:
                continue
            row = m["table"][nm][cs.index(nm)]
            last = m["texts"][row[0]].split("\n")[-1]
            if row[2] == 0 and last.startswith("y = "):
                out[nm] = last[4:]
        _c["r"] = out
    return _c["r"]


def bindings(tree):
    """Local name -> dotted name, for the PyTorch-family imports of a program."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] in c04.PKGS:
                    if a.asname:
                        out[a.asname] = a.name
                    else:
                        out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module.split(".")[0] in c04.PKGS:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


class Apply(ast.NodeTransformer):
    """What is left to do after min mode: rename the kept references."""

    def __init__(self, names, src):
        self.src = src
        self.names, self.kept, self.odd = names, 0, False

    def resolve(self, n):
        parts = []
        x = n
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if isinstance(x, ast.Name) and x.id in self.names:
            full = ".".join([self.names[x.id]] + parts[::-1])
            return api.alias().get(full, full)
        return None

    def synthetic(self, n):
        # torch.numel(torch.float32) -> torch.float32.size
        return isinstance(n, ast.Attribute) and "." + n.attr not in self.src and self.resolve(n.value) in renamed()

    def visit_Call(self, n):
        f = self.resolve(n.func)
        if self.synthetic(n.func):
            self.generic_visit(n)
        elif f is not None and (f not in renamed() or api.apis()[f]["kind"] == "attr"):
            # not converted in either mode
            n.args = [self.visit(a) for a in n.args]
            n.keywords = [self.visit(k) for k in n.keywords]
            self.odd = self.odd or f in renamed()
        else:
            self.generic_visit(n)
        return n

    def visit_Attribute(self, n):
        f = self.resolve(n)
        if f in renamed() and isinstance(n.ctx, ast.Load):
            self.kept += 1
            return ast.parse(renamed()[f], mode="eval").body
        if self.synthetic(n):
            self.odd = True
            n.value = self.visit(n.value)
        elif f is None:
            self.generic_visit(n)
        return n

    def visit_Name(self, n):
        f = self.resolve(n)
        if f in renamed() and isinstance(n.ctx, ast.Load):
            self.kept += 1
            return ast.parse(renamed()[f], mode="eval").body
        return n


def imports(tree):
    """Set of single-name imports of a module, at any depth."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            out |= {(None, 0, a.name, a.asname) for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            out |= {(n.module, n.level, a.name, a.asname) for a in n.names}
    return out


def bare(tree):
    """Statements without imports (and without the pass that may stand for one)."""
    for x in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list):
                setattr(x, f, [s for s in b if not is_import(s) and not isinstance(s, ast.Pass)])
    return tree


def compare(src):
    d, m = convert(src), convert(src, mode="min")
    names = bindings(ast.parse(src))
    look = Apply(names, src)
    for n in ast.walk(ast.parse(src)):
        # an attribute of an API is converted with it by default, but kept and marked in min mode
        f = look.resolve(n) if isinstance(n, (ast.Attribute, ast.Name)) else None
        if f is not None and f not in renamed() and f.rpartition(".")[0] in renamed():
            return None
    dt, mt = strip_kind(parse_out(d, src)), strip_kind(parse_out(m, src))
    di, mi, si = imports(dt), imports(mt), imports(ast.parse(src))
    show = "\n--- input\n%s\n--- default\n%s\n--- min\n%s" % (src[:2000], d.code[:2000], m.code[:2000])
    if not si <= mi:
        raise Violation("min mode drops the imports %s%s" % (sorted(map(str, si - mi)), show), "import-dropped")
    if mi - si != di - si:
        raise Violation("min mode adds the imports %s, default mode %s%s" % (sorted(map(str, mi - si)), sorted(map(str, di - si)), show), "import-added")
    ap = Apply(names, src)
    mt = ap.visit(mt)
    a, b = ast.dump(norm_tree(bare(dt))), ast.dump(norm_tree(bare(mt)))
    if a != b:
        raise Violation("renaming what min mode kept does not give the default conversion: %s%s" % (first_diff(a, b), show), "min-code")
    if (d.ok, d.fail) != (m.ok, m.fail):
        raise Violation("default mode counts %r, min mode %r%s" % ((d.ok, d.fail), (m.ok, m.fail), show), "min-counts")
    marks = lambda r: sum(l.startswith(">>>>>>") for l in r.code.split("\n"))
    md = marks(d)
    return d, m, ap.kept, md, md if ap.odd else marks(m), show


class Programs(Family):
    name = "programs"
    quick, thorough = 900, 25000

    def gen(self, d):
        c = c04.Forms().gen(d)
        if c is None:
            return None
        return c["respelled"] if d.bool(60) else c["canonical"]

    def check(self, case):
        r = compare(case)
        if r is None:
            return Info(False)
        d, m, kept, md, mm, show = r
        return Info(kept > 0 and d.ok > kept)


class Sweep(Family):
    """Every API in a rotating call shape: kept exactly when it is only renamed."""

    name = "api_sweep"

    def cases(self, tier, seed):
        out = []
        for nm in sorted(api.apis()):
            cs = mapping.cases(nm)
            n = 3 if tier == "quick" else 40
            for i in range(n):
                e = cs[(seed * 101 + i * 13 + len(nm)) % len(cs)]
                if [nm, e] not in out[-n:]:
                    out.append([nm, e])
        return out

    def check(self, case):
        src = mapping.source(*case)
        try:
            ast.parse(src)
        except SyntaxError:
            return Info(False)
        r = compare(src)
        if r is None:
            return Info(False)
        d, m, kept, md, mm, show = r
        if md != mm:
            raise Violation("%d lines are marked in default mode, %d in min mode%s" % (md, mm, show), "min-marks")
        return Info(d.ok > 0)


class C(Check):
    id = "C15"
    rule = "programs: at least one API is kept and at least one is rewritten; sweep: the API is converted; distinct sources"
    assumptions = [
        "which APIs are only renamed, and to what, is the recorded mapping contract",
        "attributes of APIs (torch.autograd.Function.x) are left out: min mode keeps and marks them; so are attribute constants called as functions",
        "names bound by imports are not bound otherwise; helper temporaries compared modulo renaming; `import os/setuptools/einops` not generated",
    ]
    families = [Programs(), Sweep()]


CHECK = C()
