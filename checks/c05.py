"""C05: how arguments are passed does not change the conversion."""
import ast
import random

from pv import api, shapes
from pv.conv import Violation, convert, parse_out
from pv.norm import dump, is_import, norm_tree, strip_kind
from pv.runner import Check, Family, Info

# the first positional argument of these selects an overload at run time
AMBIGUOUS = {"torch.Tensor.max", "torch.Tensor.min"}
_ok = {}


def callable_apis():
    if not _ok:
        _ok["l"] = [n for n in api.supported() if api.apis()[n]["pos"] and not api.apis()[n]["prefix"] and n not in AMBIGUOUS]
    return _ok["l"]


def converted(nm, src):
    """Statements of the output; arguments of a call that kept the API's own name
    are named after the API's signature."""
    res = convert(src)
    t = parse_out(res, src)
    info = api.apis()[nm]
    last = nm.rsplit(".", 1)[1].lstrip("_")
    for c in ast.walk(t):
        if isinstance(c, ast.Call) and not any(isinstance(a, ast.Starred) for a in c.args):
            f = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
            if f.lstrip("_") == last and len(c.args) <= len(info["pos"]):
                c.keywords = [ast.keyword(arg=p, value=a) for p, a in zip(info["pos"], c.args)] + c.keywords
                c.args = []
    body = [s for s in t.body if not is_import(s)]
    t = norm_tree(strip_kind(ast.Module(body=body, type_ignores=[])))
    return dump(t), res


def src_of(nm, npos, kws, vals):
    return api.imports_for(nm) + "y = " + shapes.build(nm, npos, kws, vals) + "\n"


class Binding(Family):
    """f(a, b, c) == f(a, b, z=c) == f(x=a, y=b, z=c), keywords in any order."""

    name = "placeholder_arguments"
    lits = False
    per = {"quick": 14000, "thorough": 400000}

    def cases(self, tier, seed):
        rng = random.Random(seed * 31 + 7 + self.lits)
        out = []
        names = callable_apis()
        rounds = 0
        while len(out) < self.per[tier]:
            for nm in names:
                info = api.apis()[nm]
                pos, kwo = info["pos"], info["kwo"]
                mn = min(info["min"], len(pos))
                k = rng.randint(mn, len(pos))
                if k == 0:
                    k = 1
                j1, j2 = rng.randint(0, k), rng.randint(0, k)
                if rng.random() < 0.5:
                    j1, j2 = k, 0
                extra = rng.sample(kwo, rng.randint(0, len(kwo))) if rng.random() < 0.5 else []
                kw1, kw2 = pos[j1:k] + extra, pos[j2:k] + extra
                rng.shuffle(kw1)
                rng.shuffle(kw2)
                c = {"api": nm, "a": [j1, kw1], "b": [j2, kw2], "lits": {}}
                if self.lits:
                    used = pos[:k] + extra
                    for p in rng.sample(used, min(len(used), rng.choice([1, 1, 2, 3]))):
                        v = rng.choice(shapes.LITS)
                        if nm == "torch.Tensor.split" and "'" in v:
                            continue  # deliberately taken for str.split
                        if v == "None" and p in info["unsup"]:
                            continue  # only the keyword form is taken for the default
                        c["lits"][p] = v
                if (j1, kw1) != (j2, kw2):
                    out.append(c)
            rounds += 1
        return out

    def shrinks(self, c):
        for p in list(c["lits"]):
            yield dict(c, lits={k: v for k, v in c["lits"].items() if k != p})
        for k in [x for x in c["a"][1] if x in c["b"][1]]:
            if k not in api.apis()[c["api"]]["pos"]:
                yield dict(c, a=[c["a"][0], [x for x in c["a"][1] if x != k]], b=[c["b"][0], [x for x in c["b"][1] if x != k]])

    def check(self, c):
        nm = c["api"]
        vals = dict(shapes.values(api.apis()[nm]), **c["lits"])
        sa, sb = src_of(nm, *c["a"], vals), src_of(nm, *c["b"], vals)
        (a, ra), (b, rb) = converted(nm, sa), converted(nm, sb)
        if a != b:
            raise Violation("the same call written in two ways converts differently\n%s  -> %s\n%s  -> %s" % (sa, ra.code, sb, rb.code), "binding:" + nm)
        if (ra.ok, ra.fail) != (rb.ok, rb.fail):
            raise Violation("the same call written in two ways is reported differently %r %r\n%s\n%s" % ((ra.ok, ra.fail), (rb.ok, rb.fail), sa, sb), "count:" + nm)
        return Info(ra.ok > 0)


class BindingLits(Binding):
    name = "literal_arguments"
    lits = True
    per = {"quick": 14000, "thorough": 400000}


class C(Check):
    id = "C05"
    rule = "the two spellings differ and at least one API of the call is converted; distinct (API, spellings, literal) cases"
    assumptions = [
        "every API of the frozen signature table whose conversion is more than a prefix change; legal calls only",
        "Tensor.max/min are left out: their first positional argument selects an overload at run time",
        "equality is AST equality modulo keyword order and names of generated temporaries",
    ]
    families = [Binding(), BindingLits()]


CHECK = C()
