"""C06: each API converts to its documented Paddle form, arguments carried over whole."""
import ast
import copy
import random

from pv import api, mapping, shapes
from pv.conv import Violation, convert, parse_out
from pv.norm import dump, first_diff, is_import, norm_tree, strip_kind
from pv.runner import Check, Family, Info


class Mapping(Family):
    """Every API x every base call shape x every literal: same Paddle code and same
    counts as the recorded contract."""

    name = "mapping_contract"
    per = {"quick": 1.0, "thorough": 1.0}

    def setup_main(self):
        self.gold = mapping.load()
        self.names = sorted(self.gold["table"])

    def cases(self, tier, seed):
        out = []
        for nm in self.names:
            for i, e in enumerate(mapping.cases(nm)):
                if self.gold["table"][nm][i] is not None:
                    out.append([nm, e, i])
        random.Random(seed).shuffle(out)
        return out

    def check(self, case):
        nm, expr, i = case
        src = mapping.source(nm, expr)
        ti, ok, fail = self.gold["table"][nm][i]
        want = self.gold["texts"][ti]
        r = convert(src)
        got = mapping.normal(parse_out(r, src))
        if got != want:
            raise Violation("%s\nconverts to\n%s\ninstead of\n%s" % (src, got, want), "mapping:" + nm)
        if (r.ok, r.fail) != (ok, fail):
            raise Violation("%s\nis reported as (converted, not converted) = %r instead of %r" % (src, (r.ok, r.fail), (ok, fail)), "counts:" + nm)
        return Info(nm in got or "paddle" in got or fail > 0)


EX = ["u if w else p", "u and w", "not u", "u + w", "-u", "lambda q: q", "(u, w)", "[u, w]", "dd['h']", "f'{u}\\n'", "u == w", "p.q", "p[0]", "g(1, k=2)", "'a' \"b'\"", "[i for i in u]", "{'a': 1}", "b'x'", "u[1:2]", "x < y < z", "\"tri'''ple\"", "'''q\"w'''", "1.5e-9", "u @ w", "~u", "{**u}", "{*u}", "(yy := u)", "'\\\\d\\n'", "r.s.t(u)[0]", "u ** -w", "g(*u, **w)", "'%s' % u", "{i: j for i, j in u}", "u is not w", "'é'"]
# names and literals that contain the text of a value the rules look for
TEXT = ["none_v", "tanh_v", "cuda_v", "floor_v", "trunc_v", "mean_v", "sum_v", "True_", "is_None", "False_v", "cfg.sum", "cfg.cuda", "g(None)", "g(True)", "g(False)", "g('mean')", "g('none')", "g('cuda')", "d['tanh']", "float_v", "bool_", "complex_v", "int_v", "int_v(u)", "same_v", "'sys.path'"]
EX += TEXT
# arguments that are PyTorch code themselves (prefix-only conversions)
EXT = ["torch.argsort(u)", "u + torch.atan2(u, w)", "[torch.float32]", "g(torch.isfinite(u))"]
# receivers the tool takes for a PyTorch object (chains of attributes of anything
# but self are not)
RECV = ["u[0]", "g(u)", "(u + w)", "(-u)", "(u @ w)", "(u == w)", "g(u, k=w)[p]", "u.r(w)", "u[1:, ...]", "(u ** -w)", "g('\\d')"]
RECV_T = ["self.w", "self.u.v", "self.u['k']"]


class Sub(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        return copy.deepcopy(self.m[n.id]) if n.id in self.m else n


class Pad(ast.NodeTransformer):
    def visit_Name(self, n):
        if n.id == "torch":
            n.id = "paddle"
        return n


class Substitution(Family):
    """convert(f(E)) == convert(f(v))[v := E]: an argument expression is never
    truncated, reordered, re-associated, misquoted or lost."""

    name = "argument_substitution"
    per = {"quick": 36000, "thorough": 900000}

    def setup_main(self):
        self.names = [n for n in api.supported() if not api.apis()[n]["prefix"]]

    def cases(self, tier, seed):
        rng = random.Random(seed * 101 + 3)
        out = []
        # every parameter with names that contain the values a rule may look for
        for nm in self.names:
            done = set()
            for npos, kws in shapes.base_shapes(api.apis()[nm]):
                for p in api.apis()[nm]["pos"][:npos] + list(kws):
                    if p not in done:
                        done.add(p)
                        for w in rng.sample(TEXT, 6 if tier == "quick" else len(TEXT)):
                            if nm != "torch.Tensor.split" or "'" not in w:
                                out.append({"api": nm, "npos": npos, "kws": list(kws), "e": {p: w}, "recv": ""})
        rng.shuffle(out)
        while len(out) < self.per[tier]:
            for nm in self.names:
                info = api.apis()[nm]
                sh = rng.choice(shapes.base_shapes(info) or [(0, ())])
                used = info["pos"][:sh[0]] + list(sh[1])
                k = min(len(used), rng.choice([1, 1, 2, 3, 9]))
                ps = rng.sample(used, k)
                c = {"api": nm, "npos": sh[0], "kws": list(sh[1]), "e": {p: rng.choice(EX if rng.random() < 0.8 else EXT) for p in ps}, "recv": ""}
                if api.is_method(nm) and rng.random() < 0.4:
                    c["recv"] = rng.choice(RECV + RECV_T if nm.startswith("torch.Tensor.") else RECV)
                if nm == "torch.Tensor.split" and any("'" in v for v in c["e"].values()):
                    continue  # deliberately taken for str.split
                if c["e"] or c["recv"]:
                    out.append(c)
        return out

    def shrinks(self, c):
        for p in c["e"]:
            yield dict(c, e={k: v for k, v in c["e"].items() if k != p})
            yield dict(c, e=dict(c["e"], **{p: "u + w"}))
        if c["recv"]:
            yield dict(c, recv="")
        for k in c["kws"]:
            if k not in c["e"]:
                yield dict(c, kws=[x for x in c["kws"] if x != k])

    def check(self, c):
        nm = c["api"]
        info = api.apis()[nm]
        vals = shapes.values(info)
        head = api.imports_for(nm) + "y = "
        plain = head + shapes.build(nm, c["npos"], c["kws"], vals, recv="rv") + "\n"
        full = head + shapes.build(nm, c["npos"], c["kws"], dict(vals, **c["e"]), recv=c["recv"] or "rv") + "\n"
        m = {vals[p]: Pad().visit(ast.parse(e, mode="eval").body) for p, e in c["e"].items()}
        if c["recv"]:
            m["rv"] = ast.parse(c["recv"], mode="eval").body
        r1, r2 = convert(plain), convert(full)
        t1, t2 = parse_out(r1, plain), parse_out(r2, full)
        if nm == "torch.autograd.Variable" and r2.fail > r1.fail:
            return Info(False)  # the argument alone, when it cannot be a tensor: reported instead
        exp = Sub(m).visit(t1)
        for n in ast.walk(exp):
            # an argument that became an assignment target cannot be any expression
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in getattr(n, "targets", None) or [n.target]:
                    for x in ast.walk(t) if not isinstance(t, (ast.Attribute, ast.Subscript)) else ():
                        if not isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple, ast.List, ast.expr_context, ast.Starred)):
                            return Info(False)
        exp = norm_tree(strip_kind(ast.parse(ast.unparse(exp))))
        got = norm_tree(strip_kind(t2))
        e = [ast.unparse(s) for s in exp.body]
        g = [ast.unparse(s) for s in got.body]
        if any("torch" in x for x in c["e"].values()):
            e = [x for x in e if not x.startswith("import paddle")]
            g = [x for x in g if not x.startswith("import paddle")]
        if e != g:
            raise Violation("%s\nconverts to\n%s\nbut with names for arguments it converts to\n%s\nso\n%s\nwas expected" % (full, r2.code, r1.code, "\n".join(e)), "substitution:" + nm)
        return Info(r1.ok > 0)


class C(Check):
    id = "C06"
    rule = "the call is an API of the signature table that the tool converts or reports; distinct cases"
    assumptions = [
        "the mapping contract is the recorded result for every API of the tables of this commit (2106 APIs, 115108 calls), read modulo keyword order, import order and names of generated temporaries; a deliberate change of a mapping needs a new recording (tools/freeze_mapping.py)",
        "substituted expressions come from a fixed list of syntactic forms; an argument the conversion turns into an assignment target is substituted only by assignable expressions",
    ]
    families = [Mapping(), Substitution()]


CHECK = C()
