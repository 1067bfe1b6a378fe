"""C02: every valid program is converted to a valid program."""
import ast
import random

from pv import api, frag, shapes
from pv.conv import Violation, convert, parse_out
from pv.pygen import D, Gen, L, name, render
from pv.runner import Check, Family, Info


def compiles(tree):
    try:
        compile(tree, "<p>", "exec", dont_inherit=True)
        return True
    except (SyntaxError, ValueError):
        return False


def require_valid(res, src):
    tree = parse_out(res, src)
    try:
        compile(ast.fix_missing_locations(tree), "<out>", "exec", dont_inherit=True)
    except (SyntaxError, ValueError) as e:
        if compiles(ast.parse(src)):
            raise Violation("the input compiles, the output does not: %s\n--- input\n%s\n--- output\n%s" % (e, src[:3000], res.code[:3000]), "does-not-compile")
    if res.ok < 0 or res.fail < 0:
        raise Violation("negative counts %r\n%s" % ((res.ok, res.fail), src[:1500]), "negative-count")


def rich_gen(d, rate=18, n=3, lo=1, hi=4):
    """A program that calls arbitrary PyTorch APIs with arbitrary arguments anywhere."""

    def value(g, m):
        k = d.int(0, 9)
        if k <= 3:
            return name(d.choice(["u", "w", "xt", "yt"]))
        if k <= 7 or m <= 0:
            return ast.parse(d.choice(shapes.LITS), mode="eval").body
        return g.expr(m - 1)

    def extra(g, m):
        k = d.int(0, 19)
        if k == 0:
            return frag.dotted(d.choice(frag.UNKNOWN))
        if k == 1:
            return frag.dotted(d.choice(frag.prefix_attrs()))
        if k == 2:
            attrs = [a for a, v in sorted(api.apis().items()) if v["kind"] == "attr"]
            a = d.choice(attrs)
            if api.is_method(a):
                return ast.Attribute(value=g.expr(m - 1), attr=a.rsplit(".", 1)[1], ctx=L)
            return frag.dotted(a)
        nm = frag.pick_api(d)
        recv = g.expr(m - 1) if d.bool(40) else None
        c = frag.api_call(d, nm, lambda p: value(g, m), recv)
        if d.bool(8):
            c.args = c.args + [ast.Starred(value=name("args_"), ctx=L)]
        if d.bool(8):
            c.keywords = c.keywords + [ast.keyword(arg=None, value=name("opts"))]
        return c

    g = Gen(d, extra_expr=extra, extra_rate=rate)
    tree = g.module(n, lo, hi)
    i = 0
    while i < len(tree.body) and (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__" or (i == 0 and isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))):
        i += 1
    pk = sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id in PKGS} | {"torch"})
    tree.body[i:i] = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
    return render(tree)


PKGS = sorted({n.split(".")[0] for n in api.apis()})


def uses(src):
    return sum(isinstance(n, ast.Name) and n.id in PKGS for n in ast.walk(ast.parse(src)))


class Rich(Family):
    name = "any_program"
    quick, thorough = 700, 40000
    kw = {}

    def gen(self, d):
        src = rich_gen(d)
        return None if src is None else {"src": src}

    def check(self, case):
        src = case["src"]
        require_valid(convert(src, **self.kw), src)
        return Info(uses(src) >= 2)


class RichFmt(Rich):
    name = "any_program_formatted"
    quick, thorough = 80, 4000
    kw = {"no_format": False}


class RichMin(Rich):
    name = "any_program_min_mode"
    quick, thorough = 100, 4000
    kw = {"mode": "min"}


class RichComplete(Rich):
    name = "any_program_only_complete"
    quick, thorough = 60, 2000
    kw = {"only_complete": True}


CTX = [
    "y = {}", "{}", "return_({})", "if {}:\n    pass", "z = [{}]", "a[{}] = 1", "assert {}", "y += {}", "y: int = {}", "del a[{}]",
    "for i in {}:\n    pass", "while {}:\n    break", "with {} as f:\n    pass", "z = lambda q: {}", "z = [{} for i in j]", "z = p and {}",
    "def h(k={}):\n    pass", "@g({})\ndef h():\n    pass", "class K(g({})):\n    pass", "raise g({})", "z = {{1: {}}}", "z = f'{{{}}}'",
    "try:\n    pass\nexcept {}:\n    pass", "def h():\n    return {}", "async def h():\n    return await {}", "z = x[{}:1]", "z = p if q else {}",
    "y = ({}).zeta", "y = ({})[0]", "y = ({})(1)", "y = -({})", "match {}:\n    case 1:\n        pass", "z = (w := {})",
]


class Sweep(Family):
    """Every API of the tables, every base call shape, one literal somewhere."""

    name = "api_sweep"
    per = {"quick": 40000, "thorough": 1200000}

    def cases(self, tier, seed):
        rng = random.Random(seed * 7919 + 13)
        names = sorted(api.apis())
        out = []
        n = self.per[tier]
        while len(out) < n:
            nm = rng.choice(names)
            info = api.apis()[nm]
            vals = shapes.values(info)
            sh = shapes.base_shapes(info) or [(0, ())]
            npos, kws = rng.choice(sh)
            lits = {}
            for p in rng.sample(sorted(vals), min(len(vals), rng.choice([0, 1, 1, 1, 2, 3]))):
                lits[p] = rng.choice(shapes.LITS)
            out.append({"api": nm, "npos": npos, "kws": list(kws), "lits": lits, "ctx": rng.randrange(len(CTX)) if rng.random() < 0.5 else 0})
        return out

    def shrinks(self, c):
        for p in list(c["lits"]):
            yield dict(c, lits={k: v for k, v in c["lits"].items() if k != p})
        if c["ctx"]:
            yield dict(c, ctx=0)
        for k in c["kws"]:
            yield dict(c, kws=[x for x in c["kws"] if x != k])
        if c["npos"]:
            yield dict(c, npos=c["npos"] - 1)

    def src(self, c):
        info = api.apis()[c["api"]]
        if info["kind"] == "attr":
            call = ("xt." + c["api"].rsplit(".", 1)[1]) if api.is_method(c["api"]) else c["api"]
        else:
            vals = dict(shapes.values(info), **c["lits"])
            call = shapes.build(c["api"], c["npos"], c["kws"], vals)
        return api.imports_for(c["api"]) + CTX[c["ctx"]].format(call) + "\n"

    def check(self, c):
        src = self.src(c)
        try:
            t = ast.parse(src)
        except SyntaxError:
            return Info(False)
        if not compiles(t):
            return Info(False)
        require_valid(convert(src), src)
        return Info(True)


def indent(s, n=4):
    """Re-indent statement source without touching multi-line literals."""
    return ast.unparse(ast.parse(s))


class Snippets(Family):
    """Real usage snippets, several per file, nested in functions, classes and loops."""

    name = "snippet_composition"
    quick, thorough = 250, 12000

    def gen(self, d):
        sn = api.harvested()
        parts = [sn[d.int(0, len(sn) - 1)]["code"] for _ in range(d.int(1, 3))]
        wraps = [d.int(0, 5) for _ in parts]
        return {"parts": parts, "wraps": wraps}

    def src(self, case):
        body = []
        for p, w in zip(case["parts"], case["wraps"]):
            try:
                b = ast.parse(p).body
            except SyntaxError:
                return None
            b = [s for s in b if not (isinstance(s, ast.ImportFrom) and (s.module == "__future__" or any(a.name == "*" for a in s.names)))] or [ast.Pass()]
            if w == 1:
                b = [ast.FunctionDef(name="fn", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b, decorator_list=[], type_params=[])]
            elif w == 2:
                b = [ast.If(test=name("flag"), body=b, orelse=b if len(p) < 300 else [])]
            elif w == 3:
                b = [ast.For(target=name("it", ast.Store()), iter=name("its"), body=b, orelse=[])]
            elif w == 4:
                b = [ast.Try(body=b, handlers=[ast.ExceptHandler(type=None, name=None, body=[ast.Pass()])], orelse=[], finalbody=[])]
            elif w == 5:
                b = [ast.ClassDef(name="Kc", bases=[], keywords=[], body=b, decorator_list=[], type_params=[])]
            body += b
        t = ast.Module(body=body, type_ignores=[])
        try:
            return ast.unparse(ast.fix_missing_locations(t)) + "\n"
        except Exception:
            return None

    def check(self, case):
        src = self.src(case)
        if src is None:
            return Info(False)
        try:
            if not compiles(ast.parse(src)):
                return Info(False)
        except SyntaxError:
            return Info(False)
        require_valid(convert(src), src)
        return Info(True)


class Encodings(Family):
    """The same program in every source encoding Python accepts."""

    name = "source_text"
    quick, thorough = 60, 1500
    ENC = ["utf-8", "utf-8-sig", "latin-1", "cp1252", "gbk", "utf-8"]

    def gen(self, d):
        src = rich_gen(d, n=1, hi=2)
        if src is None:
            return None
        return {"src": src, "enc": d.int(0, 5), "eol": d.int(0, 2), "tail": d.int(0, 3)}

    def check(self, case):
        import os

        from pv import env
        from pv.conv import Result, crash_sig, new_converter

        enc = self.ENC[case["enc"]]
        src = "# a comment\n" + case["src"]
        try:
            src.encode(enc)
        except UnicodeEncodeError:
            return Info(False)
        base = convert(case["src"]).code
        text = src
        if enc not in ("utf-8", "utf-8-sig"):
            text = "# -*- coding: %s -*-\n%s" % (enc, src)
        text = text.rstrip("\n") + ["\n", "", "\n\n\n", "\n# end"][case["tail"]]
        if case["eol"] and "\n" not in "".join(c.value for c in ast.walk(ast.parse(src)) if isinstance(c, ast.Constant) and isinstance(c.value, str)):
            text = text.replace("\n", "\r\n" if case["eol"] == 1 or not enc.startswith("utf") else "\r")
        raw = text.encode(enc)
        try:
            compile(raw, "<raw>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError):
            return Info(False)
        d = env.fresh_dir("enc")
        i, o = os.path.join(d, "i.py"), os.path.join(d, "o.py")
        with open(i, "wb") as f:
            f.write(raw)
        try:
            ok, fail = new_converter(no_format=True).run(i, o)
        except Exception as e:
            raise Violation("a %s file could not be converted: %r\n%s" % (enc, e, text[:1500]), "enc:" + crash_sig(e))
        with open(o, encoding="utf-8", newline="") as f:
            out = f.read()
        for p in (i, o):
            os.remove(p)
        os.rmdir(d)
        got = parse_out(Result(out, ok, fail, None), text)
        from pv.norm import dump, norm_tree, strip_kind

        a, b = (dump(norm_tree(strip_kind(t))) for t in (got, parse_out(Result(base, 0, 0, None), src)))
        if a != b:
            raise Violation("the same program in encoding %s converts differently\n%s\n--- got\n%s\n--- expected\n%s" % (enc, text[:1500], out[:1500], base[:1500]), "enc-differs")
        return Info(enc != "utf-8" or case["eol"] > 0)


class C(Check):
    id = "C02"
    rule = "the input compiles and uses a PyTorch-family package (programs: at least twice); distinct cases"
    assumptions = [
        "programs: a Python 3.12 grammar with calls of every API of the frozen signature table (legal parameter subsets, literal or random argument expressions, unknown APIs, * and ** arguments) placed anywhere an expression may stand",
        "validity is judged by ast.parse and compile after removing the leading >>>>>> marks",
    ]
    families = [Rich(), Sweep(), Snippets(), RichFmt(), RichMin(), RichComplete(), Encodings()]


CHECK = C()
