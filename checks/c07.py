"""C07: what is not converted is kept whole, marked, and never silent."""
import ast
import random

from pv import api, frag, shapes
from pv.conv import MARK, Violation, convert, convert_dir, parse_out, strip_marks
from pv.norm import dump, first_diff, strip_kind
from pv.pygen import Gen, L, name, render
from pv.runner import Check, Family, Info
from checks.c02 import CTX, PKGS, compiles, rich_gen, uses

NOTE = "Not Support auto convert"


def bound(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(getattr(n, "name", None), str):
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    return out


def torch_names(src_tree):
    """Names the input binds by importing PyTorch-family packages."""
    roots, out = set(), set()
    for n in ast.walk(src_tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] in PKGS:
                    roots.add(a.name.split(".")[0])
                    out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module.split(".")[0] in PKGS:
            roots.add(n.module.split(".")[0])
            out |= {a.asname or a.name for a in n.names}
    return roots, out


def is_note(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and NOTE in s.value.value


def judge(src, res, keep=lambda dotted: False):
    """Marks are exactly on the lines that still need PyTorch, and no name whose
    import was removed is left behind unmarked."""
    tree = parse_out(res, src)
    lines = res.code.split("\n")
    marked = {i + 1 for i, l in enumerate(lines) if l.startswith(MARK)}
    src_tree = ast.parse(src)
    roots, local = torch_names(src_tree)
    gone = (roots | local) - bound(tree)
    need = set()
    strings = set()  # lines inside string literals: a mark there is the literal's own
    prev_note = set()

    def walk(n):
        if isinstance(n, ast.Attribute):
            parts, v = [], n
            while isinstance(v, ast.Attribute):
                parts.append(v.attr)
                v = v.value
            if isinstance(v, ast.Name):
                if v.id in gone and isinstance(v.ctx, ast.Load) and not keep(".".join([v.id] + parts[::-1])):
                    need.add(v.lineno)
                return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in gone:
            need.add(n.lineno)
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and n.end_lineno > n.lineno:
            strings.update(range(n.lineno + 1, n.end_lineno + 1))
        if isinstance(n, ast.JoinedStr) and n.end_lineno > n.lineno:
            strings.update(range(n.lineno + 1, n.end_lineno + 1))
        for f in ("body", "orelse", "finalbody", "handlers", "cases"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for s, nx in zip(b, b[1:]):
                    if is_note(s) and not is_note(nx):
                        i = s.end_lineno + 1
                        while i <= len(lines) and not lines[i - 1].strip():
                            i += 1
                        prev_note.add(i)
        for c in ast.iter_child_nodes(n):
            walk(c)

    walk(tree)
    lost = sorted(need - marked)
    if lost:
        raise Violation("line %d still uses PyTorch and is not marked: %s\n--- input\n%s\n--- output\n%s" % (lost[0], lines[lost[0] - 1], src[:2500], res.code[:2500]), "unmarked")
    extra = sorted(marked - need - prev_note - strings)
    if extra:
        raise Violation("line %d is marked for nothing: %s\n--- input\n%s\n--- output\n%s" % (extra[0], lines[extra[0] - 1], src[:2500], res.code[:2500]), "marked-for-nothing")
    miss = sorted(prev_note - marked)
    if miss:
        raise Violation("the line after a 'Not Support' note is not marked: %s\n--- output\n%s" % (lines[miss[0] - 1], res.code[:2500]), "note-unmarked")
    real = marked - strings
    # (an API inside an argument that has no counterpart disappears with it)
    if real and not res.fail:
        raise Violation("%d marked lines but %d APIs reported as not converted\n--- input\n%s\n--- output\n%s" % (len(real), res.fail, src[:2500], res.code[:2500]), "marks-vs-report")
    return need, prev_note


class Programs(Family):
    name = "any_program"
    quick, thorough = 700, 40000
    kw = {}

    def gen(self, d):
        src = gen_unsup(d)
        return None if src is None else {"src": src}

    def check(self, case):
        src = case["src"]
        need, notes = judge(src, convert(src, **self.kw))
        return Info(bool(need or notes))


class ProgramsFmt(Programs):
    name = "any_program_formatted"
    quick, thorough = 80, 4000
    kw = {"no_format": False}


_c = {}


def off_names():
    """Module-level APIs that are in the tables as not convertible, or unknown."""
    if "off" not in _c:
        _c["off"] = [n for n, v in sorted(api.apis().items()) if v["off"] and n.startswith("torch.") and not api.is_method(n) and n not in api.alias()] + frag.UNKNOWN
    return _c["off"]


def gen_unsup(d, importer=None):
    """A program mixing supported, unsupported and unknown APIs, imported in any form."""
    from checks.c04 import Respell, chain, idents, skip_head

    def extra(g, m):
        k = d.int(0, 9)
        val = (lambda p: frag.literalish(d, g, m - 1)) if m > 0 else (lambda p: name("u"))
        if k <= 1:
            f = frag.dotted(d.choice(off_names()))
            return ast.Call(func=f, args=[val(0) for _ in range(d.int(0, 2))], keywords=[ast.keyword(arg="kk", value=val(0))] if d.bool(30) else [])
        if k == 2:
            return frag.dotted(d.choice(off_names()))
        if k == 3:
            om = d.choice(frag.off_methods())
            return ast.Call(func=ast.Attribute(value=g.expr(0) if d.bool(30) else name("xt"), attr=om.rsplit(".", 1)[1], ctx=L), args=[val(0) for _ in range(d.int(0, 2))], keywords=[])
        if k == 4:
            return name("torch")
        nm = frag.pick_api(d)
        if k == 5 and not api.is_method(nm):
            return frag.dotted(nm)
        return frag.api_call(d, nm, val)

    g = Gen(d, extra_expr=extra, extra_rate=16)
    tree = g.module(3, 1, 4)
    if d.bool(50):
        used = idents(tree) | set(PKGS) | {"self", "data", "args", "arg", "ndarray", "paddle"}
        rs = Respell(d, used)
        tree = rs.visit(tree)
        imps = rs.imports + [ast.Import(names=[ast.alias(name="torch")])]
    else:
        pk = sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id in PKGS} | {"torch"})
        imps = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
    i = skip_head(tree.body)
    tree.body[i:i] = imps
    return render(tree)


class Kept(Family):
    """One unsupported use in every kind of place: the statement comes out as it was,
    with the API's full name, marked, and reported once."""

    name = "kept_whole"
    per = {"quick": 12000, "thorough": 250000}

    def cases(self, tier, seed):
        rng = random.Random(seed * 17 + 5)
        unsup = [(n, u) for n, v in sorted(api.apis().items()) if v["kind"] == "api" and not v["off"] and n.startswith("torch.") for u in v["unsup"]]
        off, om = off_names(), frag.off_methods()
        out = []
        while len(out) < self.per[tier]:
            k = rng.random()
            c = {"ctx": rng.randrange(len(CTX)), "star": rng.random() < 0.1}
            if k < 0.4:
                n, u = rng.choice(unsup)
                info = api.apis()[n]
                mn = min(info["min"], len(info["pos"]))
                npos = rng.randint(0, len(info["pos"]))
                rest = [p for p in info["pos"][npos:] + info["kwo"] + info["over"]]
                req = [p for p in info["pos"][npos:mn]]
                if u in info["pos"][:npos]:
                    kws = req
                elif u in rest:
                    kws = req + [u]
                else:
                    continue
                kws = list(dict.fromkeys(kws + rng.sample(rest, min(len(rest), rng.randint(0, 2)))))
                rng.shuffle(kws)
                c.update(kind="param", api=n, npos=npos, kws=kws)
            elif k < 0.8:
                c.update(kind="off", api=rng.choice(off), args=[rng.choice(shapes.LITS) for _ in range(rng.randint(0, 3))], kw=rng.choice([None, "u", "'s'"]))
            else:
                c.update(kind="method", api=rng.choice(om), args=[rng.choice(shapes.LITS) for _ in range(rng.randint(0, 2))], kw=None)
            out.append(c)
        return out

    def shrinks(self, c):
        if c["ctx"]:
            yield dict(c, ctx=0)
        if c["star"]:
            yield dict(c, star=False)
        for i in range(len(c.get("args", []))):
            yield dict(c, args=c["args"][:i] + c["args"][i + 1:])
        for k in c.get("kws", []):
            yield dict(c, kws=[x for x in c["kws"] if x != k])

    def check(self, c):
        nm = c["api"]
        if c["kind"] == "param":
            info = api.apis()[nm]
            call = shapes.build(nm, c["npos"], c["kws"], shapes.values(info))
            if c["star"]:
                call = call[:-1] + (", " if "(" + ")" not in call else "") + "**opts)"
        else:
            call = api.call_src(nm, c["args"] + (["*rest_"] if c["star"] else []), [("kk", c["kw"])] if c["kw"] else [])
        stmt = CTX[c["ctx"]].format(call) + "\n"
        src = "import torch\n" + stmt
        try:
            t = ast.parse(src)
        except SyntaxError:
            return Info(False)
        if not compiles(t):
            return Info(False)
        # arguments may contain convertible names
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "torch" and n.attr == "float32":
                n.value.id = "paddle"
        res = convert(src)
        got = parse_out(res, src)
        body = [s for s in got.body if not isinstance(s, ast.Import)]
        body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and NOTE in s.value.value)]
        notes = len([s for s in ast.walk(got) if isinstance(s, ast.Constant) and isinstance(s.value, str) and NOTE in s.value])
        if c["kind"] == "method" or api.is_method(nm):
            for s in body:
                strip_notes(s)
        a, b = dump(strip_kind(ast.Module(body=t.body[1:], type_ignores=[]))), dump(strip_kind(ast.Module(body=body, type_ignores=[])))
        if a != b:
            raise Violation("an unsupported use of %s was not kept as it was: %s\n--- input\n%s\n--- output\n%s" % (nm, first_diff(a, b), src, res.code), "not-kept:%s" % c["kind"])
        if res.fail != 1:
            raise Violation("an unsupported use of %s is reported %d times\n--- input\n%s\n--- output\n%s" % (nm, res.fail, src, res.code), "report:%s" % c["kind"])
        if api.is_method(nm) and notes != 1:
            raise Violation("no note for an unsupported method %s\n--- input\n%s\n--- output\n%s" % (nm, src, res.code), "no-note")
        judge(src, res)
        return Info(True)


def strip_notes(node):
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str) and NOTE in s.value.value)])


def parts_of(text):
    """[(dump, marked lines)] of the top-level functions of an output"""
    tree = ast.parse(strip_marks(text))
    lines = text.split("\n")
    out = {}
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n = sum(l.startswith(MARK) for l in lines[s.lineno - 1:s.end_lineno])
            out[s.name] = (dump(strip_kind(s)), n)
    return out


class Many(Family):
    """Several unsupported uses, some of them the same, in several functions and files:
    each function comes out as it does alone, marks included."""

    name = "many_uses"
    quick, thorough = 320, 15000

    def gen(self, d):
        pool = []
        for _ in range(d.int(1, 3)):
            k = d.int(0, 3)
            if k == 0:
                e = d.choice(off_names()) + d.choice(["(u)", "", "(u, kk=1)"])
            elif k == 1:
                e = "xt.%s(%s)" % (d.choice(frag.off_methods()).rsplit(".", 1)[1], d.choice(["", "u", "u, 2"]))
            elif k == 2:
                e = "torch.%s" % d.choice(["abs(u)", "nn.Linear(3, 4)", "add(u, xt)"])
            else:
                e = "torch.rand(3, %s)" % d.choice(["pin_memory=True", "layout=u", "zz=1"])
            pool.append(e)
        fs = []
        for i in range(d.int(2, 7)):
            c = d.choice(["y = {}", "return g({})", "if {}:\n    y = 1", "for i in {}:\n    pass", "z = [{}, {}]", "y = {}\ny = {}", "y = 1\ny = {}\nreturn y"])
            fs.append([i if not d.bool(20) else 0, c.format(*[d.choice(pool) for _ in range(c.count("{}"))])])
        return {"fs": [["f%d" % i, b, d.int(0, 2)] for i, (_, b) in enumerate(fs)]}

    def check(self, c):
        text = {n: "def %s(u, xt):\n%s\n" % (n, "".join("    %s\n" % l for l in b.split("\n"))) for n, b, _ in c["fs"]}
        files = {}
        for n, _, k in c["fs"]:
            files.setdefault("m%d.py" % k, ["import torch\n"]).append(text[n])
        files = {k: "".join(v) for k, v in files.items()}
        out, ok, fail = convert_dir(files)
        got = {}
        for k in files:
            got.update(parts_of(out[k]))
        tot, marks, cache = [0, 0], 0, {}
        for n, b, _ in c["fs"]:
            if b not in cache:
                r = convert("import torch\ndef f(u, xt):\n" + "".join("    %s\n" % l for l in b.split("\n")))
                cache[b] = (parts_of(r.code)["f"], r.ok, r.fail)
            (dd, m), o, f = cache[b]
            tot[0] += o
            tot[1] += f
            marks += m
            want = (dd.replace("name='f'", "name='%s'" % n, 1), m)
            if got.get(n) != want:
                raise Violation("%s comes out differently among other code (%s marked lines instead of %d)\n--- input\n%s\n--- output\n%s" % (n, got.get(n, (0, None))[1], m, "\n".join(files.values())[:2500], "\n".join(out[k] for k in files)[:2500]), "many-uses")
        if [ok, fail] != tot:
            raise Violation("counts (%d, %d) instead of %r\n%s" % (ok, fail, tot, "\n".join(files.values())[:2500]), "many-counts")
        return Info(marks > 1)


class Star(Family):
    """Names that a removed `from torch import *` used to provide."""

    name = "star_import"

    def cases(self, tier, seed):
        return ["from torch import *\nfrom torch.nn.functional import relu\ny = relu(zeros(3))\n", "from torch import *\ny = zeros(3)\n", "from torch.nn import *\ny = Linear(3, 4)\n"]

    def check(self, src):
        r = convert(src)
        t = parse_out(r, src)
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        b = bound(t)
        for n in sorted(names - b):
            if n in ("zeros", "Linear") and not any(l.startswith(MARK) for l in r.code.split("\n")):
                raise Violation("`%s` lost its import and is not marked\n%s\n->\n%s" % (n, src, r.code), "star-import")
        return Info(True)


class C(Check):
    id = "C07"
    rule = "at least one line of the output is (rightly) marked as not converted; distinct cases"
    assumptions = [
        "a line needs a mark when, in the syntax tree of the output, it holds the root of a name that was imported from a PyTorch-family package and is no longer bound, or follows a 'Not Support' note",
        "unsupported APIs and parameters are those of the frozen tables, plus unknown names",
    ]
    families = [Programs(), Kept(), Many(), ProgramsFmt(), Star()]


CHECK = C()
