"""C19: generated names never collide."""
import ast
import copy
import re

from pv import api, mapping
from pv.conv import Violation, convert, convert_dir, parse_out, strip_marks
from pv.iso import ChildDied, in_child
from pv.norm import TMP, dump, first_diff, idents, is_import, norm_tree, strip_kind
from pv.runner import Check, Family, Info
from checks.c13 import OWN, UTIL, helped, owners

_c = {}


def temps():
    """[(api, [expr])] of the calls whose conversion introduces variables (from the
    recorded mapping, only used to aim the generator)."""
    if "t" not in _c:
        gold, out = mapping.load(), {}
        for nm in sorted(api.apis()):
            for e, row in zip(mapping.cases(nm), gold["table"][nm]):
                if row and not row[2] and re.search(r"__T\d", gold["texts"][row[0]]):
                    out.setdefault(nm, []).append(e)
        _c["t"] = sorted(out.items())
    return _c["t"]


def names_of(tree):
    """Every identifier of a program that can stand for a variable."""
    s = set()
    for n in ast.walk(tree):
        for f in ("id", "arg", "name", "asname", "rest"):
            v = getattr(n, f, None)
            if isinstance(v, str) and not isinstance(n, ast.keyword):
                s.add(v)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            s.update(n.names)
    return s


def bound(tree):
    """Names bound by statements of the program (not by imports, nor inside lambdas and
    comprehensions, whose names are their own)."""
    s, todo = set(), [tree]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Lambda):
            todo.append(n.body)
            continue
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            s.add(n.id)
        elif isinstance(n, ast.arg):
            s.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s.add(n.name)
        for k in ast.iter_child_nodes(n):
            if not (isinstance(n, ast.comprehension) and k is n.target):
                todo.append(k)
    return s


def new_names(src, text):
    """Variables of the output that are no names of the input."""
    t, had = ast.parse(strip_marks(text)), ast.parse(src)
    keep = [s for s in t.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) or s.name in idents(had)]
    return bound(ast.Module(body=keep, type_ignores=[])) - names_of(had)


USER = ["ua", "ub", "uc", "ud", "ue", "uf"]


def use(d, u):
    """A statement (list of lines) using the name u in one of the ways a name is used."""
    return d.choice([
        ["%s = 1" % u], ["%s = va" % u, "g(%s)" % u], ["for %s in va:" % u, "    g(%s)" % u], ["with vb as %s:" % u, "    g(%s)" % u],
        ["def %s(va):" % u, "    return va"], ["def fn_%s(%s):" % (u, u), "    return %s" % u], ["def fn_%s(*, %s=1, **kw):" % (u, u), "    g(%s)" % u],
        ["class %s:" % u, "    pass"], ["import zeta_mod as %s" % u], ["import %s" % u], ["from zeta_mod import %s" % u], ["from zeta_mod import beta as %s" % u],
        ["try:", "    g(1)", "except ValueError as %s:" % u, "    g(%s)" % u], ["g([%s for %s in va])" % (u, u)], ["g(lambda %s: %s)" % (u, u)],
        ["if (%s := va):" % u, "    g(%s)" % u], ["(%s, *va) = vb" % u], ["%s += 1" % u], ["g(%s)" % u], ["%s.attr = va" % u], ["%s[0] = va" % u], ["del %s" % u],
        ["match va:", "    case [%s, 1]:" % u, "        g(%s)" % u], ["match va:", "    case [1, *%s]:" % u, "        g(%s)" % u], ["match va:", "    case {'k': 1, **%s}:" % u, "        g(%s)" % u],
        ["def fn_%s():" % u, "    global %s" % u, "    %s = 2" % u], ["%s: int = 3" % u], ["g(f'{%s}')" % u], ["return_%s = yt = %s" % (u, u)], ["@%s" % u, "def deco(): pass"],
        ["async def fn_%s(*%s):" % (u, u), "    return %s" % u],
    ])


def place(d, i, e):
    """Lines with the call expression e somewhere in a statement."""
    k = d.int(0, 9)
    if k <= 2:
        return ["y%d = %s" % (i, e)]
    if k == 3:
        return ["def fm_%d(va, xt):" % i, "    yy = %s" % e, "    return yy"]
    if k == 4:
        return ["g(%s)" % e]
    if k == 5:
        return ["if va:", "    y%d = %s" % (i, e), "else:", "    y%d = 0" % i]
    if k == 6:
        return ["for ii in va:", "    y%d = %s" % (i, e)]
    if k == 7:
        return ["class Kc%d:" % i, "    def m(self, xt):", "        self.q = %s" % e]
    if k == 8:
        return [e]
    return ["y%d = [1, %s]" % (i, e)]


def indent(ls):
    return ["    " + l for l in ls]


def head(calls):
    return ["import %s" % o for o in sorted(set().union({"torch"}, *[owners(c) for c in calls]))]


class Taken(Family):
    """Names are given to the program's own variables that the conversion of that very
    program would otherwise use; the result must be that of the program with harmless
    names, renamed."""

    name = "names_in_use"
    quick, thorough = 320, 16000

    def gen(self, d):
        calls = []
        for _ in range(d.int(1, 3)):
            _, es = d.choice(temps())
            calls.append(d.choice(es))
        body = []
        for i, c in enumerate(calls):
            body.append(place(d, i, c))
        for u in USER[:d.int(1, 4)]:
            body.insert(d.int(0, len(body)), use(d, u))
        if d.bool(30):
            body = [["def main_fn(va, vb, xt):"] + indent([l for b in body for l in b])]
        lines = head(calls) + [l for b in body for l in b]
        src = "\n".join(lines) + "\n"
        try:
            ast.parse(src)
            compile(src, "<x>", "exec")
        except (SyntaxError, ValueError):
            return None
        return {"src": src, "pick": [d.int(0, 40) for _ in range(6)], "back": d.bool(20), "dir": d.bool(15)}

    def conv(self, src, dr):
        if dr:
            out, _, _ = convert_dir({"a.py": src, "b.py": "z = 1\n"})
            return out["a.py"]
        return convert(src).code

    def check(self, c):
        src = c["src"]
        a = in_child(self.conv, src, c["dir"])
        gen = sorted(new_names(src, a))
        us = [u for u in USER if re.search(r"\b%s\b" % u, src)]
        if not gen or not us:
            return Info(False)
        ren = {}
        left = list(gen)
        for u, k in zip(us, c["pick"]):
            if not left:
                break
            n = left.pop(k % len(left))
            # sometimes the number after it, which is used when the first one is taken
            if c["back"] and ren and TMP.match(next(iter(ren.values()))):
                p, q = next(iter(ren.values())).rsplit("_", 1)
                n = "%s_%d" % (p, int(q) + 1)
                if n in ren.values():
                    continue
            ren[u] = n
        src2 = re.sub(r"\b(%s)\b" % "|".join(USER), lambda m: ren.get(m[0], m[0]), src)
        b = in_child(self.conv, src2, c["dir"])
        back = {v: k for k, v in ren.items()}
        b2 = re.sub(r"\b(%s)\b" % "|".join(map(re.escape, back)), lambda m: back[m[0]], b) if back else b
        try:
            x, y = (dump(norm_tree(strip_kind(ast.parse(strip_marks(t))), keep=set(us))) for t in (a, b2))
        except SyntaxError as e:
            raise Violation("the output is no program: %s\n%s" % (e, b), "taken-syntax")
        if x != y:
            raise Violation("a generated variable has a name of the program: %s\n--- input\n%s\n--- output\n%s" % (first_diff(x, y), src2, b), "taken")
        return Info(bool(ren))


def count_of(e):
    """Number of variables the conversion of `y = e` alone introduces."""
    k = "n:" + e
    if k not in _c:
        src = "\n".join(head([e])) + "\ny = %s\n" % e
        _c[k] = len(new_names(src, convert(src).code))
    return _c[k]


class Distinct(Family):
    """Every call gets variables of its own."""

    name = "distinct_names"
    quick, thorough = 450, 30000

    def gen(self, d):
        body, calls = [], []
        for i in range(d.int(2, 6)):
            _, es = d.choice(temps())
            e = d.choice(es)
            calls.append(e)
            if d.bool(20):
                # a second one inside an opaque call in place of a variable
                _, es2 = d.choice(temps())
                e2 = d.choice(es2)
                t = ast.parse(e, mode="eval").body
                spots = [n for n in ast.walk(t) if isinstance(n, ast.Call)]
                args = [(n, j) for n in spots[:1] for j, x in enumerate(n.args) if isinstance(x, ast.Name)]
                if args:
                    n, j = d.choice(args)
                    n2 = copy.deepcopy(t)
                    n.args[j] = ast.parse("h(%s)" % e2, mode="eval").body
                    n2.args[j] = ast.parse("h(zz)", mode="eval").body
                    calls[-1] = ast.unparse(n2)
                    calls.append(e2)
                    e = ast.unparse(t)
            body.append(place(d, i, e))
        if d.bool(20):
            body = [["def main_fn(va, vb, xt):"] + indent([l for b in body for l in b])]
        return {"src": "\n".join(head(calls) + [l for b in body for l in b]) + "\n", "calls": calls}

    def check(self, c):
        r = convert(c["src"])
        if r.fail:
            # a nested expression may make a call inconvertible
            return Info(False)
        got = new_names(c["src"], r.code)
        want = sum(count_of(e) for e in c["calls"])
        if len(got) < want:
            raise Violation("%d calls that introduce %d variables alone introduce %d together %s\n--- input\n%s\n--- output\n%s" % (len(c["calls"]), want, len(got), sorted(got), c["src"], r.code), "shared")
        return Info(want > 1)


def helper_names(e):
    """Names of the functions and classes of the helper code of one call."""
    k = "h:" + e
    if k not in _c:
        out, _, _ = convert_dir({"a.py": "\n".join(head([e])) + "\ny = %s\n" % e})
        _c[k] = sorted({s.name for s in ast.parse(out[UTIL]).body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}) if UTIL in out else []
    return _c[k]


BINDERS = {
    "function": ["def {0}(va):", "    return va"], "class": ["class {0}:", "    pass"], "variable": ["{0} = va"], "import": ["from zeta_mod import {0}"],
}


class Helpers(Family):
    """The program's own functions, classes and variables against the helper functions."""

    name = "helper_names"

    def setup_main(self):
        helped()

    def cases(self, tier, seed):
        out = []
        for nm, es in helped():
            for j in range(1 if tier == "quick" else 4):
                e = es[(seed + j * 5) % len(es)]
                for n in helper_names(e):
                    out.append({"api": nm, "e": e, "n": n, "bind": sorted(BINDERS)[(len(out) + seed) % 4], "dir": (len(out) + seed) % 2 == 0})
        return out

    def check(self, c):
        src = "\n".join(head([c["e"]]) + ["y = 1"] + [l.format(c["n"]) for l in BINDERS[c["bind"]]] + ["y = " + c["e"]]) + "\n"
        util = ""
        if c["dir"]:
            out, _, _ = convert_dir({"a.py": src})
            text, util = out["a.py"], out.get(UTIL, "")
        else:
            text = convert(src).code
        t = ast.parse(strip_marks(text))
        binds = [s for s in t.body if is_import(s) and c["n"] in [(a.asname or a.name).split(".")[0] for a in s.names] or not is_import(s) and c["n"] in bound(ast.Module(body=[s] if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else [ast.parse("%s = 1" % s.name).body[0]], type_ignores=[]))]
        inutil = [s for s in ast.parse(util).body if getattr(s, "name", None) == c["n"]] if util else []
        star = any(isinstance(s, ast.ImportFrom) and s.module == "paddle_utils" for s in t.body)
        if len(binds) + (len(inutil) if star else 0) > 1:
            raise Violation("%s of the program and the helper function of the same name are one name\n--- input\n%s\n--- output\n%s" % (c["n"], src, text), "helper-clash:" + c["n"])
        return Info(True)


class OwnUtils(Family):
    """A project with a paddle_utils.py of its own (as converted projects have) keeps what
    is in it, besides the helper functions of this conversion."""

    name = "own_paddle_utils"
    quick, thorough = 120, 5000

    def gen(self, d):
        a = [d.choice(d.choice(helped())[1]) for _ in range(d.int(1, 3))]
        b = [d.choice(d.choice(helped())[1]) for _ in range(d.int(0, 2))]
        own = d.choice([None, "def my_util(va):\n    return va\n", "import torch\n\ndef my_util(va):\n    return torch.abs(va)\n\nclass Kc:\n    pass\n", '"""doc"""\nimport os\nCONST = 1\n', ""])
        return {"first": a, "then": b, "own": own}

    def check(self, c):
        # torch.onnx.export's helper is a known finding of C13
        first = [e for e in c["first"] if "onnx.export" not in e]
        then = [e for e in c["then"] if "onnx.export" not in e]
        if c["own"] is None:
            # the project is converted, extended and converted again
            if not first:
                return Info(False)
            out, _, _ = convert_dir({"a.py": "\n".join(head(first) + ["y%d = %s" % (i, e) for i, e in enumerate(first)]) + "\n"})
            files = {k: v.replace("/T/out", "/T/in") for k, v in out.items()}
            if UTIL not in files:
                return Info(False)
        else:
            files = {UTIL: c["own"], "a.py": "\n".join(head(first) + ["from paddle_utils import *"] + ["y%d = %s" % (i, e) for i, e in enumerate(first)]) + "\n"}
        if then:
            files["b.py"] = "\n".join(head(then) + ["y%d = %s" % (i, e) for i, e in enumerate(then)]) + "\n"
        alone, _, _ = convert_dir({k: v for k, v in files.items() if k == UTIL})
        out, _, _ = convert_dir(files)
        was = [dump(strip_kind(s)) for s in ast.parse(strip_marks(alone[UTIL])).body if not is_import(s)]
        if UTIL not in out:
            raise Violation("the project's paddle_utils.py is missing from the output", "own-missing")
        now = [dump(strip_kind(s)) for s in ast.parse(strip_marks(out[UTIL])).body if not is_import(s)]
        lost = [ast.unparse(s)[:80] for s in ast.parse(strip_marks(alone[UTIL])).body if not is_import(s) and dump(strip_kind(s)) not in now]
        if lost:
            raise Violation("the conversion loses parts of the project's own paddle_utils.py: %s\n--- input\n%s\n--- output\n%s" % (lost, files[UTIL][:2500], out[UTIL][:2500]), "own-lost")
        imps = {(getattr(s, "module", None), a.name, a.asname) for s in ast.parse(strip_marks(alone[UTIL])).body if is_import(s) for a in s.names}
        imps2 = {(getattr(s, "module", None), a.name, a.asname) for s in ast.parse(strip_marks(out[UTIL])).body if is_import(s) for a in s.names}
        if imps - imps2:
            raise Violation("the conversion loses imports of the project's own paddle_utils.py: %s\n%s" % (sorted(imps - imps2, key=str), out[UTIL][:2500]), "own-import")
        need = set()
        for e in then + (first if c["own"] is not None else []):
            o, _, _ = convert_dir({"a.py": "\n".join(head([e])) + "\ny = %s\n" % e})
            need |= {dump(strip_kind(s)) for s in ast.parse(o.get(UTIL, "")).body if not is_import(s)}
        if need - set(now):
            raise Violation("helper code is missing from paddle_utils.py\n--- input\n%s\n--- output\n%s" % (files, out[UTIL][:2500]), "own-helper")
        return Info(bool(was) and bool(need))


PADDLE = {
    "parameter": "def fn(paddle):\n    return {e}\n", "variable": "paddle = va\ny = {e}\n", "loop": "for paddle in va:\n    y = {e}\n", "function": "def paddle(va):\n    return va\ny = {e}\n",
    "class": "class paddle:\n    pass\ny = {e}\n", "import": "import zeta_mod as paddle\ny = {e}\n", "local": "def fn(va):\n    paddle = va\n    return {e}\n", "with": "with va as paddle:\n    y = {e}\n",
}


class PaddleName(Family):
    """A program's own variable called like the imported package."""

    name = "package_name"

    def cases(self, tier, seed):
        return [{"kind": k, "e": e} for k in sorted(PADDLE) for e in ("torch.abs(xt)", "torch.nn.functional.relu(xt)")]

    def check(self, c):
        src = "import torch\n" + PADDLE[c["kind"]].format(e=c["e"])
        r = convert(src)
        t = parse_out(r, src)
        own = [n for n in ast.walk(t) if "paddle" in bound(ast.Module(body=[n], type_ignores=[])) and not (isinstance(n, ast.Import) and any(a.name == "paddle" for a in n.names)) and isinstance(n, (ast.Name, ast.arg, ast.FunctionDef, ast.ClassDef, ast.Import))]
        uses = [n for n in ast.walk(t) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "paddle"]
        if own and uses:
            raise Violation("the program's own name paddle hides the package\n--- input\n%s\n--- output\n%s" % (src, r.code), "paddle-name:" + c["kind"])
        return Info(True)


class C(Check):
    id = "C19"
    rule = "names_in_use: some variable was renamed to a generated name; distinct_names: at least two variables are generated; own_paddle_utils: both own and helper code exist; distinct cases"
    assumptions = ["which calls introduce variables or helper code is read from the recorded mapping and only aims the generator"]
    families = [Taken(), Distinct(), Helpers(), OwnUtils(), PaddleName()]


CHECK = C()
