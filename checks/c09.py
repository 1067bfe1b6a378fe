"""C09: a project directory is mirrored completely and exactly."""
import ast
import base64
import os
import re

from pv import env
from pv.conv import Violation, crash_sig, new_converter, strip_marks
from pv.norm import is_import, norm_tree, strip_kind
from pv.runner import Check, Family, Info
from pv.trees import gen_tree, materialise, rm, snapshot

EXC = ["tests", "util_a", r"model\.py$", "deep", "zzz_nothing", r"\.md$", "data_x,README", r"src/.*\.py$", "v1.0", "requirements"]


def hidden(rel):
    return any(p.startswith(".") for p in rel.split("/"))


def excluded(rel, pats, root):
    """A path is left out when it, or a directory above it inside the project, matches."""
    parts = rel.split("/")
    for i in range(1, len(parts) + 1):
        p = os.path.join(root, *parts[:i])
        if any(re.search(x, p) for x in pats):
            return True
    return False


def req_model(text):
    out = []
    for line in text.split("\n"):
        m = re.match(r"[ \t]*([A-Za-z0-9._-]+)", line)
        if m and m.group(1) == "torch":
            line = line[: m.start(1)] + "paddlepaddle-gpu" + line[m.end(1):]
        out.append(line)
    return "\n".join(out)


def norm_py(text):
    t = norm_tree(strip_kind(ast.parse(strip_marks(text))))
    marks = sum(l.startswith(">>>>>>") for l in text.split("\n"))
    return ast.dump(t), marks


def run(ind, outd, exclude=None, **kw):
    kw.setdefault("no_format", True)
    try:
        return new_converter(**kw).run(ind, outd, exclude)
    except Exception as e:
        raise Violation("conversion of a project raised %r" % e, crash_sig(e))


class Mirror(Family):
    name = "project_tree"
    quick, thorough = 300, 5000

    def gen(self, d):
        tree = gen_tree(d)
        exc = None
        if d.bool(45):
            pats = d.sample(EXC, d.int(1, 2))
            parts = sorted({q for k in tree for q in k.split("/")})
            if parts and d.bool(60):
                pats += [re.escape(x) + d.choice(["", "$"]) for x in d.sample(parts, d.int(1, 2))]
            exc = ",".join(d.perm(pats))
        return {"tree": tree, "exclude": exc, "pre": d.bool(30), "form": d.int(0, 3), "alone": d.int(0, 20)}

    def check(self, case):
        d = env.fresh_dir("mir")
        try:
            return self._check(case, d)
        finally:
            os.chdir("/")
            rm(d)

    def _check(self, case, d):
        ind, outd = os.path.join(d, "in"), os.path.join(d, "o", "out")
        tree = case["tree"]
        materialise(ind, tree)
        if case["pre"]:
            # outputs of an earlier run and unrelated files, also in directories that are mirrored
            pre = {"keep.txt": ["bin", "AAEC"], "main.py": ["py", "old = 1\n"], "pkg/old.py": ["py", "import torch\n"]}
            for q in sorted({os.path.dirname(k) for k in tree} - {""}):
                pre[q + "/kept_%d.bin" % len(pre)] = ["bin", "AAEC"]
            # outdated outputs that are newer than the input, some of exactly the size of the new one
            for i, (q, v) in enumerate(sorted(tree.items())):
                n = len(base64.b64decode(v[1]) if v[0] == "bin" else v[1].encode("utf-8")) if v[0] in ("bin", "req", "py") else 0
                if n and i % 3:
                    pre[q] = ["bin", base64.b64encode(b"#" * (n + i % 3 - 1)).decode()]
            materialise(outd, pre)
            before = snapshot(outd)
        a, b = ind, outd
        if case["form"] == 1:
            a, b = ind + "/", outd + "/"
        elif case["form"] == 2:
            os.chdir(d)
            a, b = "in", "o/out"
        elif case["form"] == 3:
            a, b = os.path.join(d, "x", "..", "in"), os.path.join(d, ".", "o", "out")
        counts = run(a, b, case["exclude"])
        got = snapshot(outd) if os.path.isdir(outd) else {}
        pats = (case["exclude"].split(",") if case["exclude"] else []) + ["__pycache__"]
        exp = {}
        for rel, v in tree.items():
            if hidden(rel) or excluded(rel, pats, ind):
                continue
            exp[rel] = v
        where = "tree: %s\nexclude: %r" % ({k: v if v[0] != "py" else ["py", v[1][:300]] for k, v in tree.items()}, case["exclude"])
        gotf = {k for k, v in got.items() if v[0] == "file"} - ((set(before) - set(exp)) if case["pre"] else set())
        if case["pre"]:
            for k, v in before.items():
                if v[0] == "file" and k not in exp and got.get(k) != v:
                    raise Violation("the unrelated file %s already in the output directory was %s\n%s" % (k, "changed" if k in got else "removed", where), "clobbered")
        expf = {k for k, v in exp.items() if v[0] != "dir"}
        extra, miss = gotf - expf - {"paddle_utils.py"}, expf - gotf
        if miss or extra:
            raise Violation("missing from the output: %s; unexpected: %s\n%s" % (sorted(miss), sorted(extra), where), "file-set:%s%s" % ("-" if miss else "", "+" if extra else ""))
        for rel, v in exp.items():
            if v[0] == "dir" and rel not in got:
                raise Violation("directory %s is missing from the output\n%s" % (rel, where), "dir-missing")
        for rel, v in exp.items():
            if v[0] == "bin" and got[rel][2] != base64.b64decode(v[1]):
                raise Violation("%s was not copied byte for byte: %r -> %r\n%s" % (rel, base64.b64decode(v[1])[:80], got[rel][2][:80], where), "copy")
            if v[0] == "req" and got[rel][2].decode("utf-8") != req_model(v[1]):
                raise Violation("%s: %r -> %r, expected %r" % (rel, v[1], got[rel][2].decode(), req_model(v[1])), "requirements")
        # every source file converts as if it were alone in the project
        pys = sorted(k for k, v in exp.items() if v[0] == "py")
        helpers = ""
        tot = [0, 0]
        for i, rel in enumerate(pys):
            dd = os.path.join(d, "alone%d" % i)
            materialise(os.path.join(dd, "in"), {rel: tree[rel]})
            ok, fail = run(os.path.join(dd, "in"), os.path.join(dd, "out"))
            tot[0] += ok
            tot[1] += fail
            with open(os.path.join(dd, "out", rel), encoding="utf-8") as f:
                want = f.read()
            u = os.path.join(dd, "out", "paddle_utils.py")
            if os.path.exists(u):
                with open(u, encoding="utf-8") as f:
                    helpers += f.read()
            have = got[rel][2].decode("utf-8")
            try:
                same = norm_py(want.replace(os.path.join(dd, "out"), "OUT")) == norm_py(have.replace(outd, "OUT"))
            except SyntaxError:
                same = want == have
            if not same:
                raise Violation("%s converts differently in the project than alone\n--- input\n%s\n--- alone\n%s\n--- in project\n%s\n%s" % (rel, tree[rel][1][:1500], want[:1500], have[:1500], where), "not-as-alone")
            rm(dd)
        if tuple(tot) != tuple(counts):
            raise Violation("the project reports %r, its files separately %r\n%s" % (counts, tuple(tot), where), "counts")
        if bool(helpers) != ("paddle_utils.py" in got) and not (case["pre"]):
            raise Violation("helper file is %s\n%s" % ("missing" if helpers else "unexpected", where), "helper-file")
        if helpers:
            defs = lambda t: {ast.dump(strip_kind(s)) for s in ast.parse(t).body if not is_import(s)}
            hv = got["paddle_utils.py"][2].decode("utf-8")
            if defs(hv) != defs(helpers):
                raise Violation("the project's helper file is not the union of what its files need\n--- have\n%s\n--- need\n%s" % (hv[:2500], helpers[:2500]), "helper-union")
        return Info(len(exp) >= 2)


class C(Check):
    id = "C09"
    rule = "at least two files or directories are to be mirrored; distinct trees"
    assumptions = [
        "trees up to depth 3 with Python, binary, text, requirements, hidden and cache files, odd names, optional exclude patterns (matched on the path from the project root on) and pre-existing output",
        "no generated name shadows a PyTorch-family package (that is C17)",
    ]
    families = [Mirror()]


CHECK = C()
