"""C18: options and entry points change only what they say."""
import ast
import copy
import io
import os
import sys

from pv import api, env, frag
from pv.conv import MARK, Violation, convert, convert_dir, parse_out, strip_marks
from pv.fmt import fmt_norm
from pv.iso import ChildDied, in_child
from pv.norm import dump, first_diff, idents, is_import, norm_tree, strip_kind
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info
from pv.trees import gen_tree, materialise, rm, snapshot
from checks.c02 import rich_gen
from checks.c04 import PKGS, Forms, Respell, chain, skip_head


def marked(text):
    return sum(l.startswith(MARK) for l in text.split("\n"))


# ---------------------------------------------------------------- formatting
class Layout(Family):
    """The formatted output is the unformatted one up to layout and import order."""

    name = "formatting"
    quick, thorough = 220, 9000

    def gen(self, d):
        src = rich_gen(d)
        return None if src is None else {"src": src, "min": d.bool(10)}

    def check(self, c):
        kw = {"mode": "min"} if c["min"] else {}
        a, b = convert(c["src"], **kw), convert(c["src"], no_format=False, **kw)
        x, y = (dump(fmt_norm(norm_tree(parse_out(r, c["src"])))) for r in (a, b))
        if x != y:
            raise Violation("formatting changes more than the layout: %s\n--- input\n%s\n--- unformatted\n%s\n--- formatted\n%s" % (first_diff(x, y), c["src"][:2000], a.code[:2000], b.code[:2000]), "format-tree")
        if (a.ok, a.fail) != (b.ok, b.fail):
            raise Violation("formatting changes the counts\n%s" % c["src"], "format-count")
        if bool(marked(a.code)) != bool(marked(b.code)):
            raise Violation("formatting changes the marks\n--- input\n%s\n--- unformatted\n%s\n--- formatted\n%s" % (c["src"][:2000], a.code[:2000], b.code[:2000]), "format-mark")
        return Info(a.code != b.code)


# ---------------------------------------------------------------- only_complete
class Canon(ast.NodeTransformer):
    def visit_Attribute(self, n):
        c = chain(n)
        if c is None:
            return self.generic_visit(n)
        full = ".".join(c)
        new = api.alias().get(full, full)
        return n if new == full else ast.parse(new, mode="eval").body


class FullNames(Forms):
    """Expanding names only: the program with every imported API name written in full."""

    name = "full_names_only"
    quick, thorough = 500, 20000

    def check(self, c):
        r = convert(c["respelled"], only_complete=True)
        if (r.ok, r.fail) != (0, 0) or marked(r.code) > marked(c["respelled"]):
            raise Violation("expanding names converts, counts or marks something: %r\n--- input\n%s\n--- output\n%s" % ((r.ok, r.fail), c["respelled"][:2000], r.code[:2000]), "complete-count")
        t = ast.parse(c["canonical"])
        want = [s for s in strip_kind(Canon().visit(t)).body if not is_import(s)]
        got = [s for s in strip_kind(ast.parse(r.code)).body if not is_import(s)]
        a, b = (dump(ast.Module(body=x, type_ignores=[])) for x in (want, got))
        if a != b:
            raise Violation("expanding names changes something else: %s\n--- input\n%s\n--- output\n%s" % (first_diff(a, b), c["respelled"][:2000], r.code[:2000]), "complete-tree")
        other = {ast.unparse(s) for s in t.body if is_import(s) and not any(a.name.split(".")[0] in PKGS for a in getattr(s, "names", []) if isinstance(s, ast.Import)) and not (isinstance(s, ast.ImportFrom) and (s.module or "").split(".")[0] in PKGS)}
        lost = other - {ast.unparse(s) for s in ast.parse(r.code).body}
        if lost:
            raise Violation("expanding names loses imports %s\n--- input\n%s\n--- output\n%s" % (sorted(lost), c["respelled"][:2000], r.code[:2000]), "complete-import")
        return Info(c["canonical"] != c["respelled"])


# ---------------------------------------------------------------- command line
class World:
    def __init__(self):
        self.d = env.fresh_dir("cli")
        self.cwd = os.path.join(self.d, "cwd")
        os.makedirs(self.cwd)

    def close(self):
        rm(self.d)


def _quiet():
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)
    sys.stdout = sys.stderr = io.StringIO()


def _cli(cwd, argv):
    """Run the command line in this (child) process; the spreadsheet writer is replaced."""
    import logging

    import pandas

    _quiet()
    logging.disable(logging.NOTSET)
    os.chdir(cwd)
    pandas.DataFrame.to_excel = lambda self, path, **kw: open(path, "w").close()
    sys.argv = ["paconvert"] + argv
    from paconvert.main import main

    try:
        main()
    except SystemExit as e:
        return "exit %r" % (e.code,)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return "ok"


def _lib(cwd, ind, outd, exclude, kw):
    import logging

    from paconvert.converter import Converter

    _quiet()
    os.chdir(cwd)
    try:
        Converter(log_dir="disable", **kw).run(ind, outd, exclude)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return "ok"


def contents(root, d):
    """{relative path: bytes} with the scratch directory's name replaced"""
    out = {}
    if os.path.isfile(root):
        with open(root, "rb") as f:
            return {"": f.read().replace(d.encode(), b"/T")}
    for base, dirs, names in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), root) + "/"] = b""
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read().replace(d.encode(), b"/T")
    return out


class Cli(Family):
    """The command line with any options against the library call with those that matter."""

    name = "command_line"
    quick, thorough = 45, 1800

    def gen(self, d):
        tree = gen_tree(d, depth=2)
        pys = [k for k, v in tree.items() if v[0] == "py" and k.endswith(".py") and not k.startswith(".")]
        if not pys:
            tree["main.py"] = ["py", "import torch\ny = torch.abs(x)\nz = torch.nn.functional.softmin(x)\n"]
            pys = ["main.py"]
        opts = []
        for o in ("--no_format", "--only_complete", "--log_markdown", "--calculate_speed", "--show_all_api", "--show_unalign_api", "--show_unsupport_api"):
            if d.bool(30):
                opts.append([o])
        if d.bool(40):
            opts.append([d.choice(["-m", "--mode"]), d.choice(["min", "default"])])
        if d.bool(40):
            opts.append(["--log_level", d.choice(["INFO", "WARNING", "DEBUG"])])
        if d.bool(40):
            opts.append(["--log_dir", d.choice(["run.log", "disable"])])
        exc = d.choice([None, None, "util", r"\.md$,model", "nothing_q"])
        if exc:
            opts.append([d.choice(["-e", "--exclude"]), exc])
        return {"tree": tree, "file": d.choice(pys) if d.bool(40) else None, "opts": d.perm(opts), "out": d.int(0, 3), "rel": d.bool(40), "exc": exc}

    def shrinks(self, c):
        for i in range(len(c["opts"])):
            yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:], exc=c["exc"] if c["exc"] in [o[-1] for o in c["opts"][:i] + c["opts"][i + 1:]] else None)
        for k in list(c["tree"]):
            if k != c["file"]:
                t = dict(c["tree"])
                del t[k]
                yield dict(c, tree=t)

    def check(self, c):
        flat = [x for o in c["opts"] for x in o]
        mode = "min" if "min" in flat else "default"
        kw = {"mode": mode, "no_format": "--no_format" in flat or mode == "min", "only_complete": "--only_complete" in flat}
        res = []
        for side in ("cli", "lib"):
            w = World()
            try:
                root = os.path.join(w.d, "in")
                materialise(root, c["tree"])
                ind = os.path.join(root, c["file"]) if c["file"] else root
                if c["out"] == 0:
                    outd, real = None, os.path.join(w.cwd, "paddle_project")
                else:
                    outd = real = os.path.join(w.d, "out" if not c["file"] else ["", "out.py", "newdir/out.py", "out.py"][c["out"]])
                i, o = ind, outd
                if c["rel"]:
                    i = os.path.relpath(ind, w.cwd)
                    o = os.path.relpath(outd, w.cwd) if outd else None
                if side == "cli":
                    argv = ["-i", i] if len(flat) % 2 else ["--in_dir", i]
                    if o is not None:
                        argv = argv + ["--out_dir", o] if len(flat) % 3 else ["-o", o] + argv
                    try:
                        r = in_child(_cli, w.cwd, argv + flat)
                    except ChildDied as e:
                        r = "died"
                else:
                    r = in_child(_lib, w.cwd, i, o, c["exc"], kw)
                got = contents(real, w.d) if os.path.exists(real) else None
                res.append((r, got))
            finally:
                w.close()
        (r1, a), (r2, b) = res
        if (r1 == "ok") != (r2 == "ok"):
            raise Violation("command line %s: %s; library: %s" % (flat, r1, r2), "cli-status")
        if a != b:
            ks = sorted(k for k in set(a or {}) | set(b or {}) if (a or {}).get(k) != (b or {}).get(k))
            k = ks[0] if ks else ""
            raise Violation("options %s change the result of the command line: %s\n--- command line\n%s\n--- library\n%s" % (flat, ks, ((a or {}).get(k) or b"<none>").decode("utf-8", "replace")[:2000], ((b or {}).get(k) or b"<none>").decode("utf-8", "replace")[:2000]), "cli-differs")
        return Info(bool(flat) and r1 == "ok")


def same_program(a, b):
    """Equal up to the running number of generated names (one number per process)."""
    if a == b:
        return True
    try:
        x, y = (dump(norm_tree(strip_kind(ast.parse(strip_marks(t.decode()))))) for t in (a, b))
    except Exception:
        return False
    return x == y


class Separate(Family):
    """Converting the members of a directory separately gives what converting each does."""

    name = "separate_projects"
    quick, thorough = 12, 400

    def gen(self, d):
        opts = [[o] for o in ("--no_format", "--log_markdown", "--show_all_api", "--only_complete", "--calculate_speed") if d.bool(30)]
        if d.bool(40):
            opts.append(["--mode", d.choice(["min", "min", "default"])])
        exc = d.choice([None, None, None, "util", r"\.md$,model", "proj_b", "main"])
        if exc:
            opts.append(["-e", exc])
        return {"p": {n: gen_tree(d, depth=1) for n in d.sample(["proj_a", "proj_b", "proj_c"], d.int(1, 3))}, "out": d.bool(70), "opts": d.perm(opts), "exc": exc}

    def check(self, c):
        flat = [x for o in c["opts"] for x in o]
        mode = "min" if "min" in flat else "default"
        res = []
        kw = {"mode": mode, "no_format": "--no_format" in flat or mode == "min", "only_complete": "--only_complete" in flat}
        for side in ("cli", "lib"):
            w = World()
            try:
                root = os.path.join(w.d, "in")
                for n, t in c["p"].items():
                    materialise(os.path.join(root, n), t)
                real = os.path.join(w.d, "out") if c["out"] else os.path.join(w.cwd, "paddle_project")
                if side == "cli":
                    r = in_child(_cli, w.cwd, ["--separate_convert", "-i", root] + (["-o", real] if c["out"] else []) + flat)
                else:
                    for n in os.listdir(root):
                        r = in_child(_lib, w.cwd, os.path.join(root, n), real if c["out"] else None, c["exc"], kw)
                res.append((r, contents(real, w.d) if os.path.exists(real) else None))
            finally:
                w.close()
        (r1, a), (r2, b) = res
        if r1 != "ok" or r2 != "ok":
            raise Violation("separate conversion: %s; library: %s" % (r1, r2), "separate-status")
        # where projects share file names the last one wins, and the order of projects is
        # that of the directory: compare what is unambiguous
        names = [k for t in c["p"].values() for k in t]
        amb = {k for k in names if names.count(k) > 1}
        for k in sorted(set(a or {}) | set(b or {})):
            if k in amb or k == "paddle_utils.py":
                continue
            if not same_program((a or {}).get(k), (b or {}).get(k)):
                raise Violation("separate conversion differs in %s\n--- command line\n%s\n--- library\n%s" % (k, ((a or {}).get(k) or b"<none>").decode("utf-8", "replace")[:2000], ((b or {}).get(k) or b"<none>").decode("utf-8", "replace")[:2000]), "separate-differs")
        return Info(len(c["p"]) > 1)


# ---------------------------------------------------------------- excluded packages
class RenPkg(ast.NodeTransformer):
    """Renames package roots: in imports, and names bound by `import pkg`."""

    def __init__(self, m):
        self.m = m

    def dot(self, s):
        h, *t = s.split(".")
        return ".".join([self.m.get(h, h)] + t)

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def visit_Import(self, n):
        for a in n.names:
            a.name = self.dot(a.name)
        return n

    def visit_ImportFrom(self, n):
        if n.module and not n.level:
            n.module = self.dot(n.module)
        return n


class Excluded(Family):
    """An excluded package is treated as any other library: converting with it excluded
    equals converting the program with the package renamed to an unknown one."""

    name = "excluded_packages"
    quick, thorough = 120, 8000

    def setup_main(self):
        import paconvert.main  # noqa: F401  once, before the workers fork
        import pandas  # noqa: F401

    def gen(self, d):
        pk = d.sample(["torchvision", "transformers", "flash_attn", "fairscale", "torch"], d.int(1, 2))

        def extra(g, m):
            val = (lambda p: frag.literalish(d, g, m - 1)) if m > 0 else (lambda p: name("u"))
            if d.bool(50):
                p = d.choice(pk + ["torch"])
                nm = d.choice(names(p))
            else:
                nm = frag.pick_api(d, ("rich", "prefix"))
            return frag.api_call(d, nm, val) if not d.bool(15) or api.is_method(nm) else frag.dotted(nm)

        g = Gen(d, extra_expr=extra, extra_rate=20)
        tree = g.module(2, 1, 3)
        if d.bool(50):
            rs = Respell(d, idents(tree) | set(PKGS) | {"self", "data", "args", "arg", "ndarray", "paddle"})
            tree = rs.visit(tree)
            imps = rs.imports
        else:
            imps = [ast.Import(names=[ast.alias(name=p)]) for p in sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id in PKGS})]
        i = skip_head(tree.body)
        tree.body[i:i] = imps
        src = render(tree)
        if src is None:
            return None
        ex = d.perm(pk + d.sample(["unknown_q", "einops", "timm", "mmcv"], d.int(0, 2)))
        return {"src": src, "ex": ex, "all": d.bool(), "opt": ["--no_format"] + (["-m", "min"] if d.bool(10) else [])}

    def check(self, c):
        m = {p: "zeta_%s_q" % p for p in c["ex"]}
        if "torch" in c["ex"]:
            return self.no_torch(c)
        t = ast.parse(c["src"])
        src2 = ast.unparse(RenPkg(m).visit(t)) + "\n"
        a, b = self.run(c["src"], c["ex"], c["opt"]), self.run(src2, [], c["opt"])
        ta = fmt_norm(norm_tree(strip_kind(ast.parse(strip_marks(a)))))
        tb = fmt_norm(norm_tree(RenPkg({v: k for k, v in m.items()}).visit(strip_kind(ast.parse(strip_marks(b))))))
        x, y = dump(tb), dump(ta)
        if x != y:
            raise Violation("excluding %s: %s\n--- input\n%s\n--- output\n%s" % (c["ex"], first_diff(x, y), c["src"][:2500], a[:2500]), "exclude-differs")
        if marked(a) != marked(b):
            raise Violation("excluding %s changes the marks\n--- input\n%s\n--- output\n%s" % (c["ex"], c["src"][:2500], a[:2500]), "exclude-marks")
        return Info(src2 != ast.unparse(ast.parse(c["src"])) + "\n" and "paddle" in a)


    def no_torch(self, c):
        """Without torch its methods are left alone too; without any package, everything is."""
        pk = c["ex"] if not c["all"] else sorted(PKGS)
        a = self.run(c["src"], pk, c["opt"])
        if c["all"]:
            x, y = (dump(norm_tree(strip_kind(ast.parse(s)))) for s in (c["src"], a))
            if x != y or marked(a):
                raise Violation("excluding every package: %s\n--- input\n%s\n--- output\n%s" % (first_diff(x, y), c["src"][:2500], a[:2500]), "exclude-all")
        return Info(c["all"])

    def run(self, src, ex, opt):
        w = World()
        try:
            p, o = os.path.join(w.d, "a.py"), os.path.join(w.d, "out.py")
            with open(p, "w") as f:
                f.write(src)
            r = in_child(_cli, w.cwd, ["-i", p, "-o", o] + opt + (["--exclude_packages", ",".join(ex)] if ex else []))
            if r != "ok":
                raise Violation("conversion with excluded packages %s: %s\n%s" % (ex, r, src[:2500]), "exclude-status")
            with open(o, encoding="utf-8") as f:
                return f.read()
        finally:
            w.close()


_c = {}


def names(p):
    if p not in _c:
        _c[p] = [n for n, v in sorted(api.apis().items()) if api.owner(n) == p and v["kind"] == "api" and not api.is_method(n)]
    return _c[p]


class C(Check):
    id = "C18"
    rule = "formatting: it changes the text; full_names_only: some name was imported in another form; command_line: options given; separate_projects: two or more; excluded_packages: the package is used and something else converted; distinct cases"
    assumptions = [
        "formatting may reorder imports and re-indent docstrings and string statements",
        "the spreadsheet writer is replaced (openpyxl is not installed)",
        "--run_check writes inside the installed package and is not run",
    ]
    families = [Layout(), FullNames(), Cli(), Separate(), Excluded()]


CHECK = C()
