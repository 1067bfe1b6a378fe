"""C20: the log tells what became of every use, in which file and line."""
import ast
import collections
import io
import logging
import os
import re
import shutil
import sys

from pv import api, env, frag
from pv.conv import Violation, crash_sig, new_converter
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info
from checks.c02 import PKGS
from checks.c04 import Forms

TAG = re.compile(r"^\[([^\]\n]*?)(?::(\d+))?\] (.*)$")
NAME = re.compile(r"(?<![\w.])[A-Za-z_][\w.]*\.[\w.]*\w")


def run_log(ind, outd, level="DEBUG", sink="file", **kw):
    """(converted, not converted, lines of the log)"""
    kw.setdefault("no_format", True)
    d = env.fresh_dir("log")
    log = os.path.join(d, "log.txt")
    err = sys.stderr
    cap = sys.stderr = io.StringIO()
    try:
        c = new_converter(log_dir=log if sink == "file" else None, log_level=level, **kw)
        logging.disable(logging.NOTSET)
        ok, fail = c.run(ind, outd)
    except Exception as e:
        raise Violation("conversion with logging on raised %r" % e, crash_sig(e))
    finally:
        sys.stderr = err
        env.quiet()
    for h in c.logger.handlers[:]:
        h.close()
        c.logger.removeHandler(h)
    logging.Logger.manager.loggerDict.pop(c.logger.name, None)
    try:
        if sink == "file":
            if cap.getvalue():
                raise Violation("with a log file the terminal still gets %r" % cap.getvalue()[:300], "both-sinks")
            with open(log, encoding="utf-8") as f:
                return ok, fail, f.read().split("\n")
        return ok, fail, cap.getvalue().split("\n")
    finally:
        shutil.rmtree(d)


def outcome(msg):
    if "Not Support" in msg:
        return "not"
    if "Success" in msg or "Delete" in msg or "Unchange" in msg:
        return "ok"
    return None


def entries(lines):
    """(file, line, outcome, message) of every use the log tells about"""
    out = []
    for l in lines:
        m = TAG.match(l)
        if m and m.group(2):
            o = outcome(m.group(3))
            if o:
                out.append((m.group(1), int(m.group(2)), o, m.group(3).strip()))
    return out


def program(d, lo=2, hi=5):
    from checks.c07 import off_names

    def extra(g, m):
        k = d.int(0, 11)
        if k <= 1:
            return ast.Call(func=frag.dotted(d.choice(off_names() + frag.UNKNOWN)), args=[g.expr(m - 1)], keywords=[])
        if k == 2:
            return frag.dotted(d.choice(frag.prefix_attrs() + frag.UNKNOWN))
        nm = frag.pick_api(d, ("rich", "prefix", "bare", "rich"))
        return frag.api_call(d, nm, lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u"))

    g = Gen(d, extra_expr=extra, extra_rate=18)
    tree = g.module(2, lo, hi, doc=False, future=False)
    pk = sorted({x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id in PKGS} | {"torch"})
    tree.body[:0] = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
    return render(tree)


class Dir:
    def __init__(self, files):
        self.d = env.fresh_dir("lg")
        self.ind, self.outd = os.path.join(self.d, "in"), os.path.join(self.d, "out")
        for rel, text in files.items():
            p = os.path.join(self.ind, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def nodes_by_line(src):
    """how often each name stands as an attribute or a name in a node that starts there"""
    c = collections.Counter()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Attribute):
            c[n.lineno, n.attr] += 1
        elif isinstance(n, ast.Name):
            c[n.lineno, n.id] += 1
    return c


class Lines(Family):
    """As many uses are logged as counted, each at the line where it stands; moving
    statements down moves the line numbers with them and changes nothing else."""

    name = "lines_and_counts"
    quick, thorough = 450, 25000

    def gen(self, d):
        src = program(d)
        if src is None:
            return None
        n = len(ast.parse(src).body)
        return {"src": src, "pads": [[d.int(0, n - 1), d.int(1, 4)] for _ in range(d.int(1, 3))], "min": d.bool(15)}

    def run(self, src, c):
        with Dir({"a.py": src}) as w:
            ok, fail, lines = run_log(os.path.join(w.ind, "a.py"), os.path.join(w.outd, "a.py"), mode="min" if c["min"] else "default")
            lines = [l.replace(w.d, "/T") for l in lines]
        return ok, fail, lines

    def check(self, c):
        src = c["src"]
        ok, fail, lines = self.run(src, c)
        es = entries(lines)
        show = "--- input\n%s\n--- log\n%s" % ("\n".join("%3d %s" % x for x in enumerate(src.split("\n"), 1))[:3000], "\n".join("[%s:%d] %s" % (e[0], e[1], e[3]) for e in es)[:2500])
        n = collections.Counter(e[2] for e in es)
        if n["not"] != fail:
            raise Violation("%d uses are reported as not converted, the log names %d\n%s" % (fail, n["not"], show), "log-not-count")
        if n["ok"] != ok:
            raise Violation("%d uses are reported as converted, the log names %d\n%s" % (ok, n["ok"], show), "log-ok-count")
        have = nodes_by_line(src)
        used = collections.Counter()
        for f, line, o, msg in es:
            if f != "a.py":
                raise Violation("the log names the file %r\n%s" % (f, show), "log-file")
            if line > src.count("\n") + 1:
                raise Violation("the log names line %d which the file does not have\n%s" % (line, show), "log-line")
            nm = NAME.findall(msg)
            if not nm:
                continue
            m = re.search(r"setattr\([\w.]+, '(\w+)'", msg)
            last = m.group(1) if m else nm[0].rsplit(".", 1)[1]
            used[line, last] += 1
            if used[line, last] > have[line, last]:
                raise Violation("the log says '%s' of line %d, where it is not used (so often)\n%s" % (msg, line, show), "log-wrong-line")
        # the same program with its statements moved down
        at = [s.lineno if not getattr(s, "decorator_list", None) else min(x.lineno for x in s.decorator_list) for s in ast.parse(src).body]
        text, shift, cum = [], {}, 0
        extra = collections.Counter()
        for i, k in c["pads"]:
            extra[at[i % len(at)]] += k
        for no, l in enumerate(src.split("\n"), 1):
            for j in range(extra[no]):
                text.append("" if j % 2 else "# note %d" % j)
                cum += 1
            shift[no] = no + cum
            text.append(l)
        ok2, fail2, lines2 = self.run("\n".join(text), c)
        a = [(f, shift.get(l, l), o, m) for f, l, o, m in es]
        b = entries(lines2)
        if (ok, fail) != (ok2, fail2) or sorted(a) != sorted(b):
            diff = sorted(set(a) ^ set(b))[:4]
            raise Violation("moving statements down changes the log: %r\n%s" % (diff, show), "log-shift")
        return Info(ok + fail >= 3)


class Spelled(Forms):
    """However the APIs are imported, the log names the same uses at the same places."""

    name = "import_forms"
    quick, thorough = 350, 15000

    def check(self, c):
        res = []
        for src in (c["canonical"], c["respelled"]):
            with Dir({"a.py": src}) as w:
                res.append(run_log(os.path.join(w.ind, "a.py"), os.path.join(w.outd, "a.py")))
        off = c["respelled"].count("\n") - c["canonical"].count("\n")
        a = sorted((l + off, o, m) for _, l, o, m in entries(res[0][2]))
        b = sorted((l, o, m) for _, l, o, m in entries(res[1][2]))
        if a != b:
            raise Violation("the import form changes the log: %r\n--- input 1 (%d lines less)\n%s\n--- input 2\n%s" % (sorted(set(a) ^ set(b))[:4], off, c["canonical"][:2000], c["respelled"][:2000]), "log-import-form")
        return Info(c["canonical"] != c["respelled"] and len(a) > 0)


class Files(Family):
    """The log of a project is the logs of its files; a level only leaves lines out;
    terminal and log file get the same."""

    name = "files_levels_sinks"
    quick, thorough = 150, 8000

    def gen(self, d):
        files = {}
        for i in range(d.int(1, 3)):
            src = program(d, 1, 3)
            if src is None:
                return None
            files["%sm%d.py" % (d.choice(["", "", "sub/", "sub/deep/"]), i)] = src
        if d.bool(30):
            files["notes.txt"] = "import torch\ntorch.no_such_fn(1)\n"
        return {"files": files, "level": d.choice(["INFO", "WARNING"]), "min": d.bool(15), "format": d.bool(25)}

    def check(self, c):
        kw = {"mode": "min"} if c["min"] else {"no_format": not c["format"]}
        show = "\n".join("# %s\n%s" % kv for kv in sorted(c["files"].items()))[:3000]
        with Dir(c["files"]) as w:
            def run(i, o, **k):
                ok, fail, lines = run_log(i, o, **k, **kw)
                return ok, fail, [l.replace(w.d, "/T") for l in lines]

            ok, fail, full = run(w.ind, w.outd)
            es = entries(full)
            each, n_ok, n_fail = [], 0, 0
            for rel in c["files"]:
                if rel.endswith(".py"):
                    a, b, lines = run(os.path.join(w.ind, rel), os.path.join(w.d, "alone", rel))
                    n_ok, n_fail = n_ok + a, n_fail + b
                    e1 = entries(lines)
                    if any(e[0] != os.path.basename(rel) for e in e1):
                        raise Violation("the log of %s names another file: %r\n%s" % (rel, e1[:5], show), "log-file")
                    each += e1
                    if not any("Start convert file" in l and "/T/in/" + rel in l for l in full):
                        raise Violation("the log does not say that %s is converted\n%s" % (rel, show), "log-start")
            if (ok, fail) != (n_ok, n_fail) or sorted(es) != sorted(each):
                raise Violation("the log of a project differs from those of its files: %r\n%s" % (sorted(set(es) ^ set(each))[:4], show), "log-project")
            ok2, fail2, part = run(w.ind, w.outd + "2", level=c["level"])
            ok3, fail3, term = run(w.ind, w.outd + "2", level=c["level"], sink="terminal")
            if (ok, fail) != (ok2, fail2) or (ok, fail) != (ok3, fail3):
                raise Violation("the log settings change the counts\n%s" % show, "log-counts")
            if part != term:
                raise Violation("terminal and log file differ: %r\n%s" % (sorted(set(part) ^ set(term))[:4], show), "log-sinks")
            cd, cp = (collections.Counter(l.replace("/T/out2", "/T/out") for l in x) for x in (full, part))
            if cp - cd:
                raise Violation("level %s logs lines that DEBUG does not: %r\n%s" % (c["level"], list((cp - cd))[:3], show), "log-level")
            n = sum(e[2] == "not" for e in entries(part))
            if n != (fail if c["level"] == "INFO" else 0):
                raise Violation("at level %s the log names %d uses that are not converted, the run reports %d\n%s" % (c["level"], n, fail, show), "log-info")
            nums = [int(x) for l in part[[i for i, l in enumerate(part) if "Convert Summary" in l][0] :] for x in re.findall(r"(?<![\w.%-])(\d+)(?![\w.%])", l)][:3]
            if nums != [ok + fail, ok, fail]:
                raise Violation("the summary at level %s says %r, not %r\n%s" % (c["level"], nums, [ok + fail, ok, fail], show), "log-summary")
        return Info(ok + fail >= 2)


class C(Check):
    id = "C20"
    rule = "lines_and_counts: at least 3 uses; import_forms: the spellings differ and something is logged; files_levels_sinks: at least 2 uses; distinct cases"
    assumptions = [
        "an entry about a use is a log line '[file:line] message' whose message says Success, Delete, Unchange or Not Support",
        "the file is named by its base name; an entry names the line on which the expression starts",
    ]
    families = [Lines(), Spelled(), Files()]


CHECK = C()
