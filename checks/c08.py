"""C08: the reported numbers are the truth about the conversion."""
import ast
import logging
import os
import re
import shutil

from pv import api, env, frag, mapping
from pv.conv import Violation, convert, crash_sig, new_converter, parse_out
from pv.pygen import Gen, name, render
from pv.runner import Check, Family, Info

_tables = []


def _record_excel(self, path, *a, **k):
    _tables.append((str(path), [tuple(r) for r in self.values.tolist()]))


def run_logged(ind, outd, markdown=False, **kw):
    """Convert with a log file and the API tables on; returns counts, log, tables."""
    import pandas

    pandas.DataFrame.to_excel = _record_excel  # the tables, without writing to cwd
    del _tables[:]
    log = os.path.join(env.fresh_dir("log"), "log.txt")
    logging.disable(logging.NOTSET)
    try:
        c = new_converter(log_dir=log, log_markdown=markdown, show_all_api=True, show_unalign_api=True, show_unsupport_api=True, no_format=True, **kw)
        logging.disable(logging.NOTSET)
        ok, fail = c.run(ind, outd)
        rate = c.convert_rate
    except Exception as e:
        raise Violation("conversion with the API lists on raised %r" % e, crash_sig(e))
    finally:
        env.quiet()
    for h in c.logger.handlers[:]:
        h.close()
        c.logger.removeHandler(h)
    with open(log, encoding="utf-8") as f:
        text = f.read()
    shutil.rmtree(os.path.dirname(log))
    logging.Logger.manager.loggerDict.pop(c.logger.name, None)
    return ok, fail, rate, text, {os.path.basename(p): t for p, t in _tables}


def write(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)


def marks(text):
    return sum(l.startswith(">>>>>>") for l in text.split("\n"))


class Expected(Family):
    """Statements with one API each, whose outcome is known: totals, per-API lists,
    rate and log agree with the sum, whatever the distribution over files."""

    name = "known_totals"
    quick, thorough = 450, 20000
    shrinkable = True

    def setup_main(self):
        self.gold = mapping.load()
        pool = []
        for nm, rows in sorted(self.gold["table"].items()):
            info = api.apis()[nm]
            if nm in api.alias() or ".torch." in nm or not nm.startswith("torch"):
                continue
            es = mapping.cases(nm)
            for e, r in zip(es, rows):
                if r is not None and r[1] + r[2] == 1 and "\n" not in e and "torch.float32" not in e and not (e.startswith(("xt.data.", "xt.T.")) or ".zeta" in e):
                    pool.append([nm, e, r[1], r[2]])
        self.pool = pool

    def gen(self, d):
        n = d.int(1, 12)
        items = [d.choice(self.pool) for _ in range(n)]
        if d.bool(50):
            items += [d.choice(items) for _ in range(d.int(1, 4))]
        nf = d.int(1, 3)
        return {"items": items, "file": [d.int(0, nf - 1) for _ in items], "single": d.bool(30), "md": d.bool(30)}

    def check(self, case):
        items = case["items"]
        files = {}
        for it, f in zip(items, case["file"]):
            f = 0 if case["single"] else f
            files.setdefault("m%d.py" % f if f < 2 else "sub/m2.py", []).append(it)
        texts = {}
        for k, its in files.items():
            heads = sorted({l for it in its for l in api.imports_for(it[0]).splitlines()})
            texts[k] = "\n".join(heads) + "\n" + "".join("y = %s\n" % it[1] for it in its)
        d = env.fresh_dir("stat")
        ind, outd = os.path.join(d, "in"), os.path.join(d, "out")
        os.makedirs(ind)
        write(ind, texts)
        try:
            src = os.path.join(ind, "m0.py") if case["single"] else ind
            ok, fail, rate, log, tables = run_logged(src, os.path.join(outd, "m0.py") if case["single"] else outd, case["md"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        show = "\n".join("# %s\n%s" % kv for kv in sorted(texts.items()))[:2500]
        eok, efail = sum(i[2] for i in items), sum(i[3] for i in items)
        if (ok, fail) != (eok, efail):
            raise Violation("reports %d converted and %d not converted instead of %d and %d\n%s" % (ok, fail, eok, efail, show), "totals")
        want = ok / (ok + fail)
        if abs(rate - want) > 1e-9:
            raise Violation("convert rate %r instead of %r\n%s" % (rate, want, show), "rate")
        nums = [int(x) for x in re.findall(r"(?<![\w.%%-])(\d+)(?![\w.%%])", log.split("转换总结")[1] if case["md"] else log.split("Convert Summary")[1])]
        if nums[:3] != [ok + fail, ok, fail] or "{:.2%}".format(want) not in log:
            raise Violation("the summary in the log says %r, rate %r, not total=%d converted=%d failed=%d\n%s" % (nums[:3], re.findall(r"[\d.]+%", log), ok + fail, ok, fail, show), "log-summary")
        exp = {}
        for i in items:
            exp[i[0]] = exp.get(i[0], 0) + 1
        got = {r[0]: r[2] for r in tables.get("all_api_map.xlsx", [])}
        if sum(got.values()) != ok + fail:
            raise Violation("the list of all APIs adds up to %d, not %d: %r\n%s" % (sum(got.values()), ok + fail, got, show), "all-list-sum")
        un = {r[0]: r[1] for r in tables.get("unsupport_api_map.xlsx", [])}
        if sum(un.values()) != fail:
            raise Violation("the list of unsupported APIs adds up to %d, not %d: %r\n%s" % (sum(un.values()), fail, un, show), "unsupport-list-sum")
        eun = {}
        for i in items:
            if i[3]:
                k = "*." + i[0].rsplit(".", 1)[1] if api.is_method(i[0]) else i[0]
                eun[k] = eun.get(k, 0) + 1
        by_last = lambda m: {k: v for k, v in _merge(m).items()}
        if by_last(exp) != by_last(got):
            raise Violation("the list of all APIs is %r instead of %r\n%s" % (got, exp, show), "all-list")
        if by_last(eun) != by_last(un):
            raise Violation("the list of unsupported APIs is %r instead of %r\n%s" % (un, eun, show), "unsupport-list")
        ua = {r[0]: r[2] for r in tables.get("unalign_api_map.xlsx", [])}
        eua = {k: v for k, v in got.items() if k.startswith("torch.") and not (k in api.apis() and api.apis()[k]["prefix"])}
        if ua != eua:
            raise Violation("the list of unaligned APIs is %r instead of %r\n%s" % (ua, eua, show), "unalign-list")
        cnts = [r[2] for r in tables.get("all_api_map.xlsx", [])]
        if cnts != sorted(cnts, reverse=True):
            raise Violation("the list of all APIs is not in descending order of use: %r" % cnts, "order")
        return Info(len(items) >= 3 and fail + ok >= 3)


def _merge(m):
    """By last name component: the class a method belongs to is a guess."""
    out = {}
    for k, v in m.items():
        k = k.rsplit(".", 1)[1]
        out[k] = out.get(k, 0) + v
    return out


class Additive(Family):
    """report(A then B) == report(A) + report(B), in one file or in two."""

    name = "additivity"
    quick, thorough = 900, 30000

    def gen(self, d):
        from checks.c07 import off_names

        def extra(g, m):
            k = d.int(0, 9)
            if k <= 1:
                return ast.Call(func=frag.dotted(d.choice(off_names())), args=[g.expr(m - 1)], keywords=[])
            nm = frag.pick_api(d)
            return frag.api_call(d, nm, lambda p: frag.literalish(d, g, m - 1) if m > 0 else name("u"))

        from checks.c02 import PKGS

        parts = []
        for _ in range(2):
            g = Gen(d, extra_expr=extra, extra_rate=18)
            tree = g.module(2, 1, 3, doc=False, future=False)
            parts.append(tree.body)
        pk = sorted({x.id for b in parts for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and x.id in PKGS} | {"torch"})
        head = [ast.Import(names=[ast.alias(name=p)]) for p in pk]
        mk = lambda b: render(ast.Module(body=head + b, type_ignores=[]))
        a, b, ab = mk(parts[0]), mk(parts[1]), mk(parts[0] + parts[1])
        if a is None or b is None or ab is None:
            return None
        # the same names mean the same thing in all three
        imp = lambda b: {n.asname or n.name for s in b for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for n in x.names}
        if imp(parts[0]) or imp(parts[1]):
            return None
        return {"a": a, "b": b, "ab": ab}

    def check(self, case):
        a, b, ab = convert(case["a"]), convert(case["b"]), convert(case["ab"])
        if (a.ok + b.ok, a.fail + b.fail) != (ab.ok, ab.fail):
            raise Violation("separately (%d,%d)+(%d,%d) APIs are (converted, not), together (%d,%d)\n--- 1\n%s\n--- 2\n%s" % (a.ok, a.fail, b.ok, b.fail, ab.ok, ab.fail, case["a"][:1500], case["b"][:1500]), "not-additive")
        d = env.fresh_dir("add")
        try:
            ind = os.path.join(d, "in")
            os.makedirs(ind)
            write(ind, {"p/a.py": case["a"], "p/b.py": case["b"]})
            ok, fail, rate, log, tables = run_logged(ind, os.path.join(d, "out"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if (ok, fail) != (ab.ok, ab.fail):
            raise Violation("in one file %r, in two files %r\n--- 1\n%s\n--- 2\n%s" % ((ab.ok, ab.fail), (ok, fail), case["a"][:1500], case["b"][:1500]), "files-not-additive")
        t, u = tables.get("all_api_map.xlsx", []), tables.get("unsupport_api_map.xlsx", [])
        if sum(r[2] for r in t) != ok + fail or sum(r[1] for r in u) != fail:
            raise Violation("the API lists add up to %d total, %d unsupported, the summary says %d and %d\n--- 1\n%s\n--- 2\n%s" % (sum(r[2] for r in t), sum(r[1] for r in u), ok + fail, fail, case["a"][:1500], case["b"][:1500]), "lists-vs-summary")
        return Info(a.ok + a.fail > 0 and b.ok + b.fail > 0)


class C(Check):
    id = "C08"
    rule = "known totals: at least 3 APIs; additivity: both halves use an API; distinct cases"
    assumptions = [
        "the number of uses of one call is taken from the recorded mapping contract; lists are compared by the last component of the API name",
        "the spreadsheet writer is replaced by a recorder of the rows (openpyxl is not installed)",
    ]
    families = [Expected(), Additive()]


CHECK = C()
