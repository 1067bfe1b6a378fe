"""The mapping contract: every API of the frozen signature table, every base way of
calling it, every literal the converter is sensitive to, and what it converts to."""
import ast
import json
import lzma
import os

from pv import api, env, shapes
from pv.norm import is_import, norm_tree, strip_kind

PATH = os.path.join(env.VERIF, "corpus", "mapping.json.xz")


def cases(nm):
    """Expression sources, in a fixed order."""
    info = api.apis()[nm]
    if info["kind"] == "attr":
        if api.is_method(nm):
            a = nm.rsplit(".", 1)[1]
            return ["xt." + a, "self.xt." + a, "xt.data." + a, "fn(xt)." + a, "xt[0]." + a]
        return [nm, nm + ".zeta", nm + "(va)", "isinstance(va, %s)" % nm]
    vals = shapes.values(info)
    out = []

    def add(s):
        if s not in out:
            out.append(s)

    recvs = ["xt", "self.xt", "xt.T", "fn(xt)", "xt[0]", "(xt + yt)", "xt.data", "self"] if api.is_method(nm) else ["xt"]
    sh = shapes.base_shapes(info)
    if not (info["pos"] or info["kwo"]):
        for a in ([], ["va"], ["va", "vb"]):
            add(api.call_src(nm, a, []))
        add(api.call_src(nm, [], [("k", "va")]))
    for npos, kws in sh:
        add(shapes.build(nm, npos, kws, vals))
    mn = min(info["min"], len(info["pos"]))
    for r in recvs[1:]:
        for npos, kws in sh[:6]:
            add(shapes.build(nm, npos, kws, vals, recv=r))
    # variadic and star forms
    req = [vals[p] for p in info["pos"][:mn]]
    n = len(info["pos"])
    for a in (["*sa"], req + ["*sa"], req[:-1] + ["*sa"] if req else []):
        if a:
            add(api.call_src(nm, a, []))
            add(api.call_src(nm, a, [("", "sk")]))
    add(api.call_src(nm, req, [("", "sk")]))
    add(api.call_src(nm, req, [("", "sk"), ("", "sm")]))
    for k in (n + 1, n + 2):
        add(api.call_src(nm, [shapes.pname(i) for i in range(k)], []))
    add(api.call_src(nm, req, [("no_such_param", "va")]))
    if not api.is_method(nm):
        # the API used as a value
        add(nm)
    # one literal at a time, with the parameters before it passed or not
    for i, p in enumerate(info["pos"] + info["kwo"] + [o for o in info["over"] if o not in info["pos"] + info["kwo"]]):
        for lit in shapes.LITS:
            v = dict(vals, **{p: lit})
            if i < n:
                add(shapes.build(nm, max(i + 1, mn), [], v))
            if i >= mn or i >= n:
                add(shapes.build(nm, mn, [p], v))
    return out


def source(nm, expr):
    return api.imports_for(nm) + "y = " + expr + "\n"


def normal(res_tree):
    """Normal form of an output: sorted imports, then statements with generated
    names renumbered and keyword arguments ordered."""
    t = norm_tree(strip_kind(res_tree), keep=())
    imps = sorted({ast.unparse(s) for s in t.body if is_import(s)})
    rest = [ast.unparse(s) for s in t.body if not is_import(s)]
    return "\n".join(imps + rest)


def load():
    with lzma.open(PATH, "rt", encoding="utf-8") as f:
        return json.load(f)
