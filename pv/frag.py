"""PyTorch fragments that the program generators mix into random Python."""
import ast

from pv import api, shapes
from pv.pygen import L, name

_c = {}

# keyword arguments the tool documents as dropped because Paddle has none of them
DROPPED_KW = {"layout", "generator", "memory_format", "sparse_grad", "foreach"}


def prefix_funcs():
    """torch functions whose conversion is only the change of package prefix."""
    if "pf" not in _c:
        _c["pf"] = [n for n, v in sorted(api.apis().items()) if v["prefix"] and v["kind"] == "api" and n.startswith("torch.") and ".torch." not in n and n not in api.alias() and not api.is_method(n)]
    return _c["pf"]


def prefix_attrs():
    if "pa" not in _c:
        _c["pa"] = [n for n, v in sorted(api.apis().items()) if v["prefix"] and v["kind"] == "attr" and n.startswith("torch.") and ".torch." not in n and n not in api.alias() and n.rsplit(".", 1)[0] not in api.CLASSES]
    return _c["pa"]


def by_group(group):
    """API names by group: 'rich' has parameters and its own matcher."""
    k = "g:" + group
    if k not in _c:
        out = []
        for n, v in sorted(api.apis().items()):
            if v["kind"] != "api" or v["off"]:
                continue
            if group == "rich" and not v["prefix"] and (v["pos"] or v["kwo"]):
                out.append(n)
            elif group == "prefix" and v["prefix"]:
                out.append(n)
            elif group == "bare" and not v["prefix"] and not (v["pos"] or v["kwo"]):
                out.append(n)
        _c[k] = out
    return _c[k]


def off_methods():
    """Tensor methods PyTorch has and the tables list as not convertible."""
    if "om" not in _c:
        _c["om"] = [n for n, v in sorted(api.apis().items()) if v["off"] and n.startswith("torch.Tensor.") and v["kind"] == "api"]
    return _c["om"]


UNKNOWN = ["torch.no_such_fn", "torch.nn.NoSuchLayer", "torch.nn.functional.no_such", "torch.xyzzy.deep.thing", "torch.optim.NoSuchOpt", "torch._private_fn"]


def dotted(s, ctx=None):
    return ast.parse(s, mode="eval").body


def pick_api(d, groups=("rich", "prefix", "rich", "rich", "bare")):
    return d.choice(by_group(d.choice(groups)))


def legal_shape(d, nm):
    """A random legal way to pass a random legal subset of the parameters."""
    info = api.apis()[nm]
    pos, kwo = info["pos"], info["kwo"]
    if info["prefix"] or not (pos or kwo):
        return d.int(0, 2), []
    mn = min(info["min"], len(pos))
    k = d.int(0, len(pos))
    rest = pos[k:]
    req = [p for p in pos[:mn] if p in rest]
    opt = [p for p in rest + kwo if p not in req]
    kws = req + d.sample(opt, d.int(0, min(4, len(opt))))
    return k, d.perm(kws)


def api_call(d, nm, value, recv=None):
    """AST of a legal call of `nm`; `value(param)` gives argument expressions."""
    npos, kws = legal_shape(d, nm)
    info = api.apis()[nm]
    pn = info["pos"][:npos] if info["pos"] else ["p%d" % i for i in range(npos)]
    if api.is_method(nm):
        f = ast.Attribute(value=recv or name("xt"), attr=nm.rsplit(".", 1)[1], ctx=L)
    else:
        f = dotted(nm)
    return ast.Call(func=f, args=[value(p) for p in pn], keywords=[ast.keyword(arg=k, value=value(k)) for k in kws])


def literalish(d, g=None, n=1):
    """Argument values: names, the literals matchers look at, small expressions."""
    k = d.int(0, 9)
    if k <= 3 or (k >= 8 and g is None):
        return name(d.choice(["u", "w", "p", "q", "xt", "yt"]))
    if k <= 7:
        return ast.parse(d.choice(shapes.LITS), mode="eval").body
    return g.expr(n)
