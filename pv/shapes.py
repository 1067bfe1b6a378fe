"""Call shapes: which parameters are passed, how, in which order, with what."""
from pv import api

LITS = ["None", "True", "False", "1", "-1", "0.5", "'mean'", "[1, 2]", "(2, 3)", "torch.float32", "'cuda'", "'s'", "lambda q: q", "p.q", "p[0]", "g(1)", "u + w", "-u", "not u", "u if w else p", "(u, w)", "[i for i in u]", "f'{u}'", "u == w", "u and w", "dict(k=1)", "{}"]


def pname(i):
    return "v" + "abcdefghijklmnopqrstuvwxyz"[i % 26] + ("" if i < 26 else "z" * (i // 26))


def values(info):
    """A distinct placeholder name for every parameter."""
    return {p: pname(i) for i, p in enumerate(info["pos"] + info["kwo"] + [o for o in info["over"] if o not in info["pos"] + info["kwo"]])}


def build(name, npos, kws, vals, recv="xt"):
    info = api.apis()[name]
    return api.call_src(name, [vals[p] for p in info["pos"][:npos]], [(k, vals[k]) for k in kws], recv)


def base_shapes(info):
    """(number of positional args, keyword names) pairs, all legal for the signature."""
    pos, kwo, mn = info["pos"], info["kwo"], min(info["min"], len(info["pos"]))
    n = len(pos)
    out = []

    def add(k, kws):
        s = (k, tuple(kws))
        if s not in out:
            out.append(s)

    for k in range(mn, n + 1):
        add(k, ())
        add(k, kwo)
    add(n, kwo)
    for k in range(0, n + 1):
        add(k, pos[k:] + kwo)
        add(k, (pos[k:] + kwo)[::-1])
    for k in sorted({0, mn}):
        rest = pos[k:]
        # every optional parameter alone, and every one left out
        req = pos[k:mn] if k < mn else []
        opt = [p for p in rest + kwo if p not in req]
        for o in opt:
            add(k, req + [o])
            add(k, [o] + req)
            add(k, req + [p for p in opt if p != o])
        for i, o in enumerate(opt):
            for o2 in opt[i + 1:]:
                add(k, req + [o, o2])
    for o in info["over"]:
        if o not in pos + kwo:
            add(0, (o,))
            for k in range(0, n):
                add(k, (o,))
    return out
