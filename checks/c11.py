"""C11: a conversion does not depend on conversions done before it."""
import ast
import os

from pv import api, env, iso
from pv.conv import Violation, crash_sig, new_converter, strip_marks
from pv.norm import norm_tree, strip_kind
from pv.runner import Check, Family, Info
from pv.trees import gen_tree, materialise, ok_source, rm, snapshot, snippet

SPECIAL = [
    "from torch import nn as F\nimport torch.nn.functional as nn\ny = F.Linear(1, 2)\nz = nn.relu(x)\n",
    "import torch as np\ny = np.abs(x)\n",
    "from torch import abs, add as mul\ny = abs(mul(a, b))\nadd2 = mul\nz = add2(a, b)\n",
    "import numpy as torch\ny = torch.abs(x)\n",
    "import torch\nfrom os import path as data\ny = torch.no_such_fn(x)\n",
    "from torch.utils.cpp_extension import load\next = load(name='e', sources=['a.cpp'])\n",
    "import torch\ny = torch.tensor(x, requires_grad=True)\nz = torch.split(x, 2)\nw = x.split(3)\nk = torch.cuda.is_available()\n",
    "import torch\nfor i in range(3):\n    y = torch.max(x, 0)\n    z = x.max(1, keepdim=True)[0]\n",
    "import transformers\nfrom flash_attn.layers.rotary import apply_rotary_emb_func as f\ny = f(a, b, c)\n",
]


def gen_src(d):
    k = d.int(0, 3)
    if k == 0:
        return d.choice(SPECIAL)
    s = snippet(d)
    return s if ok_source(s) else "z = 2\n"


def gen_opts(d):
    o = {"mode": d.choice(["default", "default", "min"]), "no_format": d.bool(85)}
    if d.bool(10):
        o["only_complete"] = True
    if d.bool(10):
        o["log_markdown"] = True
    if d.bool(10):
        o["calculate_speed"] = True
    return o


def gen_op(d):
    k = d.int(0, 9)
    if k == 0:
        return {"kind": "bad", "opts": gen_opts(d), "src": gen_src(d)}
    if k <= 2:
        t = {p: v for p, v in gen_tree(d, depth=1, hidden=False, blobs=False).items() if v[0] == "py"}
        t.setdefault("main.py", ["py", gen_src(d)])
        return {"kind": "dir", "opts": gen_opts(d), "tree": t}
    return {"kind": "file", "opts": gen_opts(d), "src": gen_src(d)}


def do(op, d, tag, reuse=None, same=False):
    """Run one operation; outputs (path -> normal form) and counts."""
    ind, outd = os.path.join(d, tag, "in"), os.path.join(d, tag, "out")
    c = reuse or new_converter(**op["opts"])
    if op["kind"] == "dir":
        materialise(ind, op["tree"])
        a, b = ind, outd
    elif op["kind"] == "bad":
        materialise(ind, {"a.py": ["py", op["src"]], "b.py": ["py", "def (:\n"], "c.py": ["py", op["src"]]})
        a, b = ind, outd
    else:
        name = "same.py" if same else tag + ".py"
        materialise(ind, {name: ["py", op["src"]]})
        a, b = os.path.join(ind, name), os.path.join(outd, name)
    try:
        r = tuple(c.run(a, b))
    except SyntaxError:
        if op["kind"] == "bad":
            return None
        raise
    except Exception as e:
        raise Violation("conversion raised %r" % e, crash_sig(e))
    files = {}
    for rel, v in snapshot(outd).items():
        if v[0] == "file":
            text = v[2].decode("utf-8").replace(outd, "OUT")
            marks = [i for i, l in enumerate(text.split("\n")) if l.startswith(">>>>>>")]
            try:
                t = ast.dump(norm_tree(strip_kind(ast.parse(strip_marks(text)))))
                files[os.path.basename(rel) if op["kind"] == "file" else rel] = (t, len(marks), text)
            except SyntaxError:
                files[rel] = (text, len(marks), text)
    return files, r, c


class History(Family):
    name = "history"
    quick, thorough = 220, 9000

    def gen(self, d):
        ops = [gen_op(d) for _ in range(d.int(1, 5))]
        target = gen_op(d)
        if target["kind"] == "bad":
            target["kind"] = "file"
        if d.bool(25):
            # the same input again, possibly with other options
            ops.append(dict(target, opts=gen_opts(d)))
        return {"ops": ops, "target": target, "reuse": d.bool(15)}

    def _alone(self, case, d):
        f, r, _ = do(case["target"], d, "t")
        return f, r

    def _after(self, case, d):
        last = None
        for i, op in enumerate(case["ops"]):
            x = do(op, d, "t" if i == len(case["ops"]) - 1 and op.get("src") == case["target"].get("src") and op["kind"] == case["target"]["kind"] else "h%d" % i)
            if x is not None and op["opts"] == case["target"]["opts"]:
                last = x[2]
        rm(os.path.join(d, "t"))
        base = (last.success_api_count, last.torch_api_count - last.success_api_count) if case["reuse"] and last else (0, 0)
        f, r, _ = do(case["target"], d, "t", reuse=last if case["reuse"] else None)
        return f, (r[0] - base[0], r[1] - base[1])

    def check(self, case):
        d1 = env.fresh_dir("hist")
        try:
            a = iso.in_child(self._alone, case, d1)
            rm(d1)
            os.makedirs(d1)
            b = iso.in_child(self._after, case, d1)
        finally:
            rm(d1)
        where = "\n--- target %r" % (case["target"],)
        if set(a[0]) != set(b[0]):
            raise Violation("files written alone %s, after a history %s%s" % (sorted(a[0]), sorted(b[0]), where), "history:files")
        for k in a[0]:
            if a[0][k][:2] != b[0][k][:2]:
                raise Violation("%s depends on what was converted before\n--- alone\n%s\n--- after a history\n%s\n--- history %r%s" % (k, a[0][k][2][:2000], b[0][k][2][:2000], case["ops"], where), "history:output")
        if a[1] != b[1]:
            raise Violation("counts alone %r, after a history %r%s\n--- history %r" % (a[1], b[1], where, case["ops"]), "history:counts")
        return Info(a[1] != (0, 0))


class C(Check):
    id = "C11"
    rule = "the target uses at least one API; distinct (history, target) pairs"
    assumptions = [
        "histories of 1 to 6 conversions (files, projects, both modes, formatting, name expansion, runs that fail on a later file, the same input again); the reference is the same conversion as the first one in a process",
        "equality is AST equality modulo the names of generated temporaries, plus the number of marked lines and the counts",
    ]
    families = [History()]


CHECK = C()
