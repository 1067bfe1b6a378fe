"""Random project trees and file-system snapshots."""
import base64
import os
import shutil
import stat

from pv import api, frag
from pv.pygen import Gen, name, render

DIRS = ["pkg", "src", "models", "data_x", "my dir", "ünï", "deep", "tests", "a.b", "v1.0", "lib.py.d"]
PYS = ["main.py", "model.py", "util_a.py", "__init__.py", "train.py", "setup_x.py", "x.test.py", "é.py", "a b.py", "conv.PY.py", "sub.py"]
OTHER = ["README.md", "data.bin", "config.yaml", "run.sh", "notes.txt", "model.pyx", "a.pyc", "script.PY", "m.pyi", "empty", "noext", "page.html", "requirements.in", "x.py.bak", "setup.cfg"]
REQ = ["requirements.txt", "dev-requirements.txt", "my_requirements.txt"]
HIDDEN = [".git", ".env", ".hidden.py", ".cache"]
BLOBS = [b"", b"\x00\x01\xff\xfe", b"import torch\ny = torch.abs(x)\n", "torch \u4e2d\n".encode(), b"torch==1.0\r\nx", b"#!/bin/sh\necho torch\n", bytes(range(256))]
REQNAMES = ["torch", "torchvision", "torchaudio", "pytorch-lightning", "numpy", "torch_geometric", "torch-scatter", "torch.ext", "mytorch", "torch2", "opt-torch", "Torch"]
REQLINES = ["# torch is needed", "accelerate[torch]", "-r torch/req.txt", "git+https://github.com/pytorch/torch", "  torch==2.0", "\ttorch", "numpy  # for torch", "", "x @ https://h/torch", "--find-links torch"]
REQVER = ["", "==1.13.1", ">=2.0,<3", "~=1.0", "[extra]", " == 1.2", " ; python_version > '3.6'", "!=1.0", "===2", "@ file:///w.whl"]


def snippet(d):
    """A short program; may use supported, unsupported and helper-needing APIs."""
    sn = api.harvested()
    k = d.int(0, 9)
    if k <= 1:
        return "x = 1\n"
    if k <= 4:
        return sn[d.int(0, len(sn) - 1)]["code"] + "\n"

    def extra(g, m):
        return frag.api_call(d, frag.pick_api(d), lambda p: frag.literalish(d))

    g = Gen(d, extra_expr=extra, extra_rate=20)
    import ast

    t = g.module(2, 1, 3)
    i = 0
    while i < len(t.body) and (isinstance(t.body[i], ast.ImportFrom) and t.body[i].module == "__future__" or (i == 0 and isinstance(t.body[i], ast.Expr) and isinstance(t.body[i].value, ast.Constant))):
        i += 1
    t.body.insert(i, ast.Import(names=[ast.alias(name="torch")]))
    return render(t) or "y = 1\n"


def ok_source(s):
    try:
        compile(s, "x", "exec", dont_inherit=True)
        return True
    except (SyntaxError, ValueError):
        return False


def gen_tree(d, depth=3, hidden=True, blobs=True, links=False):
    """{relative path: ["py", text] | ["bin", base64] | ["dir"] | ["link", target]}"""
    out = {}

    def fill(prefix, n):
        for f in d.sample(PYS, d.int(0, 3)):
            s = snippet(d)
            out[prefix + f] = ["py", s if ok_source(s) else "z = 2\n"]
        if blobs:
            for f in d.sample(OTHER, d.int(0, 2)):
                out[prefix + f] = ["bin", base64.b64encode(d.choice(BLOBS)).decode()]
            if d.bool(25):
                lines = [d.choice(REQNAMES) + d.choice(REQVER) if d.bool(75) else d.choice(REQLINES) for _ in range(d.int(0, 4))]
                nl = d.choice(["\n", "\n", "\r\n"])
                out[prefix + d.choice(REQ)] = ["req", nl.join(lines) + d.choice(["", nl])]
        if hidden and d.bool(25):
            h = d.choice(HIDDEN)
            if h in (".git", ".cache"):
                out[prefix + h + "/inner.py"] = ["py", "import torch\n"]
            else:
                out[prefix + h] = ["py", "import torch\ny = torch.abs(x)\n"]
        if hidden and d.bool(15):
            out[prefix + "__pycache__/m.cpython-312.pyc"] = ["bin", "AAEC"]
        if links and d.bool(20):
            out[prefix + "lnk"] = ["link", d.choice(["nowhere", "../outside.txt"])]
        if n > 0:
            for s in d.sample(DIRS, d.int(0, 2)):
                before = len(out)
                fill(prefix + s + "/", n - 1)
                if len(out) == before:
                    out[prefix + s] = ["dir"]

    fill("", depth)
    return out


def materialise(root, tree):
    os.makedirs(root, exist_ok=True)
    for rel, v in tree.items():
        p = os.path.join(root, rel)
        if v[0] == "dir":
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v[0] == "link":
            os.symlink(v[1], p)
            continue
        raw = base64.b64decode(v[1]) if v[0] == "bin" else v[1].encode("utf-8")
        with open(p, "wb") as f:
            f.write(raw)


def snapshot(root, skip=()):
    """{relative path: (kind, mode, content or link target, mtime_ns)}"""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in list(dirs) + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, root)
            if rel in skip:
                if n in dirs:
                    dirs.remove(n)
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", st.st_mode, os.readlink(p), st.st_mtime_ns)
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", st.st_mode, None, 0)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", st.st_mode, f.read(), st.st_mtime_ns)
    return out


def rm(p):
    shutil.rmtree(p, ignore_errors=True)
