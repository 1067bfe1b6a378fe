"""Frozen API signatures and the fragments built from them."""
import ast
import gzip
import json
import os

from pv import env

CLASSES = ["torch.Tensor", "torch.nn.Module", "torch.optim.Optimizer", "torch.autograd.function.FunctionCtx", "torch.distributions.distribution.Distribution"]
_cache = {}


def load():
    if "apis" not in _cache:
        with gzip.open(os.path.join(env.VERIF, "corpus", "apis.json.gz"), "rt", encoding="utf-8") as f:
            _cache.update(json.load(f))
    return _cache


def apis():
    return load()["apis"]


def alias():
    return load()["alias"]


def is_method(name):
    return name.rsplit(".", 1)[0] in CLASSES


def owner(name):
    return name.split(".")[0]


def supported(kind="api"):
    return [n for n, v in sorted(apis().items()) if v["kind"] == kind and not v["off"]]


def call_src(name, args, kwargs, recv="xt"):
    """Source of a call; methods are called on `recv`."""
    f = recv + "." + name.rsplit(".", 1)[1] if is_method(name) else name
    a = list(args) + ["%s=%s" % kv if kv[0] else "**" + kv[1] for kv in kwargs]
    return "%s(%s)" % (f, ", ".join(a))


def imports_for(name):
    o = owner(name)
    return "import torch\n" + ("" if o == "torch" else "import %s\n" % o)


def harvested():
    if "snips" not in _cache:
        with gzip.open(os.path.join(env.VERIF, "corpus", "snippets.json.gz"), "rt", encoding="utf-8") as f:
            _cache["snips"] = json.load(f)
    return _cache["snips"]
