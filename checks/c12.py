"""C12: the output is a function of the input text and options alone."""
import difflib
import json
import os
import subprocess
import sys

from pv import env
from pv.conv import Violation
from pv.runner import Check, Family, Info
from pv.trees import gen_tree, materialise, ok_source, rm, snippet

IMPORTS = ["import torchvision", "import numpy as np", "import zlocal", "import json", "from alocal import b", "import transformers", "import flash_attn", "import mlocal.sub", "import einops", "import fairscale", "import torchaudio", "import os", "from . import rel", "import setuptools"]


def gen_src(d):
    s = snippet(d)
    if not ok_source(s):
        s = "z = 2\n"
    if d.bool(60) and "__future__" not in s:
        s = "\n".join(d.sample(IMPORTS, d.int(1, 4))) + "\n" + s
    return s


class Env(Family):
    name = "environment"
    quick, thorough = 13, 600
    size = 24
    case_timeout = 400

    def gen(self, d):
        cases = []
        for _ in range(d.int(1, self.size)):
            single = d.bool(60)
            if single:
                tree = {"a.py": ["py", gen_src(d)]}
            else:
                tree = {k: ["py", gen_src(d)] if v[0] == "py" else v for k, v in gen_tree(d, depth=2, links=False).items()}
            cases.append({"tree": tree, "single": single, "opts": {"mode": d.choice(["default", "default", "min"]), "no_format": d.bool(60)}})
        confs = []
        for _ in range(2):
            confs.append({
                "hash": d.int(1, 4294967295), "cwd": d.choice(["root", "here", "locals", "out"]), "where": d.choice(["x", "deep/er/dir", "sp ace", "torch/nn", "ünï", "paddle", "it's", 'q"d', "b\\", "{0}{x}", "%s", "a'b\"c"]),
                "order": d.int(0, 10 ** 6) if d.bool(60) else None, "env": d.choice(["", "posix", "home", "utf8", "tz"]),
            })
        return {"cases": cases, "confs": confs}

    def run(self, cases, conf, d, tag):
        top = os.path.join(d, tag)
        where = os.path.join(top, conf["where"])
        os.makedirs(where)
        loc = os.path.join(top, "cw")
        materialise(loc, {"zlocal.py": ["py", ""], "alocal.py": ["py", ""], "mlocal/sub.py": ["py", ""], ".isort.cfg": ["py", "[settings]\nforce_single_line=true\n"], "pyproject.toml": ["py", "[tool.black]\nline-length = 40\n[tool.isort]\nprofile='black'\nforce_sort_within_sections=true\n"]})
        cwd = {"root": "/", "here": where, "locals": loc, "out": os.path.join(d)}[conf["cwd"]]
        if conf["env"] == "posix" and not all((conf["where"] + "".join(c["tree"])).isascii() for c in cases):
            conf = dict(conf, env="")  # such names do not exist in that locale
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        e["PYTHONHASHSEED"] = str(conf["hash"])
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PV_SCRATCH"] = top
        if conf["env"] == "posix":
            e.update(LC_ALL="POSIX", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
        elif conf["env"] == "utf8":
            e.update(PYTHONUTF8="1", LANG="C.UTF-8")
        elif conf["env"] == "home":
            e.update(HOME=loc, USER="nobody", XDG_CONFIG_HOME=loc)
        elif conf["env"] == "tz":
            e.update(TZ="Asia/Tokyo", COLUMNS="20", TERM="dumb", FORCE_COLOR="1")
        spec, res = os.path.join(top, "spec.json"), os.path.join(top, "res.json")
        with open(spec, "w", encoding="utf-8") as f:
            json.dump({"cases": cases, "where": where, "order": conf["order"]}, f)
        p = subprocess.run([sys.executable, os.path.join(env.VERIF, "pv", "batch.py"), spec, res], cwd=cwd, env=e, capture_output=True, timeout=350)
        if not os.path.exists(res):
            raise Violation("conversion does not start in configuration %r: %s" % (conf, p.stderr.decode("utf-8", "replace")[-600:]), "start")
        with open(res, encoding="utf-8") as f:
            return json.load(f)

    def check(self, case):
        d = env.fresh_dir("env")
        try:
            base = {"hash": 0, "cwd": "root", "where": "x", "order": None, "env": "utf8"}
            ref = self.run(case["cases"], base, d, "r")
            n = 0
            for i, conf in enumerate(case["confs"]):
                got = self.run(case["cases"], conf, d, "g%d" % i)
                for c, (fa, ra), (fb, rb) in zip(case["cases"], ref, got):
                    n += len(fa)
                    if ra != rb:
                        raise Violation("result %r, but %r with %r\n%r" % (ra, rb, conf, c), "env:counts")
                    if set(fa) != set(fb):
                        raise Violation("files %s, but %s with %r\n%r" % (sorted(fa), sorted(fb), conf, c), "env:files")
                    for k in fa:
                        if fa[k] != fb[k]:
                            df = "\n".join(list(difflib.unified_diff(fa[k].split("\n"), fb[k].split("\n"), lineterm="", n=1))[:40])
                            raise Violation("%s differs with %r\n%s\n%r" % (k, conf, df, c), "env:bytes")
            return Info(n > 3)
        finally:
            rm(d)


class C(Check):
    id = "C12"
    rule = "a case is a batch of up to 24 programs and projects converted under a reference and two other configurations; at least four files compared; distinct batches"
    assumptions = [
        "compared byte for byte, after replacing the path of the output directory (which a project's files contain on purpose)",
        "configurations vary the hash seed, working directory (including one with modules and formatter settings that match), input/output location, order of directory listing, locale, HOME and other variables",
    ]
    families = [Env()]
    quick_seconds = 300


CHECK = C()
