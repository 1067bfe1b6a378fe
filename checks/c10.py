"""C10: a run writes only its outputs and never touches the input."""
import contextlib
import io
import os
import sys

from pv import env, iso
from pv.conv import Violation, crash_sig, new_converter
from pv.runner import Check, Family, Info
from pv.trees import gen_tree, materialise, rm, snapshot

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PATHS1 = {"os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.mkfifo", "os.mknod", "shutil.rmtree", "os.setxattr", "os.removexattr", "tempfile.mkstemp", "tempfile.mkdtemp"}
PATHS2 = {"os.rename", "os.link", "os.symlink", "os.replace"}
STARTS = {"subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.kill", "socket.connect"}
_rec = {"on": False, "events": [], "root": None, "out": None}


def _hook(event, args):
    if not _rec["on"]:
        return
    if event == "open":
        path, mode, flags = args
        wr = flags & WRITE if isinstance(flags, int) else False
        if isinstance(mode, str):
            wr = wr or any(c in mode for c in "wax+")
        if not wr or not isinstance(path, (str, bytes, os.PathLike)):
            return
        paths = [path]
    elif event in PATHS1:
        paths = [args[0]]
    elif event in PATHS2:
        paths = list(args[:2])
    elif event in STARTS:
        _rec["events"].append([event, str(args)[:200]])
        raise PermissionError("blocked by the check: " + event)
    else:
        return
    for p in paths:
        if isinstance(p, int):
            continue
        p = os.path.abspath(os.fsdecode(p))
        # resolve the directory the entry lives in; the entry itself may be a link
        real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if real in ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty"):
            continue
        _rec["events"].append([event, real])
        if not (real + "/").startswith(_rec["root"] + "/"):
            # never let an escaped call reach the real file system
            raise PermissionError("blocked by the check: %s %s" % (event, real))


def _install():
    if not _rec.get("hooked"):
        sys.addaudithook(_hook)
        _rec["hooked"] = True


BAD = {"syntax": b"def (:\n", "bytes": b"x = '\xff\xfe'\n", "tabs": b"if x:\n\ty = 1\n        z = 2\n", "nul": b"x = 1\x00\n", "codec": b"# coding: no-such-codec\nx = 1\n"}


class Confined(Family):
    name = "writes_confined"
    quick, thorough = 160, 6000

    def gen(self, d):
        k = d.int(0, 9)
        return {
            "tree": gen_tree(d, depth=2, links=True),
            "what": d.choice(["dir", "dir", "file"]),
            "layout": d.choice(["apart", "inside", "deep_inside", "default", "relative", "sibling_prefix", "parent_rel"]),
            "pre": d.choice(["none", "none", "empty", "files", "clash", "readonly"]),
            "bad": d.choice(sorted(BAD)) if d.bool(35) else None,
            "badname": d.choice(["aaa_bad.py", "zzz_bad.py", "pkg/mm_bad.py"]),
            "exclude": d.choice([None, None, "util_a", "pkg"]),
            "opt": {"mode": d.choice(["default", "min"]), "no_format": d.bool(80), "only_complete": d.bool(10)},
            "log": d.bool(30), "lists": d.bool(25), "cli": d.bool(30), "check": k == 0 and d.bool(30),
        }

    def check(self, case):
        d = env.fresh_dir("con")
        try:
            return iso.in_child(self._check, case, d)
        finally:
            rm(d)

    def _check(self, case, d):
        _install()
        cwd = os.path.join(d, "cwd")
        ind = os.path.join(d, "w", "proj")
        os.makedirs(cwd)
        tree = dict(case["tree"])
        tree.setdefault("main.py", ["py", "import torch\ny = torch.abs(x)\n"])
        materialise(ind, tree)
        materialise(os.path.join(d, "w"), {"outside.txt": ["bin", "AAEC"], "other/paddle_utils.py": ["py", "keep = 1\n"], "paddle_utils.py": ["py", "keep = 2\n"], "proj_old/main.py": ["py", "keep = 3\n"]})
        materialise(cwd, {"all_api_map.txt": ["bin", "AAEC"], "paddle_utils.py": ["py", "keep = 4\n"]})
        if case["bad"]:
            p = os.path.join(ind, case["badname"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(BAD[case["bad"]])
        lay = case["layout"]
        base = {"apart": os.path.join(d, "o", "out"), "inside": os.path.join(ind, "out_pd"), "deep_inside": os.path.join(ind, "gen", "x", "out_pd"),
                "default": os.path.join(cwd, "paddle_project"), "relative": os.path.join(cwd, "rel", "out"), "sibling_prefix": ind + "_out", "parent_rel": os.path.join(d, "up", "out")}[lay]
        src = ind if case["what"] == "dir" else os.path.join(ind, "main.py")
        # a file given an existing directory goes into it; otherwise the path is the file
        pre = case["pre"]
        if lay == "default":
            pre = pre if pre != "none" else "empty"
        tofile = case["what"] == "file" and pre == "none"
        out = base + ".py" if tofile else base
        if pre != "none":
            os.makedirs(base, exist_ok=True)
        if pre in ("files", "clash", "readonly"):
            materialise(base, {"keep.txt": ["bin", "AAEC"], "main.py": ["py", "old = 1\n"], "zz/keep.py": ["py", "import torch\n"]})
        if pre == "clash":
            # a directory stands where a file has to be written, and the reverse
            materialise(base, {"model.py/inner.txt": ["bin", "AAEC"]})
            if not os.path.exists(os.path.join(base, "pkg")):
                materialise(base, {"pkg": ["bin", "AAEC"]})
        if pre == "readonly":
            os.chmod(os.path.join(base, "main.py"), 0o444)
        os.chmod(os.path.join(ind, "main.py"), 0o640)
        for i, q in enumerate(sorted(q for q, v in tree.items() if v[0] in ("bin", "py", "req") and q != "main.py")):
            os.chmod(os.path.join(ind, q), [0o644, 0o750, 0o711, 0o600, 0o755][i % 5])
        os.chdir(cwd)
        arg = {"default": None, "relative": os.path.relpath(out, cwd), "parent_rel": os.path.join("..", "up", os.path.basename(out))}.get(lay, out)
        allowed = [out]
        log = os.path.join(d, "logs.txt") if case["log"] else "disable"
        if case["log"]:
            allowed.append(log)
        if case["lists"]:
            allowed += [os.path.join(cwd, n) for n in ("all_api_map.xlsx", "unalign_api_map.xlsx", "unsupport_api_map.xlsx")]
        # the helper file of a project is inside its output directory; a single file has none
        before = snapshot(d)
        made = set()
        p = out
        while p.startswith(d + "/"):
            p = os.path.dirname(p)
            made.add(p)
        for a in allowed:
            made.add(os.path.dirname(a))
        lists = {"show_all_api": True, "show_unalign_api": True, "show_unsupport_api": True} if case["lists"] else {}
        failed = None
        _rec.update(events=[], root=d, on=True)
        try:
            if case["cli"]:
                from paconvert import main as m

                argv = ["paconvert", "-i", src] + (["-o", arg] if arg is not None else []) + ["--log_dir", log, "-m", case["opt"]["mode"]]
                argv += ["--no_format"] if case["opt"]["no_format"] else []
                argv += ["--only_complete"] if case["opt"]["only_complete"] else []
                argv += ["--exclude", case["exclude"]] if case["exclude"] else []
                argv += ["--" + k for k in lists]
                old, sys.argv = sys.argv, argv
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        m.main()
                    finally:
                        sys.argv = old
            else:
                c = new_converter(log_dir=log, **case["opt"], **lists)
                c.run(src, arg, case["exclude"])
        except (Exception, SystemExit) as e:
            failed = e
        finally:
            _rec["on"] = False
        after = snapshot(d)

        def under(path, top):
            return path == top or path.startswith(top + "/")

        def ok(path):
            return any(under(path, a) for a in allowed)

        where = "\nlayout %s, %s, output before: %s, bad: %s, options %s, log %s, lists %s, cli %s\nraised: %r" % (lay, case["what"], pre, case["bad"], case["opt"], case["log"], case["lists"], case["cli"], failed)
        short = lambda p: p.replace(d, "<D>")
        for ev, p in _rec["events"]:
            if ev in STARTS:
                raise Violation("a conversion starts something else: %s %s%s" % (ev, p, where), "starts:" + ev)
            if ok(p):
                if ev in ("os.remove", "os.rmdir", "shutil.rmtree", "os.rename") and pre != "clash":
                    raise Violation("%s of %s%s" % (ev, short(p), where), "deletes:" + ev)
                continue
            if ev == "os.mkdir" and p in made:
                continue
            raise Violation("%s of %s, outside the output%s" % (ev, short(p), where), "escape:" + ev)
        for rel in set(before) | set(after):
            p = os.path.join(d, rel)
            if ok(p):
                continue
            b, a = before.get(rel), after.get(rel)
            if b == a:
                continue
            if b is None and a[0] == "dir" and p in made:
                continue
            raise Violation("%s changed from %r to %r%s" % (short(p), b and b[:3], a and a[:3], where), "changed")
        # files of the output directory that have no counterpart in the input stay
        if pre in ("files", "readonly"):
            for rel in ("keep.txt", "zz/keep.py"):
                p = os.path.relpath(os.path.join(base, rel), d)
                if after.get(p) != before.get(p):
                    raise Violation("%s in the output directory was changed%s" % (rel, where), "clobbered")
        if failed is not None and not (case["bad"] or pre == "clash" or case["lists"]):
            raise Violation("the run failed: %r%s" % (failed, where), crash_sig(failed) if isinstance(failed, Exception) else "exit")
        return Info(len(after) > len(before) or failed is not None)


class C(Check):
    id = "C10"
    rule = "the run created at least one file or failed half-way; distinct arrangements"
    assumptions = [
        "writes are observed twice: by comparing snapshots (content, mode, times, links) of a scratch world around the run, and by an audit hook that records every path opened for writing, created, renamed or removed and blocks those outside the scratch world",
        "failures are injected as files that cannot be decoded or parsed and as output paths that cannot be written; with output clashes, replacing a file by a directory inside the output directory is allowed",
    ]
    families = [Confined()]


CHECK = C()
