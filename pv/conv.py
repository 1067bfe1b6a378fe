"""The only module that touches PaConvert: drive its public entry points and
observe their results (files written, values returned, public counters)."""
import ast
import logging
import os
import shutil
import traceback

from pv import env

env.quiet()
from paconvert.converter import Converter  # noqa: E402


class Violation(Exception):
    """An oracle rejected a case. `sig` identifies the failure class."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or "unclassified"


class Result:
    __slots__ = ("code", "ok", "fail", "conv", "err")

    def __init__(self, code, ok, fail, conv, err=None):
        self.code, self.ok, self.fail, self.conv, self.err = code, ok, fail, conv, err


def new_converter(**kw):
    kw.setdefault("log_dir", "disable")
    env.quiet()
    c = Converter(**kw)
    if kw["log_dir"] == "disable":
        env.quiet()
        # every converter registers a logger for ever; thousands slow logging down
        reg = logging.Logger.manager.loggerDict
        for k in [k for k in reg if k.startswith("Converter")]:
            del reg[k]
    return c


def crash_sig(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "?"
    for fr in reversed(tb):
        if "/paconvert/" in fr.filename:
            where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
            break
    return "crash:%s:%s" % (type(e).__name__, where)


_slot = None


def convert(code, name="a.py", siblings=None, **kw):
    """Convert one source text as a single file and read back what was written.

    A fresh Converter per call; the file lives alone in its directory (plus
    `siblings`: relative path -> text). Raises Violation when PaConvert raises.
    """
    global _slot
    if _slot is None or not os.path.isdir(_slot[0]) or _slot[1] != os.getpid():
        _slot = (env.fresh_dir("slot"), os.getpid())
    d = _slot[0]
    ind, outd = os.path.join(d, "in"), os.path.join(d, "out")
    for p in (ind, outd):
        if siblings or not os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
            os.makedirs(p)
    src, dst = os.path.join(ind, name), os.path.join(outd, name)
    for rel, text in (siblings or {}).items():
        p = os.path.join(ind, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
    with open(src, "w", encoding="utf-8", newline="") as f:
        f.write(code)
    if os.path.exists(dst):
        os.remove(dst)
    kw.setdefault("no_format", True)
    c = new_converter(**kw)
    try:
        ok, fail = c.run(src, dst)
    except Exception as e:
        raise Violation(
            "conversion of a valid input raised %s: %s\n--- input\n%s"
            % (type(e).__name__, str(e)[:300], code[:4000]),
            crash_sig(e),
        )
    finally:
        if siblings:
            keep = None
            try:
                with open(dst, encoding="utf-8", newline="") as f:
                    keep = f.read()
            except OSError:
                pass
            shutil.rmtree(ind, ignore_errors=True)
            shutil.rmtree(outd, ignore_errors=True)
    if siblings:
        text = keep
    else:
        text = None
        if os.path.exists(dst):
            with open(dst, encoding="utf-8", newline="") as f:
                text = f.read()
    if text is None:
        raise Violation("no output file was written\n--- input\n%s" % code[:4000], "no-output")
    return Result(text, ok, fail, c)


def convert_dir(files, **kw):
    """Convert {relative path: text} as a directory: ({path: text}, ok, fail)."""
    d = env.fresh_dir("prj")
    ind, outd = os.path.join(d, "in"), os.path.join(d, "out")
    try:
        for rel, text in files.items():
            p = os.path.join(ind, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
        kw.setdefault("no_format", True)
        c = new_converter(**kw)
        try:
            ok, fail = c.run(ind, outd)
        except Exception as e:
            raise Violation("conversion of a valid project raised %s: %s\n--- input\n%s" % (type(e).__name__, str(e)[:300], "\n".join("# %s\n%s" % kv for kv in files.items())[:4000]), crash_sig(e))
        out = {}
        for base, _, names in os.walk(outd):
            for n in names:
                p = os.path.join(base, n)
                with open(p, encoding="utf-8", newline="") as f:
                    out[os.path.relpath(p, outd)] = f.read().replace(d, "/T")
        return out, ok, fail
    finally:
        shutil.rmtree(d, ignore_errors=True)


MARK = ">>>>>>"


def strip_marks(text):
    return "\n".join(
        l[len(MARK):] if l.startswith(MARK) else l for l in text.split("\n")
    )


def parse_out(res, src):
    """AST of the output once the unsupported-line markers are removed."""
    try:
        return ast.parse(strip_marks(res.code))
    except SyntaxError as e:
        raise Violation(
            "output is not valid Python: %s\n--- input\n%s\n--- output\n%s"
            % (e, src[:4000], res.code[:4000]),
            "invalid-output",
        )
    except ValueError as e:
        raise Violation("output cannot be parsed: %s" % e, "invalid-output")
