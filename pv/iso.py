"""Run a function in a forked child and get its result back."""
import os
import pickle
import signal
import traceback

from pv.conv import Violation


class ChildDied(Exception):
    pass


def in_child(fn, *a, **kw):
    """fn's result, or its Violation, computed in a child process whose state is lost."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("ok", fn(*a, **kw))
            except Violation as v:
                out = ("violation", (str(v), v.sig))
            except BaseException:
                out = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
    except BaseException:
        # the case's time limit: do not leave the child behind
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not raw:
        raise ChildDied("child process died")
    kind, val = pickle.loads(raw)
    if kind == "violation":
        raise Violation(*val)
    if kind == "error":
        raise ChildDied(val)
    return val
