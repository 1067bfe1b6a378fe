"""Process environment for every check: import paths, silence, scratch space."""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.setrecursionlimit(3000)

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
_base = None


def scratch_root():
    """A scratch directory private to this run, removed when the run ends."""
    global _base
    if _base is None:
        parent = os.environ.get("PV_SCRATCH")
        if not parent:
            parent = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _base = os.path.realpath(tempfile.mkdtemp(prefix="pv-", dir=parent))
        owner = os.getpid()

        def _rm(path=_base, owner=owner):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_rm)
    return _base


_count = 0


def fresh_dir(tag="d"):
    """A new empty directory under the scratch root, unique to this process."""
    global _count
    while True:
        _count += 1
        p = os.path.join(scratch_root(), "p%d" % os.getpid(), "%s%d" % (tag, _count))
        try:
            os.makedirs(p)
        except FileExistsError:  # left by a process that had this number before
            continue
        return p


def quiet():
    logging.disable(logging.CRITICAL)
