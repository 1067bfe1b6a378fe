"""Drives one check: generates cases in parallel workers, asks the oracle, shrinks
failures, writes replay and evidence files, and turns the outcome into an exit code."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback

from pv import env
from pv.conv import Violation

from pv.pygen import D

REPLAYS = os.path.join(env.VERIF, "replays")
EVIDENCE = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.json")
CASE_TIMEOUT = 60
SHRINK_SECONDS = 20


class Info:
    """What an oracle says about a case it accepted."""

    __slots__ = ("nontrivial", "key")

    def __init__(self, nontrivial=True, key=None):
        self.nontrivial, self.key = nontrivial, key


class Family:
    """One generator/oracle pair of a check.

    `gen(d)` draws a JSON-able case (None discards it); `check(case)` raises
    Violation or returns an Info. Override `cases(tier, seed)` instead of `gen`
    for a sweep over an enumerated space.
    """

    name = "family"
    quick = 400  # examples per worker
    thorough = 6000

    def gen(self, d):
        raise NotImplementedError

    def cases(self, tier, seed):
        return None

    def check(self, case):
        raise NotImplementedError

    def shrinks(self, case):
        return ()

    def setup(self):
        pass

    def setup_main(self):
        """Once, before the workers are forked."""


class Check:
    id = "C00"
    level = "exploration"
    rule = ""
    assumptions = []
    families = []
    workers = 8
    quick_seconds = 240
    thorough_seconds = 3000


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def guarded(fam, case):
    """Run the oracle under a time limit; a hang is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(fam, "case_timeout", CASE_TIMEOUT))
    try:
        return fam.check(case)
    except _Timeout:
        raise Violation("no result within %d s" % getattr(fam, "case_timeout", CASE_TIMEOUT), "hang")
    except RecursionError as e:
        raise Violation("RecursionError: %s" % str(e)[:100], "recursion")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _key(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, ensure_ascii=True).encode(), digest_size=8
    ).hexdigest()


class Stats:
    def __init__(self):
        self.evals = 0
        self.discarded = 0
        self.keys = set()
        self.samples = []
        self.violations = []  # (family, sig, msg, case)
        self.known = {}
        self.per_family = {}

    def note(self, fam, case, info):
        self.evals += 1
        pf = self.per_family.setdefault(fam.name, [0, 0])
        pf[0] += 1
        if info is None:
            info = Info()
        if info.nontrivial:
            k = info.key or _key(case)
            k = fam.name + ":" + k
            if k not in self.keys:
                self.keys.add(k)
                pf[1] += 1
                if pf[1] <= 2:
                    self.samples.append({"family": fam.name, "case": _short(case)})


def _short(x, n=700):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def shrink(fam, seq, sig, seconds=SHRINK_SECONDS):
    """Minimise the recorded choices (shortest, then smallest) while the oracle
    still rejects the case they generate in the same way."""
    stop = time.time() + seconds
    best = None

    def attempt(cand):
        nonlocal seq, best
        d = D(None, cand)
        try:
            case = fam.gen(d)
        except RecursionError:
            return False
        rec = d.rec
        while rec and rec[-1] == 0:
            rec.pop()
        if case is None or (len(rec), rec) >= (len(seq), seq):
            return False
        try:
            guarded(fam, case)
        except Violation as v:
            if v.sig == sig:
                seq, best = rec, (v.sig, str(v), case)
                return True
        return False

    attempt(list(seq) + [0])
    changed = True
    while changed and time.time() < stop:
        changed = False
        size = max(1, len(seq) // 2)
        while size >= 1 and time.time() < stop:
            i = 0
            while i < len(seq) and time.time() < stop:
                if attempt(seq[:i] + seq[i + size:]) or (any(seq[i:i + size]) and attempt(seq[:i] + [0] * len(seq[i:i + size]) + seq[i + size:])):
                    changed = True
                else:
                    i += size
            size //= 2
        for i in range(len(seq)):
            if time.time() > stop or i >= len(seq):
                break
            for v in (seq[i] // 2, seq[i] - 1):
                if 0 <= v < seq[i] and attempt(seq[:i] + [v] + seq[i + 1:]):
                    changed = True
                    break
    return best


def run_gen(fam, seed, n, deadline, known, stats):
    rng = random.Random(seed)
    seen = set()
    for _ in range(n):
        if time.time() > deadline:
            break
        d = D(rng)
        case = fam.gen(d)
        if case is None:
            stats.discarded += 1
            continue
        try:
            stats.note(fam, case, guarded(fam, case))
        except Violation as v:
            k = (fam.name, v.sig)
            if k in known:
                stats.known[k] = stats.known.get(k, 0) + 1
                continue
            if v.sig in seen:
                continue
            seen.add(v.sig)
            best = (v.sig, str(v), case)
            if getattr(fam, "shrinkable", True):
                best = shrink(fam, d.rec, v.sig) or best
            stats.violations.append((fam.name,) + best)
            if len(seen) >= 3:
                break


def run_enum(fam, cases, deadline, known, stats):
    bad = 0
    for case in cases:
        if time.time() > deadline or bad >= 3:
            break
        try:
            stats.note(fam, case, guarded(fam, case))
        except Violation as v:
            if (fam.name, v.sig) in known:
                stats.known[(fam.name, v.sig)] = stats.known.get((fam.name, v.sig), 0) + 1
                continue
            best = (v.sig, str(v), case)
            progress, t0 = True, time.time()
            while progress and time.time() < t0 + SHRINK_SECONDS:
                progress = False
                for smaller in fam.shrinks(best[2]):
                    try:
                        guarded(fam, smaller)
                    except Violation as v2:
                        if v2.sig == best[0]:
                            best, progress = (v2.sig, str(v2), smaller), True
                            break
            stats.violations.append((fam.name,) + best)
            bad += 1


def worker(check, tier, seed, w, nw, out, deadline, known):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    stats, err = Stats(), None
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        env.quiet()
        fams = list(check.families)
        for i, fam in enumerate(fams):
            fam.setup()
            cs = fam.cases(tier, seed)
            now = time.time()
            # share what is left of the time between the families still to run
            share = now + max(5.0, (deadline - now) / (len(fams) - i) * 1.5)
            stop = min(deadline, share) if i < len(fams) - 1 else deadline
            if cs is not None:
                run_enum(fam, cs[w::nw], stop, known, stats)
            else:
                n = fam.quick if tier == "quick" else fam.thorough
                # a worker's seed depends on the run's seed, the family and the worker
                s = int(hashlib.sha256(("%d/%s/%s/%d" % (seed, check.id, fam.name, w)).encode()).hexdigest()[:12], 16)
                random.seed(s)
                run_gen(fam, s, n, stop, known, stats)
    except BaseException:
        err = traceback.format_exc()
    tmp = out + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump((stats, err), f)
    os.rename(tmp, out)
    os._exit(0)


def load_check(cid):
    return importlib.import_module("checks.%s" % cid.lower()).CHECK


def load_known(cid):
    try:
        with open(KNOWN, encoding="utf-8") as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == cid]


def fam_by_name(check, name):
    for f in check.families:
        if f.name == name:
            return f
    raise KeyError(name)


def replay(check, path):
    with open(path, encoding="utf-8") as f:
        r = json.load(f)
    fam = fam_by_name(check, r["family"])
    fam.setup_main()
    fam.setup()
    try:
        guarded(fam, r["case"])
    except Violation as v:
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("replay passes: property=%s family=%s" % (check.id, fam.name))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int)
    ap.add_argument("--only", help="run only this family")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args(argv)
    t0 = time.time()
    check = load_check(a.check)
    if a.replay:
        return replay(check, a.replay)
    if a.only:
        check.families = [fam_by_name(check, a.only)]

    # listed findings: each is re-executed, announced, and only its exact
    # signature is tolerated below
    known, knowns = set(), []
    for e in load_known(check.id):
        if e.get("status") == "fixed":
            continue
        try:
            fam = fam_by_name(check, e["family"])
        except KeyError:
            continue
        fam.setup_main()
        fam.setup()
        try:
            guarded(fam, e["case"])
        except Violation as v:
            if v.sig == e["sig"]:
                known.add((e["family"], e["sig"]))
                knowns.append(e)

    for fam in check.families:
        fam.setup_main()
    budget = a.seconds or (check.quick_seconds if a.tier == "quick" else check.thorough_seconds)
    deadline = time.time() + budget
    nw = a.workers or check.workers
    outs, procs = [], []
    root = env.scratch_root()
    ctx = multiprocessing.get_context("fork")
    for w in range(nw):
        out = os.path.join(root, "w%d.pkl" % w)
        outs.append(out)
        p = ctx.Process(target=worker, args=(check, a.tier, a.seed, w, nw, out, deadline, known))
        p.start()
        procs.append(p)
    for p in procs:
        p.join(max(1.0, deadline + 200 - time.time()))
    total, errors = Stats(), []
    for w, (p, out) in enumerate(zip(procs, outs)):
        if p.is_alive():
            p.kill()
            errors.append("worker %d did not finish in time" % w)
            continue
        if not os.path.exists(out):
            errors.append("worker %d died (exit code %s)" % (w, p.exitcode))
            continue
        with open(out, "rb") as f:
            s, err = pickle.load(f)
        if err:
            errors.append("worker %d: %s" % (w, err))
        total.evals += s.evals
        total.discarded += s.discarded
        total.keys |= s.keys
        total.violations += s.violations
        for k, v in s.known.items():
            total.known[k] = total.known.get(k, 0) + v
        for x in s.samples:
            if sum(1 for y in total.samples if y["family"] == x["family"]) < 3:
                total.samples.append(x)
        for k, v in s.per_family.items():
            o = total.per_family.setdefault(k, [0, 0])
            o[0] += v[0]
            o[1] += v[1]

    for e in knowns:
        print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
    best = {}
    for fam, sig, msg, case in total.violations:
        k = (fam, sig)
        if k not in best or len(json.dumps(case)) < len(json.dumps(best[k][1])):
            best[k] = (msg, case)
    lines = []
    if best:
        os.makedirs(REPLAYS, exist_ok=True)
    for (fam, sig), (msg, case) in sorted(best.items()):
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (check.id, fam, _key([sig, case])[:8]))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": check.id, "family": fam, "sig": sig, "case": case, "message": msg}, f, ensure_ascii=True, indent=1)
        print("--- %s / %s / %s\n%s" % (check.id, fam, sig, msg[:3000]))
        lines.append("VIOLATION property=%s replay=%s" % (check.id, path))
    wall = time.time() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": check.id, "tier": a.tier, "seed": a.seed, "level": check.level,
        "coverage": {
            "evaluations": total.evals, "distinct_nontrivial": len(total.keys),
            "rule": check.rule, "samples": total.samples,
            "discarded": total.discarded, "workers": nw,
            "per_family": {k: {"evaluations": v[0], "distinct_nontrivial_per_worker_sum": v[1]} for k, v in sorted(total.per_family.items())},
        },
        "wall_s": round(wall, 2), "violations": len(best),
        "assumptions": check.assumptions,
        "known_findings": [e["what"] for e in knowns],
    }
    with open(os.path.join(EVIDENCE, check.id + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (check.id, a.tier, a.seed, total.evals, len(total.keys), total.discarded, wall))
    for k, v in sorted(total.per_family.items()):
        print("    %-28s %6d cases %6d non-trivial" % (k, v[0], v[1]))
    if lines:
        # a reproduced violation decides the run even if a worker also failed
        for e in errors:
            sys.stderr.write(e + "\n")
        print("\n".join(lines))
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + "\n")
        return 2
    if total.evals == 0:
        sys.stderr.write("no case was evaluated\n")
        return 2
    return 0
