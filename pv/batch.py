"""Child process of C12: convert a list of inputs and report what was written.

argv: spec file (JSON: cases, where, order, opts), result file."""
import ast
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import env  # noqa: E402,F401


def shuffle_listing(seed):
    rng = random.Random(seed)
    real_list, real_scan = os.listdir, os.scandir

    def listdir(*a):
        x = sorted(real_list(*a))
        rng.shuffle(x)
        return x

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)

        def __iter__(self):
            return self

    def scandir(*a):
        with real_scan(*a) as it:
            x = sorted(it, key=lambda e: str(e.name))
        rng.shuffle(x)
        return Scan(x)

    os.listdir, os.scandir = listdir, scandir


def hide(text, outd):
    """Without the path of the output directory, however it is quoted."""

    def sub(m):
        try:
            return 'sys.path.append("OUT")\n' if ast.literal_eval(m.group(1)) == outd else m.group(0)
        except (SyntaxError, ValueError):
            return m.group(0)

    return re.sub(r"sys\.path\.append\(\s*(.*?)\s*\)\n", sub, text, flags=re.S).replace(outd, "OUT")


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        spec = json.load(f)
    from pv.conv import new_converter
    from pv.trees import materialise, snapshot

    out = []
    for i, case in enumerate(spec["cases"]):
        top = os.path.join(spec["where"], "c%d" % i)
        ind, outd = os.path.join(top, "in"), os.path.join(top, "out")
        materialise(ind, case["tree"])
        try:
            if spec["order"] is not None and i == 0:
                shuffle_listing(spec["order"])
            if case["single"]:
                n = sorted(case["tree"])[0]
                r = new_converter(**case["opts"]).run(os.path.join(ind, n), os.path.join(outd, n))
            else:
                r = new_converter(**case["opts"]).run(ind, outd)
            res = list(r)
        except Exception as e:
            res = "%s: %s" % (type(e).__name__, str(e).replace(top, "TOP")[:200])
        files = {}
        for rel, v in snapshot(outd).items() if os.path.isdir(outd) else ():
            files[rel] = hide(v[2].decode("utf-8", "surrogateescape"), outd) if v[0] == "file" else v[0]
        out.append([files, res])
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(out, f)  # lone surrogates are escaped


if __name__ == "__main__":
    main()
