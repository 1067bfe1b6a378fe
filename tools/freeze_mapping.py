#!/opt/venv/bin/python
"""Record the mapping contract (corpus/mapping.json.xz) from the current tree."""
import json
import lzma
import multiprocessing
import os
import sys

os.environ["PYTHONHASHSEED"] = "0"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import env  # noqa: E402
from pv import api, mapping  # noqa: E402
from pv.conv import Violation, convert, parse_out  # noqa: E402


def one(nm):
    out = []
    for e in mapping.cases(nm):
        src = mapping.source(nm, e)
        try:
            compile(src, "x", "exec")
        except SyntaxError:
            out.append(None)
            continue
        r = convert(src)
        out.append([mapping.normal(parse_out(r, src)), r.ok, r.fail])
    return nm, out


if __name__ == "__main__":
    env.scratch_root()
    with multiprocessing.get_context("fork").Pool(8) as p:
        res = dict(p.imap_unordered(one, sorted(api.apis()), chunksize=4))
    table, index = {}, {}
    texts = []
    for nm in sorted(res):
        row = []
        for c in res[nm]:
            if c is None:
                row.append(None)
                continue
            t = c[0]
            if t not in index:
                index[t] = len(texts)
                texts.append(t)
            row.append([index[t], c[1], c[2]])
        table[nm] = row
    raw = json.dumps({"texts": texts, "table": table}, separators=(",", ":")).encode()
    with open(mapping.PATH, "wb") as f:
        f.write(lzma.compress(raw, preset=9))
    print(len(table), sum(len(v) for v in table.values()), len(raw), os.path.getsize(mapping.PATH))
