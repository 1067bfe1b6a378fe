"""corpus/exec_out.json.xz: how the programs C16 starts from are converted today. Only used
to choose which of them to execute first."""
import json
import lzma
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import c16  # noqa: E402

if len(sys.argv) > 1:
    c16._c["ch"] = []
    c16.Same().setup_main()
    with open(sys.argv[1], "w") as f:
        json.dump(c16.all_fingerprints(), f)
    sys.exit()
runs = []
for k in range(3):
    subprocess.run([sys.executable, __file__, "/tmp/fp.json"], env=dict(os.environ, PYTHONHASHSEED=str(k)), check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open("/tmp/fp.json") as f:
        runs.append(json.load(f))
# what differs from run to run does not count
a = [[x if x == y == z else -1 for x, y, z in zip(*hs)] for hs in zip(*runs)]
print(len(a), "unstable:", [c16.corpus()[i][0] for i in range(len(a)) if -1 in a[i]])
with lzma.open(os.path.join(V, "corpus", "exec_out.json.xz"), "wt") as f:
    json.dump(a, f, separators=(",", ":"))
