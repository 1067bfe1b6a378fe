"""One-off: /tmp/x/rec.json (calls of APIBase.run made by the repository's tests) ->
corpus/exec.json.xz, the programs C16 starts from."""
import json
import lzma
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BAD = re.compile(r"\bsave\b|open\(|\bload\b|\bos\b|\bsys\b|subprocess|multiprocessing|distributed|cuda|download|hub\b|onnx|tempfile|thread|\brpc\b|pickle|hipify|profiler|cpp_extension|DataLoader|transformers|flash_attn|fairscale|print\(|time\b|exit|\bset_default|set_num|torchvision.datasets|compile|requests|jit|dump|writer|getpid|socket|/tmp|\.pt\b|pathlib|shutil|__file__|worker|from_file")
RAND = re.compile(r"rand|normal|dropout|multinomial|poisson|bernoulli|uniform|exponential_|geometric_|cauchy|seed|sample|empty|shuffle|init|Linear|Conv|nn\.[A-Z]", re.I)
seen, out = set(), []
for r in json.load(open("/tmp/x/rec.json")):
    if r["unsup"] or not r["names"] or r["own"] or r["expect"] or BAD.search(r["code"]):
        continue
    if (r["code"], tuple(r["names"])) in seen:
        continue
    seen.add((r["code"], tuple(r["names"])))
    out.append([r["id"].replace("tests.", "", 1), r["api"], r["code"].strip("\n") + "\n", r["names"], r["opt"]])
with lzma.open(os.path.join(V, "corpus", "exec.json.xz"), "wt") as f:
    json.dump(out, f)
print(len(out), os.path.getsize(os.path.join(V, "corpus", "exec.json.xz")), sum(bool(RAND.search(x[2])) for x in out))
