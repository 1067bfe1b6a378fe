#!/opt/venv/bin/python
"""Snapshot of the API tables' call signatures (names, parameter lists), so that
the generators do not depend on the tables of the tree under test."""
import gzip
import json
import os
import sys

R = "/repo/paconvert/"
out = {}
ld = lambda f: json.load(open(R + f, encoding="utf-8"))
for name, v in ld("api_mapping.json").items():
    al = v.get("args_list") or []
    star = next((i for i, a in enumerate(al) if a.startswith("*") and a != "*"), None)
    if star is not None:  # "*args": what follows can only be given by keyword
        al = al[:star] + ["*"] + [a for a in al[star:] if not a.startswith("*")]
    pos = al[: al.index("*")] if "*" in al else al
    kwo = al[al.index("*") + 1:] if "*" in al else []
    out[name] = {
        "kind": "api", "pos": pos, "kwo": [k for k in kwo if k != "*"],
        "over": v.get("overload_args_list") or [], "min": v.get("min_input_args") or 0,
        "unsup": v.get("unsupport_args") or [], "off": "Matcher" not in v or "disable" in v,
        "prefix": v.get("Matcher") == "ChangePrefixMatcher",
    }
for name, v in ld("attribute_mapping.json").items():
    out[name] = {"kind": "attr", "pos": [], "kwo": [], "over": [], "min": 0, "unsup": [], "off": "Matcher" not in v or "disable" in v, "prefix": v.get("Matcher") == "ChangePrefixMatcher"}
alias = ld("api_alias_mapping.json")
dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "apis.json.gz")
with open(dst, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as g:
    g.write(json.dumps({"apis": out, "alias": alias}, sort_keys=True).encode())
print(len(out), os.path.getsize(dst))
