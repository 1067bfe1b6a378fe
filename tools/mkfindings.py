"""Lists the repaired defects (the fix: commits of /repo) in known_findings.json; the
recorded ones under "findings" are kept."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # first words of the commit subject -> property
    "emit every valid": "C01", "keep the converted code unformatted": "C01", "keep the docstring and": "C02",
    "do not turn a string": "C01", "keep a body valid": "C02", "insert the extra lines": "C03",
    "make the converted code independent": "C12", "do not convert the output directory": "C10",
    "replace only the torch dependency": "C09", "find the lines of unsupported": "C07",
    "keep the count of an API": "C08", "do not crash when a loaded cpp": "C02", "keep the packages imported after": "C17",
    "write the utils code of each": "C11", "negate the whole": "C06", "use the dim of input": "C06",
    "do not overwrite the input of index_copy": "C06", "mark an API whose usage": "C02", "torch.autograd.Function.backward": "C02",
    "make the temporary variables": "C19", "keep the quotes in variable": "C06", "convert the APIs inside the object": "C06",
    "keep the escapes in the object": "C06", "keep every ** argument": "C06", "read the encoding": "C02",
    "do not abort on torch.utils.data.dataloader": "C02", "check every argument when": "C05", "keep bidirectional": "C06",
    "do not invert some": "C06", "keep count and offset": "C06", "convert an imported API wherever": "C04",
    "do not take a variable for an API": "C17", "do not crash on variables named": "C02", "do not take a parameter": "C17",
    "mark the package itself": "C07", "do not crash on an attribute of an API": "C02", "mark 'from torch import *'": "C07",
    "report a marked API": "C08", "do not crash on the unaligned": "C08",
}
EXTRA = os.path.join(V, "tools", "fix_props.json")
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
path = os.path.join(V, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "2d71e78..HEAD"], capture_output=True, text=True).stdout
fixed = []
for line in log.strip().split("\n"):
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pid = [v for k, v in PROP.items() if s.startswith(k)]
    assert pid, s
    fixed.append("fixed: property=%s %s %s" % (pid[0], h, s))
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"), indent=1)
print(len(fixed), "fixed;", len(old["findings"]), "recorded")
