#!/opt/venv/bin/python
"""Nothing has to be built: see that the pieces the checks need are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import env  # noqa: E402,F401
from pv import api, mapping  # noqa: E402
from pv.conv import convert  # noqa: E402

assert len(api.apis()) > 2000 and len(mapping.load()["table"]) > 2000
r = convert("import torch\ny = torch.abs(x)\n")
assert "torch" in "import torch" and r.code, r.code
print("ok")
