"""Build corpus/snippets.json.gz from /repo/tests: (file, test, torch source, result names, run options).

One-off tool: the corpus it writes is committed, so checks never read /repo/tests.
"""
import ast, glob, gzip, json, os, textwrap, sys

OUT = os.path.join(os.path.dirname(__file__), "..", "corpus", "snippets.json.gz")

def const(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return None

def text_of(node):
    if isinstance(node, ast.Call) and ast.unparse(node.func).endswith("dedent"):
        v = const(node.args[0])
        return textwrap.dedent(v) if isinstance(v, str) else None
    v = const(node)
    return v if isinstance(v, str) else None

stable = set()
b = json.load(open("/opt/vp/BASELINE.json"))
def walk(o):
    if isinstance(o, str): stable.add(o)
    elif isinstance(o, list): [walk(x) for x in o]
    elif isinstance(o, dict): [walk(x) for x in o.values()]
walk(b)
rows = []
for f in sorted(glob.glob("/repo/tests/**/*.py", recursive=True)):
    src = open(f, encoding="utf8").read()
    try: tree = ast.parse(src)
    except SyntaxError: continue
    objs = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.targets[0], ast.Name):
            objs[st.targets[0].id] = ast.unparse(st.value)
    for fn in tree.body:
        if not (isinstance(fn, ast.FunctionDef) and fn.name.startswith("test")): continue
        codes = {}
        for st in ast.walk(fn):
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                t = text_of(st.value)
                if t is not None: codes[st.targets[0].id] = t
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "run" and c.args:
                if isinstance(c.args[0], ast.Name) and c.args[0].id in codes:
                    names = const(c.args[1]) if len(c.args) > 1 else None
                    opts = {}
                    for k in c.keywords:
                        v = const(k.value)
                        if k.arg == "compared_tensor_names": names = v; continue
                        if isinstance(k.value, ast.Name) and k.value.id in codes: v = codes[k.value.id]
                        opts[k.arg] = v
                    rows.append({"file": os.path.relpath(f, "/repo/tests"), "test": fn.name, "code": codes[c.args[0].id], "names": names, "opts": opts, "obj": objs.get(ast.unparse(c.func.value), "")})
print(len(rows), len({r["file"] for r in rows}))
os.makedirs(os.path.dirname(OUT), exist_ok=True)
if len(sys.argv) > 1: OUT = sys.argv[1]
data = json.dumps(rows, ensure_ascii=False, indent=0).encode()
with gzip.GzipFile(OUT, "wb", mtime=0) as g: g.write(data)
print(len(data), os.path.getsize(OUT))
import collections
print(collections.Counter(k for r in rows for k in r["opts"]), collections.Counter(r["obj"].split("(")[0] for r in rows))
