"""Equality of programs modulo what a formatter may legitimately change."""
import ast
import copy
import textwrap


def _clean_doc(s):
    lines = [l.strip() for l in s.expandtabs().split("\n")]
    return "\n".join(lines).strip()


class _F(ast.NodeTransformer):
    def _docstring(self, node):
        # black and isort re-indent docstrings and bare string statements
        for st in ast.walk(node):
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                st.value.value = _clean_doc(st.value.value.replace("\r", "\n"))
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.JoinedStr):
                for v in st.value.values:
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        v.value = "".join(v.value.split())

    def body(self, stmts):
        """Split imports into single aliases; sort and dedupe each run of imports."""
        out, run = [], []

        def flush():
            seen = []
            for s in sorted(run, key=ast.dump):
                if not seen or ast.dump(seen[-1]) != ast.dump(s):
                    seen.append(s)
            out.extend(seen)
            run.clear()

        for s in stmts:
            if isinstance(s, ast.Import):
                run.extend(ast.Import(names=[a]) for a in s.names)
            elif isinstance(s, ast.ImportFrom) and s.module != "__future__":
                run.extend(ast.ImportFrom(module=s.module, names=[a], level=s.level) for a in s.names)
            else:
                flush()
                out.append(s)
        flush()
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.body(b))
        if isinstance(node, ast.Delete) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Tuple):
            node.targets = node.targets[0].elts
        if isinstance(node, ast.alias) and node.asname == node.name:
            node.asname = None
        if isinstance(node, ast.Constant):
            node.kind = None
        return node


def fmt_norm(tree):
    tree = copy.deepcopy(tree)
    f = _F()
    f._docstring(tree)
    return f.visit(tree)
