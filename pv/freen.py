"""Global names a module refers to without binding them."""
import builtins
import symtable

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__builtins__", "__annotations__", "__class__", "__spec__", "__loader__", "__package__", "__module__", "__qualname__"}


def scan(src):
    """(referenced global names, names bound at module level)"""
    top = symtable.symtable(src, "<m>", "exec")
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    refs = {s.get_name() for s in top.get_symbols() if s.is_referenced()}
    stack = list(top.get_children())
    while stack:
        t = stack.pop()
        for s in t.get_symbols():
            if s.is_global():
                if s.is_declared_global() and s.is_assigned():
                    bound.add(s.get_name())
                if s.is_referenced():
                    refs.add(s.get_name())
        stack.extend(t.get_children())
    return refs, bound


def free(src, provided=()):
    refs, bound = scan(src)
    return refs - bound - BUILTINS - set(provided)
