"""Generator of arbitrary Python programs (as ASTs, rendered by ast.unparse).

Everything is drawn through `D`, a recorded sequence of bounded choices, with the
simplest alternative first so that failures shrink towards short programs.
"""
import ast


class D:
    """A source of choices: replays `seq`, then draws from `rng` (or the simplest
    alternative when there is none), and records what was chosen."""

    def __init__(self, rng=None, seq=()):
        self.rng, self.seq = rng, seq
        self.rec = []

    def _draw(self, n):
        """An integer in [0, n)."""
        i = len(self.rec)
        if i < len(self.seq):
            v = self.seq[i]
            if v >= n:
                v = n - 1
        elif self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, a, b):
        return a + self._draw(b - a + 1)

    def choice(self, seq):
        return seq[self._draw(len(seq))]

    def bool(self, p=50):
        """True with probability about p%; shrinks to False."""
        return self._draw(100) >= 100 - p

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self._draw(len(seq))))
        return out

    def perm(self, seq):
        return self.sample(seq, len(seq))


NAMES = ["a", "b", "c", "foo", "bar", "self_", "data", "x", "y", "_p", "é", "Cls", "val", "cfg"]
ATTRS = ["zeta", "run_it", "_priv", "Kind", "value_", "append_it"]
KW = ["alpha", "beta", "gamma", "opt"]
STRS = [
    "s", "", "torch.abs(x)", "it's", 'say "hi"', "tri'''ple", 'tri"""ple', "line1\nline2", "tab\tq", "back\\slash",
    "{brace}", "{{}}", "import torch", "  torch.nn.Module ", "uni\u4e2d\u6587", "\x00\x7f", "'\"", "#no comment", "%s %d",
    "\r\n", "trailing\\", "a\n\ttorch.x\n", ">>>>>>", "\ud7ff", "\N{GRINNING FACE}", "torch",
    "sys.path", "sys.path.append(0)", "utils.data", "import sys", "paddle", "paddle_utils",
]
NUMS = [0, 1, 2, 10, 255, 10**20, 0.5, 1e-9, 1e300, 2.0, 3j, 0.1j, 1e22]
BYTES = [b"", b"ab", b"\x00\xff", b"'\"", b"\\n"]
BINOPS = [ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.LShift, ast.RShift, ast.BitOr, ast.BitAnd, ast.BitXor, ast.MatMult]
UNOPS = [ast.USub, ast.Not, ast.Invert, ast.UAdd]
CMPS = [ast.Eq, ast.NotEq, ast.Lt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn]
L, S = ast.Load(), ast.Store()


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


class Gen:
    """Program generator. Hooks `leaf`, `extra_expr`, `extra_stmt` let checks
    mix in their own fragments."""

    def __init__(self, d, names=NAMES, attrs=ATTRS, strs=STRS, modern=True, fstrings=True,
                 leaf=None, extra_expr=None, extra_stmt=None, extra_rate=0):
        self.d = d
        self.names, self.attrs, self.strs = names, attrs, strs
        self.modern = modern
        self.fstrings = fstrings
        self.leaf_hook, self.extra_expr, self.extra_stmt = leaf, extra_expr, extra_stmt
        self.extra_rate = extra_rate
        self.in_func = self.in_async = self.in_loop = self.in_class = False
        self.in_comp = self.in_lambda = False

    # -------------------------------------------------- expressions
    def nm(self):
        return self.d.choice(self.names)

    def const(self):
        d = self.d
        k = d.int(0, 9)
        if k <= 2:
            return ast.Constant(d.choice(NUMS))
        if k <= 6:
            return ast.Constant(d.choice(self.strs))
        if k == 7:
            return ast.Constant(d.choice([None, True, False]))
        if k == 8:
            return ast.Constant(d.choice(BYTES))
        return ast.Constant(...)

    def leaf(self):
        if self.leaf_hook and self.d.bool(40):
            return self.leaf_hook(self)
        return name(self.nm()) if self.d.bool(60) else self.const()

    def expr(self, n):
        d = self.d
        if self.extra_expr and self.extra_rate and d.bool(self.extra_rate):
            return self.extra_expr(self, n)
        if n <= 0:
            return self.leaf()
        k = d.int(0, 23)
        e = self.expr
        if k <= 1:
            return self.leaf()
        if k == 2:
            return ast.BinOp(left=e(n - 1), op=d.choice(BINOPS)(), right=e(n - 1))
        if k == 3:
            return ast.UnaryOp(op=d.choice(UNOPS)(), operand=e(n - 1))
        if k == 4:
            return ast.BoolOp(op=d.choice([ast.And, ast.Or])(), values=[e(n - 1) for _ in range(d.int(2, 3))])
        if k == 5:
            m = d.int(1, 2)
            return ast.Compare(left=e(n - 1), ops=[d.choice(CMPS)() for _ in range(m)], comparators=[e(n - 1) for _ in range(m)])
        if k in (6, 7, 8):
            return self.call(n)
        if k in (9, 10):
            return ast.Attribute(value=e(n - 1), attr=d.choice(self.attrs), ctx=L)
        if k == 11:
            return ast.Subscript(value=e(n - 1), slice=self.slice(n - 1), ctx=L)
        if k == 12:
            return ast.IfExp(test=e(n - 1), body=e(n - 1), orelse=e(n - 1))
        if k == 13:
            old = self.in_lambda, self.in_comp
            self.in_lambda = True
            r = ast.Lambda(args=self.arguments(n - 1, ann=False), body=e(n - 1))
            self.in_lambda, self.in_comp = old
            return r
        if k in (14, 15):
            cls = d.choice([ast.List, ast.Tuple, ast.Set])
            m = d.int(1 if cls is ast.Set else 0, 3)
            el = [ast.Starred(value=e(n - 1), ctx=L) if d.bool(10) else e(n - 1) for _ in range(m)]
            return ast.Set(elts=el) if cls is ast.Set else cls(elts=el, ctx=L)
        if k == 16:
            m = d.int(0, 3)
            return ast.Dict(keys=[None if d.bool(15) else e(n - 1) for _ in range(m)], values=[e(n - 1) for _ in range(m)])
        if k in (17, 18):
            return self.comp(n)
        if k in (19, 20):
            return self.fstring(n) if self.fstrings else self.leaf()
        if k == 21:
            if self.in_comp or self.in_class:
                return self.leaf()
            return ast.NamedExpr(target=name(self.nm(), S), value=e(n - 1))
        if k == 22 and self.in_func and not self.in_comp and not self.in_lambda:
            if self.in_async:
                return ast.Await(value=e(n - 1))
            return ast.Yield(value=e(n - 1)) if d.bool(70) else ast.YieldFrom(value=e(n - 1))
        return self.call(n)

    def slice(self, n):
        d = self.d

        def one():
            if d.bool(50):
                return ast.Slice(*[self.expr(n - 1) if d.bool(50) else None for _ in range(3)])
            return self.expr(n - 1)

        if d.bool(30):
            return ast.Tuple(elts=[one() for _ in range(d.int(1, 3))], ctx=L)
        return one()

    def call_args(self, n):
        d = self.d
        args = [ast.Starred(value=self.expr(n - 1), ctx=L) if d.bool(12) else self.expr(n - 1) for _ in range(d.int(0, 3))]
        kws = [ast.keyword(arg=k, value=self.expr(n - 1)) for k in d.sample(KW, d.int(0, 2))]
        if d.bool(12):
            kws.append(ast.keyword(arg=None, value=self.expr(n - 1)))
        return args, kws

    def call(self, n):
        d = self.d
        f = name(self.nm()) if d.bool(50) else ast.Attribute(value=self.expr(n - 1), attr=d.choice(self.attrs), ctx=L)
        a, k = self.call_args(n)
        return ast.Call(func=f, args=a, keywords=k)

    def comp(self, n):
        d = self.d
        old = self.in_comp
        self.in_comp = True
        gens = [
            ast.comprehension(target=self.simple_target(), iter=self.expr(n - 1), ifs=[self.expr(n - 1) for _ in range(d.int(0, 1))], is_async=0)
            for _ in range(d.int(1, 2))
        ]
        k = d.int(0, 3)
        if k == 3:
            r = ast.DictComp(key=self.expr(n - 1), value=self.expr(n - 1), generators=gens)
        else:
            r = [ast.ListComp, ast.GeneratorExp, ast.SetComp][k](elt=self.expr(n - 1), generators=gens)
        self.in_comp = old
        return r

    def fstring(self, n):
        d = self.d
        vals = []
        for _ in range(d.int(1, 3)):
            if d.bool(50):
                s = d.choice(self.strs)
                if vals and isinstance(vals[-1], ast.Constant):
                    continue
                if s and "\x00" not in s and "\\" not in s:
                    vals.append(ast.Constant(s))
            else:
                spec = None
                if d.bool(30):
                    spec = ast.JoinedStr(values=[ast.Constant(d.choice([">10", ".3f", "d"]))])
                vals.append(ast.FormattedValue(value=self.expr(min(n - 1, 1)), conversion=d.choice([-1, -1, 114, 115]), format_spec=spec))
        return ast.JoinedStr(values=vals)

    def simple_target(self):
        d = self.d
        if d.bool(25):
            return ast.Tuple(elts=[name(x, S) for x in d.sample(self.names, d.int(1, 2))], ctx=S)
        return name(self.nm(), S)

    def target(self, n):
        d = self.d
        k = d.int(0, 7)
        if k <= 3:
            return name(self.nm(), S)
        if k == 4:
            return ast.Attribute(value=self.expr(n - 1), attr=d.choice(self.attrs), ctx=S)
        if k == 5:
            return ast.Subscript(value=self.expr(n - 1), slice=self.slice(n - 1), ctx=S)
        el = [self.target(0) if n <= 0 else self.target(n - 1) for _ in range(d.int(1, 3))]
        if d.bool(20):
            el[-1] = ast.Starred(value=name(self.nm(), S), ctx=S)
        return (ast.Tuple if k == 6 else ast.List)(elts=el, ctx=S)

    def arguments(self, n, ann=True):
        d = self.d
        pool = d.sample(self.names, 6)

        def arg():
            a = ast.arg(arg=pool.pop())
            if ann and d.bool(30):
                a.annotation = self.expr(min(n, 1))
            return a

        po = [arg() for _ in range(d.int(0, 3) // 3)]
        ar = [arg() for _ in range(d.int(0, 2))]
        va = arg() if d.bool(15) else None
        ko = [arg() for _ in range(d.int(0, 3) // 3)]
        kwd = [self.expr(min(n, 1)) if d.bool(50) else None for _ in ko]
        if ko and va is None and not d.bool(50):
            ko, kwd = [], []
        ka = arg() if pool and d.bool(12) else None
        nd = d.int(0, len(po) + len(ar)) if d.bool(40) else 0
        return ast.arguments(posonlyargs=po, args=ar, vararg=va, kwonlyargs=ko, kw_defaults=kwd, kwarg=ka, defaults=[self.expr(min(n, 1)) for _ in range(nd)])

    # -------------------------------------------------- statements
    def block(self, n, lo=1, hi=3):
        out = []
        for _ in range(self.d.int(lo, hi)):
            out.extend(self.stmt(n))
        return out or [ast.Pass()]

    def stmt(self, n):
        """A list of statements (usually one)."""
        d = self.d
        if self.extra_stmt and self.extra_rate and d.bool(self.extra_rate):
            r = self.extra_stmt(self, n)
            if r:
                return r if isinstance(r, list) else [r]
        e = self.expr
        k = d.int(0, 27) if n > 0 else d.int(0, 11)
        if k <= 2:
            return [ast.Assign(targets=[self.target(1) for _ in range(1 if d.bool(85) else 2)], value=e(2))]
        if k == 3:
            return [ast.Expr(value=e(2))]
        if k == 4:
            t = self.target(0)
            while not isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
                t = name(self.nm(), S)
            return [ast.AugAssign(target=t, op=d.choice(BINOPS)(), value=e(2))]
        if k == 5:
            return [ast.AnnAssign(target=name(self.nm(), S), annotation=e(1), value=e(1) if d.bool(60) else None, simple=1)]
        if k == 6:
            return [ast.Assert(test=e(2), msg=e(1) if d.bool(40) else None)]
        if k == 7:
            x = e(1) if d.bool(80) else None
            return [ast.Raise(exc=x, cause=e(1) if x is not None and d.bool(30) else None)]
        if k == 8:
            if self.in_func:
                return [ast.Return(value=e(2) if d.bool(80) else None)]
            return [ast.Pass()]
        if k == 9:
            return [d.choice([ast.Pass, ast.Break, ast.Continue])() if self.in_loop else ast.Pass()]
        if k == 10:
            return [ast.Delete(targets=[ast.Subscript(value=name(self.nm()), slice=e(0), ctx=ast.Del()) for _ in range(d.int(1, 2))])]
        if k == 11:
            return [self.other_import()]
        if k in (12, 13):
            orelse = []
            if d.bool(50):
                orelse = self.block(n - 1, 1, 2)
            return [ast.If(test=e(2), body=self.block(n - 1, 1, 2), orelse=orelse)]
        if k in (14, 15, 16, 17):
            old = self.in_loop
            t = e(2)
            tgt = self.simple_target()
            self.in_loop = True
            body = self.block(n - 1, 1, 2)
            self.in_loop = old
            orelse = self.block(n - 1, 1, 1) if d.bool(25) else []
            if k == 14:
                return [ast.While(test=t, body=body, orelse=orelse)]
            if k == 15 and self.in_async and not self.in_comp:
                return [ast.AsyncFor(target=tgt, iter=t, body=body, orelse=orelse)]
            return [ast.For(target=tgt, iter=t, body=body, orelse=orelse)]
        if k in (18, 19):
            return [self.try_(n)]
        if k in (20, 21):
            items = [ast.withitem(context_expr=e(1), optional_vars=self.simple_target() if d.bool(50) else None) for _ in range(d.int(1, 2))]
            cls = ast.AsyncWith if self.in_async and d.bool(40) else ast.With
            return [cls(items=items, body=self.block(n - 1, 1, 2))]
        if k in (22, 23, 24):
            return [self.func(n)]
        if k == 25:
            return [self.class_(n)]
        if k == 26 and self.modern:
            return [self.match(n)]
        if k == 27 and self.modern and d.bool(40) and not self.in_class:
            return [ast.TypeAlias(name=name("Alias_t", S), type_params=[], value=e(1))]
        return [ast.Assign(targets=[name(self.nm(), S)], value=e(2))]

    def other_import(self):
        d = self.d
        if d.bool(50):
            return ast.Import(names=[ast.alias(name=x, asname=d.choice([None, "im_a"])) for x in d.sample(["sys", "json", "collections.abc", "numpy", "math"], d.int(1, 3))])
        lvl = 0 if d.bool(70) else d.int(1, 2)
        return ast.ImportFrom(module=d.choice(["numpy", "math", "json.decoder", "sklearn.base"]), names=[ast.alias(name=x, asname=d.choice([None, "im_b"])) for x in d.sample(["p", "q"], d.int(1, 2))], level=lvl)

    def try_(self, n):
        d = self.d
        star = self.modern and d.bool(8)
        hs = [ast.ExceptHandler(type=self.expr(1) if star or d.bool(85) else None, name=d.choice([None, "err"]), body=self.block(n - 1, 1, 1)) for _ in range(d.int(1, 2))]
        for h in hs[:-1]:
            if h.type is None:
                h.type = name("Exception")
        for h in hs:
            if h.type is None:
                h.name = None
        fin = self.block(n - 1, 1, 1) if d.bool(30) else []
        orelse = self.block(n - 1, 1, 1) if d.bool(30) else []
        body = self.block(n - 1, 1, 2)
        if fin and d.bool(30) and not star:
            hs, orelse = [], []
        if star:
            for h in hs:  # break/continue/return may not leave an except* block
                h.body = [ast.Pass()]
        return (ast.TryStar if star else ast.Try)(body=body, handlers=hs, orelse=orelse, finalbody=fin)

    def decorators(self):
        d = self.d
        return [self.expr(1) for _ in range(d.int(1, 2))] if d.bool(25) else []

    def tparams(self):
        if self.modern and self.d.bool(6):
            return [ast.TypeVar(name="TT")]
        return []

    def func(self, n):
        d = self.d
        deco = self.decorators()
        args = self.arguments(1)
        ret = self.expr(1) if d.bool(25) else None
        old = (self.in_func, self.in_async, self.in_loop, self.in_class, self.in_lambda)
        self.in_func, self.in_loop, self.in_class, self.in_lambda = True, False, False, False
        self.in_async = d.bool(25)
        body = self.block(n - 1, 1, 3)
        if d.bool(20):
            body = [ast.Expr(value=ast.Constant(d.choice(self.strs)))] + body
        cls = ast.AsyncFunctionDef if self.in_async else ast.FunctionDef
        self.in_func, self.in_async, self.in_loop, self.in_class, self.in_lambda = old
        return cls(name=self.nm(), args=args, body=body, decorator_list=deco, returns=ret, type_params=self.tparams())

    def class_(self, n):
        d = self.d
        deco = self.decorators()
        bases = [self.expr(1) for _ in range(d.int(0, 2))]
        kws = [ast.keyword(arg="metaclass", value=self.expr(0))] if d.bool(10) else []
        old = (self.in_func, self.in_async, self.in_loop, self.in_class)
        self.in_func, self.in_async, self.in_loop, self.in_class = False, False, False, True
        body = self.block(n - 1, 1, 3)
        if d.bool(20):
            body = [ast.Expr(value=ast.Constant(d.choice(self.strs)))] + body
        self.in_func, self.in_async, self.in_loop, self.in_class = old
        return ast.ClassDef(name="K" + self.nm(), bases=bases, keywords=kws, body=body, decorator_list=deco, type_params=self.tparams())

    def match(self, n):
        d = self.d

        def pat(m):
            k = d.int(0, 5)
            if k == 0 or m <= 0:
                return ast.MatchValue(value=ast.Constant(d.choice([1, "s", 2.5])))
            if k == 1:
                return ast.MatchSingleton(value=None)
            if k == 2:
                return ast.MatchSequence(patterns=[pat(m - 1) for _ in range(d.int(1, 2))])
            if k == 3:
                return ast.MatchClass(cls=name("Cls"), patterns=[pat(m - 1)], kwd_attrs=["zeta"], kwd_patterns=[pat(m - 1)])
            if k == 4:
                return ast.MatchMapping(keys=[ast.Constant("k")], patterns=[pat(m - 1)], rest=None)
            return ast.MatchOr(patterns=[ast.MatchValue(value=ast.Constant(1)), ast.MatchValue(value=ast.Constant(2))])

        cases = [ast.match_case(pattern=pat(2), guard=self.expr(1) if d.bool(30) else None, body=self.block(n - 1, 1, 1)) for _ in range(d.int(1, 2))]
        cases.append(ast.match_case(pattern=ast.MatchAs(), guard=None, body=self.block(n - 1, 1, 1)))
        return ast.Match(subject=self.expr(1), cases=cases)

    def module(self, n=3, lo=1, hi=5, doc=True, future=True):
        d = self.d
        body = []
        if doc and d.bool(25):
            body.append(ast.Expr(value=ast.Constant(d.choice([s for s in self.strs if s]))))
        if future and d.bool(10):
            body.append(ast.ImportFrom(module="__future__", names=[ast.alias(name="annotations")], level=0))
        body += self.block(n, lo, hi)
        return ast.Module(body=body, type_ignores=[])


def render(tree):
    """Source text whose AST is stable, or None if the tree is not a program
    Python itself accepts."""
    try:
        src = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
        compile(src, "<gen>", "exec", dont_inherit=True)
        src.encode("utf-8")
    except (SyntaxError, ValueError, UnicodeError, RecursionError, TypeError):
        return None
    return src
