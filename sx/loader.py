"""Loads the code under test from its current source, in two forms: rewritten
for symbolic execution, and as it stands (for replay)."""

import ast
import builtins
import os
import re as _re
import types

from . import core, rt, rex, strs

REPO = os.environ.get("SX_REPO", "/repo")


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record_names):
        self.mod = modname
        self.stack = []
        self.infunc = 0
        self.record = record_names

    # ---- helpers
    def _call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    # ---- definitions
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        saved, self.infunc = self.infunc, 0
        self.generic_visit(n)
        self.infunc = saved
        self.stack.pop()
        n.decorator_list.append(ast.Name("_sx_class_", ast.Load()))
        return n

    def _func(self, n):
        # decorators and defaults are evaluated outside
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d)
                              for d in n.args.kw_defaults]
        self.stack.append(n.name)
        self.infunc += 1
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.infunc -= 1
        qual = ".".join(self.stack)
        self.stack.pop()
        if self.record:
            k = 0
            if (body and isinstance(body[0], ast.Expr)
                    and isinstance(body[0].value, ast.Constant)
                    and isinstance(body[0].value.value, str)):
                k = 1
            body.insert(k, ast.Expr(self._call(
                "_sx_enter_", ast.Constant(f"{self.mod}.{qual}"))))
        n.body = body
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, n):
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        return n

    # ---- expressions
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in (
                "super", "locals", "globals", "vars"):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.Call(ast.Name("_sx_call_", ast.Load()),
                        [n.func] + n.args, n.keywords)

    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.generic_visit(n)
            return n
        # leave annotations such as list[int] alone: they never matter here
        key = self._key(n.slice)
        val = self.visit(n.value)
        return self._call("_sx_getitem_", val, key)

    def _key(self, s):
        if isinstance(s, ast.Slice):
            f = lambda e: self.visit(e) if e is not None \
                else ast.Constant(None)
            return self._call("_sx_slice_", f(s.lower), f(s.upper),
                              f(s.step))
        return self.visit(s)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            val = self.visit(n.value)
            return ast.Expr(self._call("_sx_setitem_", self.visit(t.value),
                                       self._key(t.slice), val))
        self.generic_visit(n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Delete(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(self._call("_sx_delitem_", self.visit(t.value),
                                       self._key(t.slice)))
        self.generic_visit(n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return self._call("_sx_in_", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                return self._call("_sx_not_in_", n.left, n.comparators[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            return self._call("_sx_mod_", n.left, n.right)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return self._call("_sx_neg_", n.operand)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 114: "r", 115: "s", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec \
                    else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value),
                                        ast.Constant(conv), spec],
                                       ast.Load()))
        return self._call("_sx_fstr_", *parts)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not self.infunc or any(k is None for k in n.keys):
            return n
        return self._call("_sx_dict_", ast.List(
            [ast.Tuple([k, v], ast.Load())
             for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_Set(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        return self._call("_sx_set_", ast.List(n.elts, ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        return self._call("_sx_dict_", ast.ListComp(
            ast.Tuple([n.key, n.value], ast.Load()), n.generators))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        if not self.infunc:
            return n
        return self._call("_sx_set_", ast.ListComp(n.elt, n.generators))

    # ---- statements
    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers:
            n.handlers.insert(0, ast.ExceptHandler(
                ast.Name("_sx_Control_", ast.Load()), None,
                [ast.Raise(None, None)]))
        return n

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self._call("_sx_tick_")))
        return n

    visit_While = _loop
    visit_For = _loop

    # patterns in match statements keep their own syntax
    def visit_MatchValue(self, n):
        return n


class World:
    """One loaded copy of the code under test."""

    def __init__(self, symbolic, repo=REPO):
        self.symbolic = symbolic
        self.repo = repo
        self.mods = {}
        self.record = set()
        self.src = {}
        self.harness = {}
        self.env = EnvRandom()
        for f in sorted(os.listdir(repo)):
            if f.endswith(".py"):
                self.src[f[:-3]] = os.path.join(repo, f)
        self.code = {}
        self._import = self.make_import()

    def fresh(self):
        """Forget all module state; modules are executed anew on demand."""
        self.mods.clear()
        self.env = EnvRandom()
        if self.symbolic:
            rt.SX_CLASSES.clear()

    def make_import(self):
        real = builtins.__import__
        w = self

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            top = name.split(".")[0]
            if top in w.src:
                return w.load(top)
            if w.symbolic and name == "re":
                return rex.RE
            if name == "random":
                return w.env
            if w.symbolic and name == "argparse":
                return rt.ARGPARSE
            return real(name, globals, locals, fromlist, level)
        return imp

    def compile(self, path, name, record):
        key = (path, record)
        if key not in self.code:
            self.code[key] = self._compile(path, name, record)
        return self.code[key]

    def _compile(self, path, name, record):
        with open(path, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text, path)
        if self.symbolic:
            tree = Rewriter(name, record).visit(tree)
            ast.fix_missing_locations(tree)
        return compile(tree, path, "exec")

    def globals_for(self, name, path):
        m = types.ModuleType(name)
        m.__file__ = path
        b = dict(vars(builtins))
        b["__import__"] = self._import
        g = m.__dict__
        g["__builtins__"] = b
        if self.symbolic:
            b["open"] = rt.sx_open
            g.update(_sx_class_=rt.sx_class, _sx_call_=rt.sx_call,
                     _sx_getitem_=rt.getitem, _sx_setitem_=rt.setitem,
                     _sx_delitem_=rt.delitem, _sx_in_=rt.sx_in,
                     _sx_not_in_=rt.sx_not_in, _sx_neg_=rt.neg,
                     _sx_mod_=rt.mod,
                     _sx_fstr_=rt.fstr, _sx_dict_=rt.dict_display,
                     _sx_set_=rt.set_display, _sx_Control_=core.Control,
                     _sx_tick_=rt.tick, _sx_slice_=slice,
                     _sx_enter_=rt.make_enter(self.record))
        return m

    def load(self, name):
        m = self.mods.get(name)
        if m is None:
            path = self.src[name]
            m = self.globals_for(name, path)
            self.mods[name] = m
            try:
                exec(self.compile(path, name, True), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        return m

    def load_file(self, path, name, extra=None):
        """A harness or specification file, run in this world's terms."""
        m = self.globals_for(name, path)
        if extra:
            m.__dict__.update(extra)
        exec(self.compile(path, name, False), m.__dict__)
        return m

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return self.load(n)


def _kind(a):
    if isinstance(a, (str, strs.SymStr)):
        return "text"
    return "number" if isinstance(a, (int, float, core.Proxy)) else \
        type(a).__name__


class EnvRandom:
    """Stands in for the random module: every outcome its documentation
    allows, chosen by the explorer.  After seeding, the outcomes are a
    function of the seed, of how many were drawn since, and of the range."""

    def __init__(self):
        self.seeds = []
        self.id = None
        self.n = 0
        self.drawn = {}
        self.count = 0

    def seed(self, a=None, version=2):
        self.n = 0
        if a is not None:
            for k, (t, v) in enumerate(self.seeds):
                if t == _kind(a) and v == a:
                    self.id = k
                    return
        self.seeds.append((_kind(a), a))
        self.id = len(self.seeds) - 1

    def draw(self, base, lo, hi, *more):
        """An arbitrary integer of lo..hi-1."""
        c = core.ctx()
        old = []
        if self.id is not None:
            old = self.drawn.setdefault((self.id, self.n, base), [])
            self.n += 1
            for a, v in old:
                if a == (lo, hi) + more:
                    return v
        self.count += 1
        v = c.int(f"env.{base}.{self.count}")
        c.assume(v >= lo)
        c.assume(v < hi)
        old.append(((lo, hi) + more, v))
        return v

    def random(self):
        k = self.draw("random", 0, 8)
        c = core.ctx()
        return (c.concretize(k.e, 9, "random") if c.symbolic else k) / 8

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            raise NotImplementedError("randrange step")
        if not (start < stop):
            raise ValueError("empty range in randrange()")
        return self.draw("randrange", start, stop)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def _below(self, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        c = core.ctx()
        v = self.draw("choice", 0, n)
        return c.concretize(v.e, n + 1, "choice") if c.symbolic else v

    def choice(self, seq):
        return seq[self._below(len(seq))]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._below(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k):
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pool.pop(self._below(len(pool))))
        return out

    def choices(self, population, k=1, **kw):
        if kw:
            raise NotImplementedError("choices weights")
        return [self.choice(population) for _ in range(k)]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        return self.randrange(0, 1 << k)
