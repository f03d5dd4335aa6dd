"""Symbolic-execution core: path exploration, the solver, and integer/boolean/
float proxies.

The code under test runs natively in CPython after a source-to-source rewrite
(see loader.py); values that depend on an input are the proxy objects below.
Whenever a proxy is asked for a concrete truth value the explorer consults the
solver and forks; every path of the bounded input space is visited (depth
first, by deterministic re-execution)."""

import io
import os
import shutil
import sys
import tempfile
import time
import z3

z3.set_param("model.completion", True)


class Control(BaseException):
    """Engine control flow; never to be caught by code under test."""


class Infeasible(Control):
    """The path's assumptions cannot be met."""


class OutOfTime(Control):
    """The exploration's time budget is used up."""


class PathCut(Control):
    """The path left the stated bounds (reason recorded)."""


class CheckFailed(Control):
    """A property assertion failed (concrete mode)."""

    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail
        super().__init__(label, detail)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


class Event:
    __slots__ = ("kind", "val", "forced", "cond", "pushed")

    def __init__(self, kind, val, forced, cond):
        self.kind, self.val, self.forced, self.cond = kind, val, forced, cond
        self.pushed = False


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forced = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_by_solver = 0
        self.cuts = {}
        self.unsupported = {}
        self.unknown = 0
        self.realised = 0
        self.validated = 0
        self.disagree = []
        self.functions = set()
        self.samples = []


class SymCtx:
    """One exploration: owns the solver and the decision stack."""
    symbolic = True

    def __init__(self, timeout_ms=8000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.events = []
        self.pos = 0
        self.stats = Stats()
        self.model = None
        self.max_steps = 60000
        self.deadline = None
        self.start_path()

    # ---- path life cycle ------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.inputs = {}
        self.fresh = 0
        self.out = []
        self.err = []
        self.memo = {}
        self.log = []
        self.chardom = {}
        self.digit_cache = {}
        self.stdin = []
        self.files = {}
        self.real_count = 0
        self.steps = 0
        self.known = {}
        self.rand = 0

    def check_deadline(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise OutOfTime()

    def backtrack(self):
        """Move to the next unexplored branch; False when none is left."""
        while self.events:
            e = self.events[-1]
            if e.pushed:
                self.solver.pop()
                e.pushed = False
            if e.kind == "d" and not e.forced:
                e.val = not e.val
                e.forced = True
                e.kind = "d"
                self.solver.push()
                e.pushed = True
                self.solver.add(e.cond if e.val else z3.Not(e.cond))
                self.model = None
                return True
            self.events.pop()
        return False

    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.stats.unknown += 1
                raise PathCut("solver unknown on path condition")
            self.model = self.solver.model()
        return self.model

    # ---- decisions --------------------------------------------------------
    def decide(self, cond):
        """Fork on a z3 Bool."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        kn = self.known.get(cond.get_id())
        if kn is not None:
            return kn[0]
        v = self._decide(cond)
        self.known[cond.get_id()] = (v, cond)
        return v

    def _decide(self, cond):
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.kind != "d":
                raise RuntimeError("nondeterministic replay (kind)")
            if not e.cond.eq(cond):
                raise RuntimeError(f"nondeterministic replay: {e.cond} vs "
                                   f"{cond}")
            self.pos += 1
            return e.val
        self.stats.decisions += 1
        if self.stats.decisions & 15 == 0:
            self.check_deadline()
        m = self.get_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            first = True
        elif z3.is_false(v):
            first = False
        else:
            first = None
        ev = None
        if first is None:
            r1 = self._check(cond)
            r2 = self._check(z3.Not(cond))
            can_t, can_f = r1 != z3.unsat, r2 != z3.unsat
            if z3.unknown in (r1, r2):
                self.stats.unknown += 1
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                ev = Event("d", True, False, cond)
            else:
                ev = Event("d", can_t, True, cond)
            self.model = None
        else:
            other = z3.Not(cond) if first else cond
            r = self._check(other)
            if r == z3.unsat:
                ev = Event("d", first, True, cond)
                self.stats.forced += 1
            else:
                if r == z3.unknown:
                    self.stats.unknown += 1
                ev = Event("d", first, False, cond)
        self.events.append(ev)
        self.pos += 1
        if not ev.forced:
            self.solver.push()
            ev.pushed = True
            self.solver.add(cond if ev.val else z3.Not(cond))
        return ev.val

    def assume(self, cond):
        cond = as_cond(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.kind != "a" or not e.cond.eq(cond):
                raise RuntimeError("nondeterministic replay (assume)")
            self.pos += 1
            return
        ev = Event("a", True, True, cond)
        self.events.append(ev)
        self.pos += 1
        self.solver.push()
        ev.pushed = True
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.stats.unknown += 1
                return
            self.model = self.solver.model()

    def pick(self, fn):
        """A model-dependent concrete choice, recorded so replay repeats it."""
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.kind != "p":
                raise RuntimeError("nondeterministic replay (pick)")
            self.pos += 1
            return e.val
        v = fn()
        self.events.append(Event("p", v, True, None))
        self.pos += 1
        return v

    def cut(self, reason):
        raise PathCut(reason)

    def concretize(self, term, limit=48, why="value enumeration"):
        """Enumerate (by forking) every feasible value of an Int term."""
        if z3.is_int_value(term):
            return term.as_long()
        n = 0
        while True:
            v = self.pick(lambda: self.get_model().eval(
                term, model_completion=True).as_long())
            if self.decide(term == v):
                return v
            n += 1
            if n >= limit:
                self.cut(f"more than {limit} values: {why}")

    def entails(self, cond):
        """True if the path condition implies cond (no fork, no event when
        replaying is needed -- recorded as a pick)."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.pick(lambda: self._check(z3.Not(cond)) == z3.unsat)

    # ---- inputs ----------------------------------------------------------
    def _reg(self, name, kind, payload):
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.inputs[name] = (kind, payload)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._reg(name, "int", t)
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return SymInt(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._reg(name, "bool", t)
        return SymBool(t)

    def choice(self, name, options):
        options = list(options)
        t = z3.Int(name)
        self._reg(name, "int", t)
        self.assume(z3.And(t >= 0, t < len(options)))
        for k in range(len(options) - 1):
            if self.decide(t == k):
                return options[k]
        return options[-1]

    def string(self, name, length, alphabet=None):
        from . import strs
        alphabet = alphabet or strs.ASCII
        atoms = []
        terms = []
        for i in range(length):
            t = z3.Int(f"{name}.{i}")
            self.assume(alphabet.formula_all(t))
            terms.append(t)
            atoms.append(strs.Ch(t, alphabet.points))
        self._reg(name, "str", terms)
        return strs.SymStr(atoms)

    def fresh_int(self, base, lo=None, hi=None):
        """A nondeterministic value from the environment (a stub)."""
        name = f"env.{base}.{self.fresh}"
        self.fresh += 1
        return self.int(name, lo, hi)

    def decode_inputs(self, model):
        res = {}
        for name, (kind, p) in self.inputs.items():
            if kind == "int":
                res[name] = model.eval(p, model_completion=True).as_long()
            elif kind == "bool":
                res[name] = bool(z3.is_true(
                    model.eval(p, model_completion=True)))
            elif kind == "str":
                res[name] = [model.eval(t, model_completion=True).as_long()
                             for t in p]
        return res

    # ---- assertions --------------------------------------------------------
    def check(self, cond, label="", detail=None):
        """Assert cond for every input on this path."""
        self.stats.checks += 1
        c = as_cond(cond)
        if c is True:
            return
        if c is False:
            raise Violation(self.get_model(), label)
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.kind != "k":
                raise RuntimeError("nondeterministic replay (check)")
            self.pos += 1
            return
        r = self._check(z3.Not(c))
        self.stats.checks_by_solver += 1
        if r == z3.sat:
            raise Violation(self.solver.model(), label)
        if r == z3.unknown:
            self.stats.unknown += 1
            raise PathCut(f"solver unknown on assertion {label}")
        self.events.append(Event("k", True, True, c))
        self.pos += 1

    def file(self, text):
        """A file with this text -> its name."""
        name = f"/sx-file-{len(self.files)}"
        self.files[name] = text
        return name

    def feed(self, lines):
        """Set the lines that standard input is going to give."""
        self.stdin = list(lines)

    def output(self):
        """What was printed since the last call."""
        t, self.out = self.out, []
        return _cat(t)

    def errors(self):
        """What was printed as error messages since the last call."""
        t, self.err = self.err, []
        return _cat(t)

    def record(self, value):
        self.log.append(value)


def _cat(parts):
    t = ""
    for x in parts:
        t = t + x
    return t


def _drain(buf):
    t = buf.getvalue()
    buf.seek(0)
    buf.truncate()
    return t


class Violation(Control):
    def __init__(self, model, label):
        self.model, self.label = model, label
        super().__init__(label)


class ConcreteCtx:
    """Same interface as SymCtx over fixed input values; used to replay."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.log = []
        self.fresh = 0
        self.nchecks = 0
        self.dirs = []

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        options = list(options)
        return options[self.values.get(name, 0)]

    def string(self, name, length, alphabet=None):
        v = self.values.get(name)
        if v is None:
            v = [97] * length
        return "".join(map(chr, v))

    def fresh_int(self, base, lo=None, hi=None):
        name = f"env.{base}.{self.fresh}"
        self.fresh += 1
        return self.int(name, lo, hi)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label="", detail=None):
        self.nchecks += 1
        if not cond:
            raise CheckFailed(label, detail() if callable(detail) else
                              (detail or ""))

    def file(self, text):
        d = tempfile.mkdtemp(prefix="sx-")
        self.dirs.append(d)
        name = os.path.join(d, "code.pip")
        with open(name, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        return name

    def clean(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def feed(self, lines):
        sys.stdin = io.StringIO("".join(x + "\n" for x in lines))

    def output(self):
        return _drain(self.outbuf)

    def errors(self):
        return _drain(self.errbuf)

    def record(self, value):
        self.log.append(value)

    def cut(self, reason):
        raise PathCut(reason)


def as_cond(c):
    """Python bool or z3 Bool for a truth-valued object."""
    if c is True or c is False:
        return c
    if isinstance(c, SymBool):
        c = c.e
    if isinstance(c, z3.BoolRef):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c
    return bool(c)


# ==========================================================================
# Proxies
# ==========================================================================

def is_sym(x):
    return isinstance(x, Proxy)


class Proxy:
    """Base of all symbolic proxies."""
    __slots__ = ()


def _ie(x):
    """z3 Int term for an int-like."""
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_bool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Proxy):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mk_bool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mk_bool(z3.Not(self.e))
        i = _ie(o)
        if i is not None:
            return mk_bool(_ie(self) == i)
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __and__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.And(self.e, as_z3bool(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.Or(self.e, as_z3bool(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.Xor(self.e, as_z3bool(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def _i(self):
        return SymInt(_ie(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __neg__(self):
        return -self._i()

    def __pos__(self):
        return self._i()

    def __abs__(self):
        return self._i()

    def __invert__(self):
        return ~self._i()

    def __floordiv__(self, o):
        return self._i() // o

    def __truediv__(self, o):
        return self._i() / o

    def __mod__(self, o):
        return self._i() % o

    def __repr__(self):
        return f"<SymBool {self.e}>"


def as_z3bool(o):
    if type(o) is SymBool:
        return o.e
    return z3.BoolVal(bool(o))


def sx_not(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.e))
    return not x


MAX_SHIFT = 256


class SymInt(Proxy):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return CTX.decide(self.e != 0)

    def __hash__(self):
        return hash(self.realise())

    def __index__(self):
        return self.realise()

    def __int__(self):
        return self.realise()

    def __float__(self):
        return float(self.realise())

    def realise(self, why="int at a C boundary"):
        return CTX.concretize(self.e, why=why)

    # arithmetic
    def _bin(self, o, f, r=False):
        i = _ie(o)
        if i is None:
            return None
        return mk_int(z3.simplify(f(i, self.e) if r else f(self.e, i)))

    def __add__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) + o
        x = self._bin(o, lambda a, b: a + b)
        return NotImplemented if x is None else x

    __radd__ = __add__

    def __sub__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) - o
        x = self._bin(o, lambda a, b: a - b)
        return NotImplemented if x is None else x

    def __rsub__(self, o):
        if _isfloat(o):
            return SymFloat.of(o) - SymFloat.of(self)
        x = self._bin(o, lambda a, b: a - b, True)
        return NotImplemented if x is None else x

    def __mul__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) * o
        if isinstance(o, (str, list, tuple)) and not isinstance(o, Proxy):
            return _seqmul(o, self)
        if isinstance(o, Proxy) and isinstance(o, str):
            return o * self
        x = self._bin(o, lambda a, b: a * b)
        return NotImplemented if x is None else x

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) / o
        if _ie(o) is None:
            return NotImplemented
        return truediv(self, o)

    def __rtruediv__(self, o):
        if _isfloat(o):
            return SymFloat.of(o) / SymFloat.of(self)
        if _ie(o) is None:
            return NotImplemented
        return truediv(o, self)

    def __floordiv__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) // o
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(self, o)[0]

    def __rfloordiv__(self, o):
        if _isfloat(o):
            return o // float(SymFloat.of(self))
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(o, self)[0]

    def __mod__(self, o):
        if _isfloat(o):
            return SymFloat.of(self) % o
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(self, o)[1]

    def __rmod__(self, o):
        if _isfloat(o):
            return o % float(SymFloat.of(self))
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(o, self)[1]

    def __divmod__(self, o):
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(self, o)

    def __rdivmod__(self, o):
        if _ie(o) is None:
            return NotImplemented
        return intdivmod(o, self)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(self.realise(), int(o), int(mod))
        if isinstance(o, int):
            n = o if type(o) is int else o.realise("exponent")
            if n < 0:
                if self == 0:
                    raise ZeroDivisionError(
                        "0.0 cannot be raised to a negative power")
                return self.realise("negative power") ** n
            if n > 16:
                CTX.cut("exponent > 16 with a symbolic base")
            r = 1
            for _ in range(n):
                r = self * r
            return r
        if _isfloat(o):
            return self.realise() ** (o if not is_sym(o) else o.realise())
        return NotImplemented

    def __rpow__(self, o):
        n = self.realise("exponent")
        return o ** n

    def __neg__(self):
        return mk_int(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def __invert__(self):
        return mk_int(z3.simplify(-self.e - 1))

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(self.realise(), n)

    def _bit(self, o, name):
        i = _ie(o)
        if i is None:
            return NotImplemented
        return bitop(name, self.e, i)

    def __and__(self, o):
        return self._bit(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        n = o if type(o) is int else o.realise("shift")
        if n < 0:
            raise ValueError("negative shift count")
        return self * (1 << n)

    def __rlshift__(self, o):
        return o << self.realise("shift")

    def __rshift__(self, o):
        n = o if type(o) is int else o.realise("shift")
        if n < 0:
            raise ValueError("negative shift count")
        return self // (1 << n)

    def __rrshift__(self, o):
        return o >> self.realise("shift")

    def bit_length(self):
        a = abs(self)
        n = 0
        while a >= (1 << n):
            n += 1
            if n > MAX_SHIFT:
                CTX.cut(f"bit_length > {MAX_SHIFT}")
        return n

    def bit_count(self):
        return self.realise("bit_count").bit_count()

    def is_integer(self):
        return True

    # comparison
    def _cmp(self, o, f):
        if _isfloat(o):
            return f(SymFloat.of(self), SymFloat.of(o))
        i = _ie(o)
        if i is None:
            return NotImplemented
        return mk_bool(z3.simplify(f(self.e, i)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __repr__(self):
        return f"<SymInt {self.e}>"


def _isfloat(o):
    return type(o) is SymFloat or type(o) is float


def _seqmul(seq, n):
    """sequence * symbolic count: enumerate the count."""
    if not (n > 0):
        return seq[:0]
    if len(seq) == 0:
        return seq
    k = 1
    while not (n == k):
        k += 1
        if k > CTX_LIMITS["repeat"]:
            CTX.cut(f"repeat count > {CTX_LIMITS['repeat']}")
    return seq * k


CTX_LIMITS = {"repeat": 8, "digits": 9, "range": 12}


def intdivmod(a, b):
    """Python floor division and modulo."""
    ea, eb = _ie(a), _ie(b)
    if z3.is_int_value(eb):
        v = eb.as_long()
        if v == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if v > 0:
            return (mk_int(z3.simplify(ea / v)), mk_int(z3.simplify(ea % v)))
        q = (-ea) / (-v)
        return (mk_int(z3.simplify(q)), mk_int(z3.simplify(ea - q * v)))
    if CTX.decide(eb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    key = ("divmod", ea.get_id(), eb.get_id())
    hit = CTX.memo.get(key)
    if hit:
        return hit[0], hit[1]
    # Axiomatise: a = b*q + r with r between 0 and b
    n = CTX.fresh
    CTX.fresh += 1
    q, r = z3.Int(f"q!{n}"), z3.Int(f"r!{n}")
    CTX.assume(ea == eb * q + r)
    CTX.assume(z3.If(eb > 0, z3.And(r >= 0, r < eb),
                     z3.And(r <= 0, r > eb)))
    CTX.memo[key] = (SymInt(q), SymInt(r), ea, eb)
    return SymInt(q), SymInt(r)


def bitop(name, a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        x, y = a.as_long(), b.as_long()
        return {"and": x & y, "or": x | y, "xor": x ^ y}[name]
    if z3.is_int_value(a):
        a, b = b, a
    if z3.is_int_value(b):
        m = b.as_long()
        # x & (2^k - 1) is x mod 2^k, exact for all integers
        if name == "and" and m >= 0 and (m & (m + 1)) == 0:
            return mk_int(z3.simplify(a % (m + 1)))
        if name == "and" and m == -1:
            return mk_int(a)
    W = 24
    lim = 1 << (W - 2)
    for t in (a, b):
        if not CTX.decide(z3.And(t >= -lim, t < lim)):
            CTX.cut(f"bitwise operand outside {W - 1}-bit range")
    x, y = z3.Int2BV(a, W), z3.Int2BV(b, W)
    z = {"and": x & y, "or": x | y, "xor": x ^ y}[name]
    return SymInt(z3.BV2Int(z, is_signed=True))


# --------------------------------------------------------------------------
# Floats.  A SymFloat is a rational number that is known to be represented
# exactly by an IEEE double (exact=True), or the correctly rounded quotient of
# two integers below 2**26 in magnitude (exact=False, "quot"), for which
# comparison with integers, floor, ceil, trunc and integrality agree with the
# exact quotient.  Anything else is enumerated concretely.
# --------------------------------------------------------------------------

QUOT = 1 << 26


def beyond(t, msg):
    """An integer too large for the model of floats: go on with one value
    that a double cannot hold and one beyond its range; the rest is cut."""
    for cond in (t > 10 ** 310, z3.And(t > 1 << 56, t % 4 == 3)):
        if CTX.decide(cond):
            v = CTX.pick(lambda: CTX.get_model().eval(
                t, model_completion=True).as_long())
            if CTX.decide(t == v):
                CTX.stats.realised += 1
                return v
            break
    CTX.cut(msg)


class SymFloat(Proxy):
    __slots__ = ("e", "exact", "dec")

    def __init__(self, e, exact=True, dec=False):
        """`e` is the real number that was rounded; `exact`: it is a double;
        `dec`: it is a decimal of at most 15 digits (rounding keeps order
        and difference of these)."""
        self.e, self.exact, self.dec = e, exact, dec

    @property
    def __class__(self):
        return float

    @staticmethod
    def of(x):
        if type(x) is SymFloat:
            return x
        if type(x) is float:
            if x != x or x in (float("inf"), float("-inf")):
                return x
            from fractions import Fraction
            f = Fraction(x)
            return SymFloat(z3.RealVal(f), True)
        e = _ie(x)
        if not CTX.decide(z3.And(e > -(1 << 53), e < (1 << 53))):
            return float(beyond(e, "integer beyond 2**53 mixed with a "
                                   "float"))
        return SymFloat(z3.ToReal(e), True)

    def realise(self, why="float at a C boundary"):
        v = self.e
        m = CTX.pick(lambda: str(CTX.get_model().eval(
            v, model_completion=True)))
        from fractions import Fraction
        m = m.rstrip("?")
        fr = Fraction(m) if "." not in m else Fraction(m)
        CTX.stats.realised += 1
        if CTX.decide(v == z3.RealVal(fr)):
            return fr.numerator / fr.denominator
        CTX.real_count += 1
        if CTX.real_count > 6:
            CTX.cut(f"float enumeration: {why}")
        return self.realise(why)

    def __float__(self):
        return self.realise()

    def __hash__(self):
        return hash(self.realise())

    def __bool__(self):
        return CTX.decide(self.e != 0)

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def _cmp(self, o, f):
        if type(o) is float and (o != o or o in (float("inf"),
                                                 float("-inf"))):
            return f(0.0, o)
        if not _isfloat(o) and _ie(o) is None:
            return NotImplemented
        if self.dec and type(o) is float:
            from fractions import Fraction
            d = repr(o).lstrip("-").replace(".", "").lstrip("0")
            if d.isdigit() and len(d) <= 15 or d == "":
                return mk_bool(z3.simplify(f(self.e, z3.RealVal(
                    Fraction(repr(o))))))
        o2 = SymFloat.of(o)
        if type(o2) is float:
            return f(self.realise(), o2)
        if not (self.dec and o2.dec) and not (self.exact and o2.exact):
            # comparing a rounded quotient with an integer is exact;
            # with another fraction it is not
            if not (o2.exact and CTX.entails(z3.IsInt(o2.e))
                    or self.exact and CTX.entails(z3.IsInt(self.e))):
                return f(self.realise(), o2.realise())
        return mk_bool(z3.simplify(f(self.e, o2.e)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e), self.exact, self.dec)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), self.exact,
                        self.dec)

    def __floor__(self):
        return mk_int(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return mk_int(z3.simplify(-z3.ToInt(-self.e)))

    def __trunc__(self):
        return mk_int(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e),
                                        -z3.ToInt(-self.e))))

    def _arith(self, o, f, r=False):
        if not _isfloat(o) and _ie(o) is None:
            return NotImplemented
        a, b = self.realise(), o
        if is_sym(b):
            b = b.realise()
        return f(b, a) if r else f(a, b)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._arith(o, lambda a, b: a / b, True)

    def __floordiv__(self, o):
        return self._arith(o, lambda a, b: a // b)

    def __rfloordiv__(self, o):
        return self._arith(o, lambda a, b: a // b, True)

    def __mod__(self, o):
        return self._arith(o, lambda a, b: a % b)

    def __rmod__(self, o):
        return self._arith(o, lambda a, b: a % b, True)

    def __pow__(self, o):
        return self._arith(o, lambda a, b: a ** b)

    def __rpow__(self, o):
        return self._arith(o, lambda a, b: a ** b, True)

    def __repr__(self):
        return f"<SymFloat {self.e}>"


def truediv(a, b):
    ea, eb = _ie(a), _ie(b)
    if z3.is_int_value(eb):
        if eb.as_long() == 0:
            raise ZeroDivisionError("division by zero")
    elif CTX.decide(eb == 0):
        raise ZeroDivisionError("division by zero")
    for t in (ea, eb):
        if not z3.is_int_value(t):
            if not CTX.decide(z3.And(t > -QUOT, t < QUOT)):
                v = beyond(t, "true division beyond 2**26")
                return truediv(v, b) if t is ea else truediv(a, v)
    if z3.is_int_value(ea) and z3.is_int_value(eb):
        return ea.as_long() / eb.as_long()
    exact = False
    if z3.is_int_value(eb):
        v = abs(eb.as_long())
        exact = v & (v - 1) == 0
        q = z3.ToReal(ea) / z3.ToReal(eb)
    else:
        # enumerate small divisors: keeps the arithmetic linear
        v = CTX.concretize(eb, limit=64, why="symbolic divisor")
        return truediv(a, v)
    return SymFloat(z3.simplify(q), exact)
