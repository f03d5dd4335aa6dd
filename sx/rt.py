"""Run-time support for instrumented code: every call, subscript, membership
test, negation, f-string and set/dict display of the rewritten source comes
through here, so that built-in operations accept symbolic values."""

import builtins
import itertools
import math
import types
import z3
from . import core, strs, rex
from .core import (Proxy, SymInt, SymBool, SymFloat, Control, mk_bool, is_sym,
                   mk_int, sx_not)
from .strs import SymStr, mk, of

SX_CLASSES = set()


class Deadline(Control):
    pass


# --------------------------------------------------------------------------
# class support
# --------------------------------------------------------------------------

def _force_str(r):
    return r.realise("C-level __str__/__repr__") if isinstance(r, Proxy) else r


def _force_int(r):
    if isinstance(r, (SymInt, SymBool, SymFloat)):
        return int(r.realise("C-level integer protocol")
                   if not isinstance(r, SymBool) else bool(r))
    if isinstance(r, SymHash):
        return r.force()
    return r


def _force_bool(r):
    return bool(r) if isinstance(r, Proxy) else r


def _force_float(r):
    return r.realise("C-level float") if isinstance(r, Proxy) else r


FORCE = {"__str__": _force_str, "__repr__": _force_str,
         "__format__": _force_str,
         "__int__": _force_int, "__len__": _force_int,
         "__index__": _force_int, "__hash__": _force_int,
         "__bool__": _force_bool, "__contains__": _force_bool,
         "__float__": _force_float}


def sx_class(cls):
    for name, force in FORCE.items():
        f = cls.__dict__.get(name)
        if isinstance(f, types.FunctionType) and \
                not hasattr(f, "__sx_raw__"):
            setattr(cls, name, _wrap(f, force))
    SX_CLASSES.add(cls)
    return cls


def _wrap(f, force):
    def w(*a, **k):
        return force(f(*a, **k))
    w.__sx_raw__ = f
    w.__name__ = f.__name__
    w.__qualname__ = f.__qualname__
    return w


def is_sx(x):
    return type(x) in SX_CLASSES


def raw(x, name):
    m = getattr(type(x), name, None)
    return getattr(m, "__sx_raw__", m)


# --------------------------------------------------------------------------
# hashing
# --------------------------------------------------------------------------

class SymHash:
    """hash() of a string (or other value), comparable without forcing."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @property
    def __class__(self):
        return int

    def __eq__(self, o):
        if type(o) is SymHash:
            # distinct strings are taken to hash differently
            return self.v == o.v
        return self.force() == o

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return self.force()

    def __index__(self):
        return self.force()

    __int__ = __index__

    def __xor__(self, o):
        return self.force() ^ int(o)

    __rxor__ = __xor__

    def force(self):
        v = self.v
        return hash(v.realise("hash") if isinstance(v, Proxy) else v)


def sx_hash(x):
    if isinstance(x, (str, SymInt)):
        return SymHash(x)
    if is_sx(x):
        h = raw(x, "__hash__")
        if isinstance(h, types.FunctionType):
            return h(x)
    if type(x) is tuple:
        return SymHash(tuple(sx_hash(i) for i in x))
    return hash(x)


def keq(a, b):
    """Do a and b count as the same set member / dict key?"""
    if a is b:
        return True
    ta, tb = (_cls(a), _cls(b))
    if is_sx(a) or is_sx(b):
        return bool(sx_hash(a) == sx_hash(b)) and bool(a == b)
    if ta is tuple and tb is tuple:
        return len(a) == len(b) and all(keq(x, y) for x, y in zip(a, b))
    if (ta is str) != (tb is str):
        return False
    return bool(a == b)


def _cls(x):
    return x.__class__ if isinstance(x, Proxy) else type(x)


def plain(k):
    """A key the native dict may look up by itself."""
    t = type(k)
    return t is str or t is int or t is bool or t is float or k is None \
        or (t is tuple and all(plain(i) for i in k)) \
        or isinstance(k, (type, types.FunctionType))


NOTFOUND = object()


def key_text(k):
    """The string a key hashes as, if it does."""
    if type(k) is SymStr or isinstance(k, SymStr):
        return k
    if is_sx(k):
        h = sx_hash(k)
        if type(h) is SymHash and isinstance(h.v, str):
            return h.v
    return None


def soft_find(k, plains, softs, exact=True):
    """The member equal to the non-plain key k.  plains: container of plain
    members, softs: list of the others."""
    v = key_text(k)
    if v is None:
        for c in list(plains):
            if keq(k, c):
                return c
    else:
        if isinstance(v, SymStr):
            c = strs.trie_find(v, [p for p in plains if type(p) is str],
                               exact)
        else:
            v = str(v)
            c = v if v in plains else None
        if c is not None and (isinstance(k, str) or bool(k == c)):
            return c
    for c in softs:
        if keq(k, c):
            return c
    return NOTFOUND


class SxSet:
    """A set.  Given symbolic texts or integers, which of them are equal is
    left open (`lazy`) until something depends on it."""

    def __init__(self, items=()):
        items = list(items)
        self.lazy = None
        if len(items) > 1 and any(
                type(x) in (SymStr, SymInt) for x in items) and all(
                type(x) in (SymStr, SymInt, str, int) for x in items):
            self.lazy = items
            return
        self._build(items)

    def __getattr__(self, n):
        if n in ("native", "items_", "nsoft") and \
                self.__dict__.get("lazy") is not None:
            items, self.lazy = self.lazy, None
            self._build(items)
            return self.__dict__[n]
        raise AttributeError(n)

    def members(self):
        """All members, perhaps with repetitions."""
        return self.items_ if self.lazy is None else self.lazy

    def _build(self, items):
        self.native = set()
        self.items_ = []
        self.nsoft = 0
        for i in items:
            self.add(i)

    @property
    def __class__(self):
        return set

    def _find(self, x):
        if plain(x):
            if x in self.native:
                for i, y in enumerate(self.items_):
                    if plain(y) and y == x:
                        return i
            if not self.nsoft:
                return -1
            for i, y in enumerate(self.items_):
                if not plain(y) and keq(x, y):
                    return i
            return -1
        if not is_sx(x) and not isinstance(x, (Proxy, tuple, SymHash)):
            hash(x)  # unhashable?
        r = soft_find(x, self.native,
                      [y for y in self.items_ if not plain(y)]
                      if self.nsoft else ())
        if r is NOTFOUND:
            return -1
        for i, y in enumerate(self.items_):
            if y is r:
                return i
        for i, y in enumerate(self.items_):
            if plain(y) and y == r:
                return i
        return -1

    def add(self, x):
        if not self.nsoft and plain(x):
            if x not in self.native:
                self.native.add(x)
                self.items_.append(x)
            return
        if self._find(x) < 0:
            self.items_.append(x)
            if plain(x):
                self.native.add(x)
            else:
                self.nsoft += 1

    def discard(self, x):
        i = self._find(x)
        if i >= 0:
            y = self.items_.pop(i)
            if plain(y):
                self.native.discard(y)
            else:
                self.nsoft -= 1

    def remove(self, x):
        if self._find(x) < 0:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self.items_:
            raise KeyError("pop from an empty set")
        y = self.items_.pop(0)
        if plain(y):
            self.native.discard(y)
        else:
            self.nsoft -= 1
        return y

    def clear(self):
        self.native.clear()
        self.items_.clear()
        self.nsoft = 0

    def copy(self):
        return SxSet(self.members())

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        if self.lazy is not None and type(x) in (SymStr, SymInt, str, int):
            hit = False
            for y in self.lazy:
                if isinstance(x, str) == isinstance(y, str):
                    e = x == y
                    if e is True:
                        return True
                    if e is not False:
                        hit = e if hit is False else hit | e
            return bool(hit)
        if plain(x):
            if x in self.native:
                return True
            if not self.nsoft:
                return False
            return self._find(x) >= 0
        if not is_sx(x) and not isinstance(x, (Proxy, tuple, SymHash)):
            hash(x)  # unhashable?
        return soft_find(x, self.native,
                         [y for y in self.items_ if not plain(y)]
                         if self.nsoft else (), False) is not NOTFOUND

    def __iter__(self):
        return iter(list(self.items_))

    def __len__(self):
        return len(self.items_)

    def __bool__(self):
        return bool(self.members())

    def __or__(self, *its):
        r = list(self.members())
        for o in its:
            r.extend(o.members() if type(o) is SxSet else o)
        return SxSet(r)

    union = __or__

    def __and__(self, o):
        o = o if type(o) is SxSet else SxSet(o)
        return SxSet(x for x in self.members() if x in o)

    intersection = __and__

    def __sub__(self, o):
        o = o if type(o) is SxSet else SxSet(o)
        return SxSet(x for x in self.members() if x not in o)

    difference = __sub__

    def __xor__(self, o):
        o = o if type(o) is SxSet else SxSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __le__(self, o):
        return all(x in o for x in self.members())

    issubset = __le__

    def __ge__(self, o):
        return all(x in self for x in
                   (o.members() if type(o) is SxSet else o))

    issuperset = __ge__

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if type(o) is SxSet and (self.lazy is not None
                                 or o.lazy is not None):
            return self <= o and o <= self
        return isinstance(o, (set, frozenset)) and len(self) == len(o) \
            and self <= o

    __hash__ = None


class SxDict:
    def __init__(self, pairs=()):
        self.idx = {}
        self.pairs = []
        self.soft = 0
        for k, v in pairs:
            self[k] = v

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        if plain(k):
            c = self.idx.get(k)
            if c is not None:
                return c
            if self.soft:
                for c in self.pairs:
                    if not plain(c[0]) and keq(k, c[0]):
                        return c
            return None
        if not is_sx(k) and not isinstance(k, (Proxy, tuple, SymHash)):
            hash(k)
        softs = [p for p in self.pairs if not plain(p[0])] \
            if self.soft else ()
        r = soft_find(k, self.idx, [p[0] for p in softs])
        if r is NOTFOUND:
            return None
        for c in softs:
            if c[0] is r:
                return c
        return self.idx[r]

    def __getitem__(self, k):
        c = self._find(k)
        if c is None:
            raise KeyError(k)
        return c[1]

    def __setitem__(self, k, v):
        c = self._find(k)
        if c is not None:
            c[1] = v
            return
        c = [k, v]
        self.pairs.append(c)
        if plain(k):
            self.idx[k] = c
        else:
            self.soft += 1

    def __delitem__(self, k):
        c = self._find(k)
        if c is None:
            raise KeyError(k)
        self.pairs = [p for p in self.pairs if p is not c]
        if plain(c[0]):
            del self.idx[c[0]]
        else:
            self.soft -= 1

    def __contains__(self, k):
        if not plain(k) and not self.soft and (
                is_sx(k) or isinstance(k, (Proxy, tuple, SymHash))):
            return soft_find(k, self.idx, (), False) is not NOTFOUND
        return self._find(k) is not None

    def __iter__(self):
        return iter([p[0] for p in self.pairs])

    def __len__(self):
        return len(self.pairs)

    def __bool__(self):
        return bool(self.pairs)

    def get(self, k, d=None):
        c = self._find(k)
        return d if c is None else c[1]

    def setdefault(self, k, d=None):
        c = self._find(k)
        if c is None:
            self[k] = d
            return d
        return c[1]

    def pop(self, k, *d):
        c = self._find(k)
        if c is None:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return c[1]

    def popitem(self):
        if not self.pairs:
            raise KeyError("popitem(): dictionary is empty")
        k, v = self.pairs[-1]
        del self[k]
        return k, v

    def keys(self):
        return [p[0] for p in self.pairs]

    def values(self):
        return [p[1] for p in self.pairs]

    def items(self):
        return [(p[0], p[1]) for p in self.pairs]

    def update(self, o=(), **kw):
        if isinstance(o, dict):
            o = o.items()
        for k, v in o:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return SxDict(self.items())

    def clear(self):
        self.idx.clear()
        self.pairs.clear()
        self.soft = 0

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __eq__(self, o):
        return isinstance(o, dict) and len(self) == len(o) and \
            all(k in o and o[k] == v for k, v in self.items())

    __hash__ = None

    def __repr__(self):
        return "SxDict(" + ", ".join(f"{k!r}: {v!r}"
                                     for k, v in self.items()) + ")"


# --------------------------------------------------------------------------
# range
# --------------------------------------------------------------------------

class SxRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        if isinstance(self.step, Proxy):
            self.step = self.step.realise("range step")
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    @property
    def __class__(self):
        return range

    def length(self):
        a, b, s = self.start, self.stop, self.step
        n = (b - a + s - 1) // s if s > 0 else (a - b - s - 1) // -s
        if n > 0:
            return n
        return 0

    def __len__(self):
        n = self.length()
        return n.realise("len of a range") if isinstance(n, Proxy) else n

    def __iter__(self):
        i, n = self.start, 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            n += 1
            if n > core.CTX_LIMITS["range"]:
                core.CTX.cut("more than "
                             f"{core.CTX_LIMITS['range']} iterations of a "
                             "symbolic range")
            yield i
            i = i + self.step

    def __reversed__(self):
        return reversed(list(self))

    def __bool__(self):
        return bool(self.length() > 0)

    def __contains__(self, x):
        if not isinstance(x, int):
            return any(x == y for y in self)
        if self.step > 0:
            if not (self.start <= x and x < self.stop):
                return False
        elif not (self.stop < x and x <= self.start):
            return False
        return bool((x - self.start) % self.step == 0)

    def __getitem__(self, k):
        n = self.length()
        if isinstance(k, slice):
            st = k.step if k.step is not None else 1
            if isinstance(st, Proxy):
                st = st.realise("range slice step")
            if st != 1:
                return list(self)[k]

            def clamp(b, default):
                if b is None:
                    return default
                if b < 0:
                    b = b + n
                    if b < 0:
                        b = 0
                    return b
                if b > n:
                    return n
                return b
            lo, hi = clamp(k.start, 0), clamp(k.stop, n)
            return sx_range(self.start + lo * self.step,
                            self.start + hi * self.step, self.step)
        if k < 0:
            k = k + n
        if k < 0 or k >= n:
            raise IndexError("range object index out of range")
        return self.start + k * self.step

    def __eq__(self, o):
        if not isinstance(o, range):
            return NotImplemented
        n, m = self.length(), sx_len(o)
        if n != m:
            return False
        if n == 0:
            return True
        if self.start != o.start:
            return False
        return bool(n == 1) or self.step == o.step

    __hash__ = None

    def count(self, x):
        return int(x in self)

    def index(self, x):
        if x in self:
            return (x - self.start) // self.step
        raise ValueError(f"{x} is not in range")


def sx_range(*a):
    if any(isinstance(x, Proxy) for x in a):
        for x in a:
            if not isinstance(x, int):
                raise TypeError("object cannot be interpreted as an integer")
        return SxRange(*a)
    return range(*a)


# --------------------------------------------------------------------------
# built-in functions
# --------------------------------------------------------------------------

def sx_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, Proxy):
            if type(x) is SymStr or isinstance(x, SymStr):
                return x
            return strs.to_str(x)
        if is_sx(x):
            m = raw(x, "__str__")
            if isinstance(m, types.FunctionType):
                return m(x)
            return sx_repr(x)
        if isinstance(x, BaseException) and len(x.args) == 1:
            return sx_str(x.args[0])
        if type(x) in (list, tuple) and _deep_sym(x):
            return sx_repr(x)
    return str(*a, **k)


def _deep_sym(x, d=3):
    if isinstance(x, Proxy) or is_sx(x):
        return True
    if d and type(x) in (list, tuple):
        return any(_deep_sym(i, d - 1) for i in x)
    return False


def sx_repr(x):
    if isinstance(x, Proxy):
        if type(x) is SymInt or type(x) is SymFloat or type(x) is SymBool:
            return strs.to_str(x)
        return repr(x.realise("repr of a string"))
    if is_sx(x):
        m = raw(x, "__repr__")
        if isinstance(m, types.FunctionType):
            return m(x)
        return f"<{type(x).__name__}>"
    if type(x) in (list, tuple) and _deep_sym(x):
        o, c = ("[", "]") if type(x) is list else ("(", ")")
        s = o
        for i, y in enumerate(x):
            s = s + (", " if i else "") + sx_repr(y)
        if type(x) is tuple and len(x) == 1:
            s = s + ","
        return s + c
    return repr(x)


def sx_len(x):
    if type(x) is SymStr:
        return x.length()
    if type(x) is SxRange:
        return x.length()
    if is_sx(x):
        m = raw(x, "__len__")
        if isinstance(m, types.FunctionType):
            n = m(x)
            if n < 0:
                raise ValueError("__len__() should return >= 0")
            return n
    return len(x)


def sx_int(*a, **k):
    if len(a) >= 1:
        x = a[0]
        base = a[1] if len(a) > 1 else k.get("base")
        if base is None:
            if type(x) is SymInt:
                return x
            if type(x) is SymBool:
                return +x
            if type(x) is SymFloat:
                return x.__trunc__()
            if type(x) is SymStr:
                return strs.to_int(x)
            if is_sx(x):
                m = raw(x, "__int__")
                if isinstance(m, types.FunctionType):
                    return m(x)
        elif isinstance(x, Proxy) or isinstance(base, Proxy):
            if not isinstance(x, str):
                raise TypeError("int() can't convert non-string with "
                                "explicit base")
            return strs.to_int(x, base)
    return int(*a, **k)


def sx_float(*a):
    if a:
        x = a[0]
        if type(x) is SymFloat:
            return x
        if type(x) is SymInt or type(x) is SymBool:
            return SymFloat.of(x)
        if type(x) is SymStr:
            return strs.to_float(x)
        if is_sx(x) and isinstance(raw(x, "__float__"), types.FunctionType):
            return raw(x, "__float__")(x)
    return float(*a)


def sx_remainder(x, y):
    """math.remainder: exact, so the real number x - y*n is the result."""
    if not is_sym(x) and not is_sym(y):
        return math.remainder(x, y)
    fx, fy = SymFloat.of(x), SymFloat.of(y)
    if type(fx) is SymFloat and type(fy) is SymFloat and fx.exact \
            and fy.exact and z3.is_rational_value(z3.simplify(fy.e)):
        v = z3.simplify(fy.e).as_fraction()
        if v != 0:
            v = abs(v)
            q = fx.e / z3.RealVal(v)
            n = z3.ToInt(q)
            d = q - z3.ToReal(n)
            n = z3.If(z3.Or(d > z3.Q(1, 2), z3.And(d == z3.Q(1, 2),
                                                   n % 2 == 1)), n + 1, n)
            return SymFloat(z3.simplify(fx.e - z3.RealVal(v) * z3.ToReal(n)))
    r = lambda z: z.realise("math.remainder") if is_sym(z) else z
    return math.remainder(r(x), r(y))


def sx_bool(*a):
    if a:
        x = a[0]
        if type(x) is SymBool:
            return x
        if type(x) is SymInt:
            return mk_bool(x.e != 0)
        if isinstance(x, Proxy):
            return bool(x)
        if is_sx(x):
            m = raw(x, "__bool__")
            if isinstance(m, types.FunctionType):
                return m(x)
            m = raw(x, "__len__")
            if isinstance(m, types.FunctionType):
                return m(x) != 0
    return bool(*a)


def sx_chr(x):
    if type(x) is SymInt:
        return strs.to_chr(x)
    return chr(x)


def sx_ord(x):
    if type(x) is SymStr:
        return strs.to_ord(x)
    return ord(x)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Proxy) or type(x) in (SxSet, SxDict, SxRange,
                                               SymHash, rex.SxPattern,
                                               rex.SxMatch):
            return x.__class__
        return type(x)
    return type(*a)


def _fn(f):
    """Make a callable usable by C code with symbolic arguments."""
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a: sx_call(f, *a)


def sx_map(f, *its):
    return map(_fn(f), *its)


def sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(_fn(f), it)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_fn(key), reverse=bool(reverse))


def sx_minmax(f):
    def g(*a, key=None, **k):
        if key is None:
            return f(*a, **k)
        return f(*a, key=_fn(key), **k)
    return g


def sx_list(*a):
    if not a:
        return []
    x = a[0]
    if is_sx(x):
        return _list_sx(x)
    if type(x) is SxRange or type(x) is SymStr:
        return [i for i in x]
    return list(*a)


def _list_sx(x):
    m = raw(x, "__len__")
    it = iter(x)
    if isinstance(m, types.FunctionType):
        # list() asks for a length hint first; TypeError is ignored
        try:
            m(x)
        except TypeError:
            pass
    return [i for i in it]


def sx_tuple(*a):
    if a and (is_sx(a[0]) or type(a[0]) in (SxRange, SymStr)):
        return tuple(sx_list(*a))
    return tuple(*a)


def sx_set(*a):
    return SxSet(*a)


def sx_dict(*a, **k):
    if a and isinstance(a[0], dict):
        d = SxDict(a[0].items())
    else:
        d = SxDict(*a)
    for n, v in k.items():
        d[n] = v
    return d


def sx_print(*a, sep=" ", end="\n", file=None, flush=False):
    import sys
    if sep is None:
        sep = " "
    if end is None:
        end = "\n"
    text = ""
    for i, x in enumerate(a):
        if i:
            text = text + sep
        text = text + sx_str(x)
    text = text + end
    (core.CTX.err if file is sys.stderr else core.CTX.out).append(text)


def sx_input(prompt=""):
    if prompt:
        core.CTX.out.append(prompt)
    if not core.CTX.stdin:
        raise EOFError("EOF when reading a line")
    return core.CTX.stdin.pop(0)


class SymStdin:
    """Standard input: the lines the harness feeds."""

    def readline(self, size=-1):
        q = core.CTX.stdin
        return q.pop(0) + "\n" if q else ""

    def readlines(self):
        q, core.CTX.stdin = core.CTX.stdin, []
        return [x + "\n" for x in q]

    def read(self, size=-1):
        t = ""
        for x in self.readlines():
            t = t + x
        return t

    def __iter__(self):
        while core.CTX.stdin:
            yield self.readline()

    def isatty(self):
        return False


class SymFile(SymStdin):
    """A file the harness made."""

    def __init__(self, text):
        self.text = text

    def read(self, size=-1):
        t, self.text = self.text, ""
        return t

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self, size=-1):
        xs = self.readlines()
        self.text = ""
        for x in xs[1:]:
            self.text = self.text + x
        return xs[0] if xs else ""

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sx_open(path, *a, **k):
    files = getattr(core.CTX, "files", {})
    if isinstance(path, Proxy):
        path = path.realise("file name")
    if path in files:
        return SymFile(files[path])
    return open(path, *a, **k)


def _argparse():
    """The real argparse, with symbolic arguments (which must not look like
    options) standing for themselves."""
    import argparse as real
    import sys

    class ArgumentParser(real.ArgumentParser):
        def parse_known_args(self, args=None, namespace=None):
            if args is None:
                args = sys.argv[1:]
            tags = {}

            def tag(x):
                if not isinstance(x, Proxy):
                    return x
                t = f"\ue000{len(tags)}\ue001"
                tags[t] = x
                return t

            def back(x):
                if isinstance(x, str):
                    return tags.get(x, x)
                if isinstance(x, list):
                    return [back(y) for y in x]
                return x
            ns, rest = super().parse_known_args([tag(x) for x in args],
                                                namespace)
            for n, v in vars(ns).items():
                setattr(ns, n, back(v))
            return ns, back(rest)

    m = type(real)("argparse")
    m.__dict__.update(vars(real))
    m.ArgumentParser = ArgumentParser
    return m


ARGPARSE = _argparse()


def sx_getattr(o, name, *d):
    if isinstance(name, Proxy):
        name = name.realise("attribute name")
    return getattr(o, name, *d)


def sx_hasattr(o, name):
    if isinstance(name, Proxy):
        name = name.realise("attribute name")
    return hasattr(o, name)


def sx_round(x, n=None):
    if isinstance(n, Proxy):
        n = n.realise("round digits")
    if type(x) is SymFloat:
        if n is None:
            # banker's rounding of an exact value
            f = x.__floor__()
            d = SymFloat(x.e - z3.ToReal(core._ie(f)), x.exact)
            if d.e is not None and core.CTX.decide(d.e < z3.Q(1, 2)):
                return f
            if core.CTX.decide(d.e > z3.Q(1, 2)):
                return f + 1
            return f if f % 2 == 0 else f + 1
        return round(x.realise("round"), n)
    return round(x, n) if n is not None else round(x)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_format(x, spec=""):
    if not spec:
        return sx_str(x)
    if isinstance(x, Proxy):
        x = x.realise("format")
    return format(x, spec)


def _conc(x, why):
    """Realise strings (deeply) before they reach a C function."""
    if type(x) is SymStr:
        return x.realise(why)
    if type(x) in (list, tuple) and any(isinstance(i, (SymStr, list, tuple))
                                        for i in x):
        return type(x)(_conc(i, why) for i in x)
    return x


class SxCounter(SxDict):
    """collections.Counter"""

    def __init__(self, items=(), **kw):
        super().__init__()
        Counter_update(self, items, **kw)

    def __getitem__(self, k):
        return self.get(k, 0)

    def update(self, items=(), **kw):
        Counter_update(self, items, **kw)

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda p: p[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        return iter([k for k, n in self.items() for _ in range(n)])

    def total(self):
        return sum(self.values())


def Counter_update(d, items, **kw):
    if isinstance(items, dict):
        for k, n in items.items():
            SxDict.__setitem__(d, k, d[k] + n)
    else:
        for k in items:
            SxDict.__setitem__(d, k, d[k] + 1)
    for k, n in kw.items():
        SxDict.__setitem__(d, k, d[k] + n)


class SxDefaultDict(SxDict):
    """collections.defaultdict"""

    def __init__(self, factory=None, *a, **kw):
        super().__init__()
        self.default_factory = factory
        self.update(*a, **kw)

    def __getitem__(self, k):
        c = self._find(k)
        if c is None:
            if self.default_factory is None:
                raise KeyError(k)
            self[k] = v = sx_call(self.default_factory)
            return v
        return c[1]


def sx_mod(s, x):
    """`s % x` for a literal text s."""
    import string
    args = list(x) if type(x) is tuple else [x]
    if type(x) in (dict, SxDict) or not _deep_sym(args):
        return s % x
    out, i = "", 0
    while i < len(s):
        if s[i] != "%":
            out = out + s[i]
            i += 1
            continue
        c = s[i + 1:i + 2]
        i += 2
        if c == "%":
            out = out + "%"
        elif c in ("s", "d", "r", "i") and args:
            v = args.pop(0)
            out = out + (sx_repr(v) if c == "r" else sx_str(v))
        else:
            return s % (tuple(_conc(v, "%") for v in x)
                        if type(x) is tuple else _conc(x, "%"))
    if args:
        raise TypeError("not all arguments converted during string "
                        "formatting")
    return out


def sx_fromkeys(keys, v=None):
    d = SxDict()
    for k in keys:
        d[k] = v
    return d


TABLE = {}


def _reg():
    import collections
    TABLE.update({
        collections.Counter: SxCounter,
        collections.OrderedDict: sx_dict,
        collections.defaultdict: SxDefaultDict,
    })
    B = builtins
    TABLE.update({
        B.str: sx_str, B.repr: sx_repr, B.len: sx_len, B.int: sx_int,
        B.float: sx_float, B.bool: sx_bool, B.chr: sx_chr, B.ord: sx_ord,
        B.type: sx_type, B.map: sx_map, B.filter: sx_filter,
        B.sorted: sx_sorted, B.min: sx_minmax(min), B.max: sx_minmax(max),
        B.list: sx_list, B.tuple: sx_tuple, B.set: sx_set,
        B.frozenset: sx_set, B.dict: sx_dict, B.range: sx_range,
        B.print: sx_print, B.input: sx_input, B.hash: sx_hash,
        B.getattr: sx_getattr, B.hasattr: sx_hasattr, B.round: sx_round,
        B.sum: sx_sum, B.format: sx_format,
        B.str.join: lambda s, it: SymStr(of(s)).join(list(it)),
        B.str.lower: lambda s: s.lower(), B.str.upper: lambda s: s.upper(),
        B.str.strip: lambda s, *a: sx_call(s.strip, *a),
        math.floor: lambda x: math.floor(x),
        math.ceil: lambda x: math.ceil(x),
        math.trunc: lambda x: math.trunc(x),
        math.remainder: sx_remainder,
        B.isinstance: isinstance, B.issubclass: issubclass,
        B.iter: iter, B.next: next, B.zip: zip, B.enumerate: enumerate,
        B.reversed: reversed, B.any: any, B.all: all, B.abs: abs,
        B.slice: slice, B.id: id, B.callable: callable,
        B.divmod: divmod, B.pow: pow, B.super: super, B.dir: dir,
        B.setattr: setattr, B.object: object,
        itertools.zip_longest: itertools.zip_longest,
        itertools.product: itertools.product,
        itertools.permutations: itertools.permutations,
        itertools.combinations: itertools.combinations,
        itertools.chain: itertools.chain,
        itertools.count: itertools.count,
        itertools.islice: itertools.islice,
        itertools.repeat: itertools.repeat,
        itertools.takewhile: itertools.takewhile,
        itertools.dropwhile: itertools.dropwhile,
        itertools.groupby: lambda it, key=None: itertools.groupby(
            it, _fn(key)),
        itertools.accumulate: itertools.accumulate,
    })


_reg()

BIM = type(len)          # builtin_function_or_method
MW = type("".__len__)    # method-wrapper
MD = type(str.join)      # method_descriptor
FT, MT = types.FunctionType, types.MethodType


def has_sym(a, k):
    for x in a:
        if isinstance(x, Proxy):
            return True
    for x in k.values():
        if isinstance(x, Proxy):
            return True
    return False


def sx_call(f, *a, **k):
    t = type(f)
    if t is FT or t is MT:
        return f(*a, **k)
    if t is type:
        h = TABLE.get(f)
        if h is not None:
            return h(*a, **k)
        return f(*a, **k)
    if t is BIM or t is MW:
        h = TABLE.get(f) if t is BIM and _hashable_self(f) else None
        if h is not None:
            return h(*a, **k)
        return call_builtin(f, a, k)
    if t is MD:
        h = TABLE.get(f)
        if h is not None:
            return h(*a, **k)
        if a and isinstance(a[0], Proxy):
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
    return f(*a, **k)


def _hashable_self(f):
    s = f.__self__
    return s is None or isinstance(s, types.ModuleType)


def call_builtin(f, a, k):
    s = f.__self__
    name = f.__name__
    ts = type(s)
    if s is dict and name == "fromkeys":
        return sx_fromkeys(*a, **k)
    if ts is str:
        if name == "join":
            items = list(a[0])
            if any(isinstance(i, Proxy) for i in items):
                return SymStr(of(s)).join(items)
            return s.join(items)
        if name == "translate":
            return SymStr(of(s)).translate(a[0])
        if has_sym(a, k) or name in ("startswith", "endswith"):
            if name == "format":
                return _format(s, a, k)
            if has_sym(a, k) or (a and type(a[0]) is tuple
                                 and has_sym(a[0], {})):
                return getattr(SymStr(of(s)), name)(*a, **k)
        if name == "format" and _deep_sym(list(a) + list(k.values())):
            return _format(s, a, k)
    elif ts is list:
        if name in ("__getitem__", "__setitem__", "__delitem__"):
            return {"__getitem__": getitem, "__setitem__": setitem,
                    "__delitem__": delitem}[name](s, *a)
        if name == "pop" and has_sym(a, k):
            i = strs.norm_index(a[0], len(s), "pop index out of range")
            return s.pop(i)
        if name == "insert" and isinstance(a[0], Proxy):
            i = a[0]
            n = len(s)
            if i >= n:
                i = n
            elif i <= -n:
                i = 0
            else:
                i = core.CTX.concretize(core._ie(i), 4 * n + 4, "insert")
            return s.insert(i, a[1])
        if name == "sort":
            key = k.pop("key", None)
            return s.sort(key=_fn(key), **k)
        if name == "extend" and a and is_sx(a[0]):
            return s.extend(_list_sx(a[0]))
        return f(*a, **k)
    elif ts is dict:
        if name in ("get", "pop", "setdefault", "__contains__",
                    "__getitem__") and a and not plain(a[0]):
            c = dict_find(s, a[0])
            if c is not NOTFOUND:
                return f(c, *a[1:], **k)
            if name == "get":
                return a[1] if len(a) > 1 else None
            if name == "__contains__":
                return False
            if name == "pop" and len(a) > 1:
                return a[1]
            if name == "setdefault":
                raise NotImplementedError("symbolic setdefault")
            raise KeyError(a[0])
        return f(*a, **k)
    elif ts is set or ts is frozenset:
        if a and not plain(a[0]) and name in ("add", "discard", "remove",
                                              "__contains__"):
            hit = NOTFOUND
            for y in s:
                if keq(a[0], y):
                    hit = y
                    break
            if name == "__contains__":
                return hit is not NOTFOUND
            if hit is not NOTFOUND:
                return f(hit)
            if name == "remove":
                raise KeyError(a[0])
            if name == "discard":
                return None
        return f(*a, **k)
    elif name == "write" and hasattr(s, "fileno"):
        import sys
        if s is sys.stdout or s is sys.__stdout__:
            core.CTX.out.append(a[0])
            return None
        if s is sys.stderr or s is sys.__stderr__:
            core.CTX.err.append(a[0])
            return None
    if has_sym(a, k) or any(type(x) in (list, tuple) for x in a):
        a2 = tuple(_conc(x, f"argument of {name}") for x in a)
        k = {n: _conc(x, f"argument of {name}") for n, x in k.items()}
        return f(*a2, **k)
    return f(*a, **k)


def _format(s, a, k):
    import string
    out = ""
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            v = string.Formatter().get_field(field, a, k)[0]
        if conv == "r":
            v = sx_repr(v)
        elif conv == "s":
            v = sx_str(v)
        out = out + sx_format(v, spec or "")
    return out




def dict_find(d, k, exact=True):
    return soft_find(k, d, [c for c in d if not plain(c)], exact)


def getitem(o, k):
    t = type(o)
    if t is list or t is tuple:
        if type(k) is slice:
            return o[strs.norm_slice(k, len(o))]
        if isinstance(k, Proxy):
            return o[strs.norm_index(k, len(o),
                                     f"{t.__name__} index out of range")]
        return o[k]
    if t is str:
        if type(k) is slice:
            return o[strs.norm_slice(k, len(o))]
        if isinstance(k, Proxy):
            return SymStr(of(o))[k]
        return o[k]
    if t is dict:
        if plain(k):
            return o[k]
        c = dict_find(o, k)
        if c is NOTFOUND:
            raise KeyError(k)
        return o[c]
    if t is range:
        if type(k) is slice:
            if any(isinstance(b, Proxy) for b in (k.start, k.stop, k.step)):
                return SxRange(o.start, o.stop, o.step)[k]
        elif isinstance(k, Proxy):
            return SxRange(o.start, o.stop, o.step)[k]
    return o[k]


def setitem(o, k, v):
    t = type(o)
    if t is list:
        if type(k) is slice:
            o[strs.norm_slice(k, len(o))] = v
            return
        if isinstance(k, Proxy):
            k = strs.norm_index(k, len(o),
                                "list assignment index out of range")
        o[k] = v
        return
    if t is dict and not plain(k):
        c = dict_find(o, k)
        if c is not NOTFOUND:
            o[c] = v
            return
        if isinstance(k, Proxy):
            k = k.realise("new dictionary key")
        elif type(k) is tuple:
            k = _conc(k, "new dictionary key")
    o[k] = v


def delitem(o, k):
    if type(o) is list:
        if type(k) is slice:
            del o[strs.norm_slice(k, len(o))]
            return
        if isinstance(k, Proxy):
            k = strs.norm_index(k, len(o),
                                "list assignment index out of range")
    elif type(o) is dict and not plain(k):
        c = dict_find(o, k)
        if c is NOTFOUND:
            raise KeyError(k)
        k = c
    del o[k]


def sx_in(x, c):
    t = type(c)
    if t is str:
        if isinstance(x, Proxy):
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left "
                                "operand")
            return SymStr(of(c)).contains(x)
        return x in c
    if t is SymStr:
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return c.contains(x)
    if t is dict:
        if plain(x):
            return x in c
        return dict_find(c, x, False) is not NOTFOUND
    if t is set or t is frozenset:
        if plain(x):
            return x in c
        return soft_find(x, c, [y for y in c if not plain(y)],
                         False) is not NOTFOUND
    if t in SX_CLASSES:
        m = raw(c, "__contains__")
        if isinstance(m, types.FunctionType):
            r = m(c, x)
            if type(r) is SymBool:
                return r
            return bool(r)
    if t is range and isinstance(x, Proxy):
        return x in SxRange(c.start, c.stop, c.step)
    if isinstance(c, type({}.keys())) and not plain(x):
        return any(keq(x, y) for y in c)
    return x in c


def sx_not_in(x, c):
    return sx_not(sx_in(x, c))


def neg(x):
    if type(x) is SymBool:
        return mk_bool(z3.Not(x.e))
    if type(x) in SX_CLASSES:
        return sx_not(sx_bool(x))
    return not x


class LazyStr(SymStr):
    """A string whose text is computed when first looked at (messages of
    suppressed warnings are never looked at)."""
    __slots__ = ("thunk", "done")

    def __init__(self, thunk):
        self.thunk, self.done = thunk, None

    @property
    def atoms(self):
        if self.done is None:
            self.done = of(self.thunk())
            self.thunk = None
        return self.done

    @atoms.setter
    def atoms(self, v):
        self.done = tuple(v)


def fstr(*parts):
    """f-string: parts are str literals or (value, conversion, spec)."""
    lazy = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if is_sx(v) or type(v) in (list, tuple):
                lazy = True
                break

    def build():
        out = ""
        for p in parts:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == "r":
                    v = sx_repr(v)
                elif conv == "a":
                    v = ascii(v)
                elif conv == "s":
                    v = sx_str(v)
                if spec:
                    if isinstance(v, Proxy):
                        v = v.realise("format spec")
                    out = out + format(v, spec)
                else:
                    out = out + sx_str(v)
            else:
                out = out + p
        return out
    if lazy:
        return LazyStr(build)
    return build()


def dict_display(pairs):
    return SxDict(pairs)


def mod(s, x):
    return sx_mod(s, x) if type(s) is str else s % x


def set_display(items):
    return SxSet(items)


_tick = [0]


def tick():
    c = core.CTX
    if c is not None and c.symbolic:
        c.steps += 1
        if c.steps > c.max_steps:
            raise core.PathCut("step budget")
        if c.steps & 63 == 0:
            c.check_deadline()


def make_enter(record):
    def enter(name):
        record.add(name)
        c = core.CTX
        if c is not None and c.symbolic:
            c.steps += 1
            if c.steps > c.max_steps:
                raise core.PathCut("step budget")
    return enter
