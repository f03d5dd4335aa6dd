"""Symbolic strings.

A SymStr is a tuple of atoms:
  int    a concrete code point
  Ch     one symbolic character (Int term ranging over a finite alphabet)
  Num    the decimal text of an integer term (any number of digits)
  Dig    the decimal text of a non-negative integer term
Its structure is concrete on each path; Num/Dig atoms are expanded into digit
characters (forking on sign and digit count) only when an operation needs
individual characters."""

import z3
from . import core
from .core import Proxy, SymInt, SymBool, SymFloat, mk_bool, mk_int


def intervals(points):
    pts = sorted(points)
    out = []
    for p in pts:
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


def set_formula(term, points):
    cs = []
    for a, b in intervals(points):
        cs.append(term == a if a == b else z3.And(term >= a, term <= b))
    if not cs:
        return z3.BoolVal(False)
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


class Alphabet:
    def __init__(self, name, points):
        self.name = name
        self.points = frozenset(points)

    def formula_all(self, term):
        return set_formula(term, self.points)

    def __repr__(self):
        return self.name


PRINTABLE = frozenset(range(0x20, 0x7F))
ASCII = Alphabet("tab, LF, CR, 0x20-0x7E, U+00E9, U+0663",
                 PRINTABLE | {9, 10, 13, 0xE9, 0x663})
PRINT = Alphabet("0x20-0x7E", PRINTABLE)
FULL = Alphabet("0-127", range(128))


def alpha(s):
    """An alphabet holding just these characters."""
    return Alphabet(repr(s), {ord(c) for c in s})


class Ch:
    __slots__ = ("t", "pts")

    def __init__(self, t, pts):
        self.t, self.pts = t, pts

    def dom(self):
        return core.CTX.chardom.get(self.t.get_id(), (self.pts,))[0]

    def isin(self, S):
        """Fork on membership in a set of code points."""
        d = self.dom()
        inter = d & S
        if not inter:
            return False
        if len(inter) == len(d):
            return True
        r = core.CTX.decide(rel_formula(self.t, inter, d))
        # keep a reference to the term so its id stays valid
        core.CTX.chardom[self.t.get_id()] = ((inter if r else d - inter),
                                             self.t)
        return r

    def eqf(self, o):
        """Condition (python bool or z3) that this char equals o."""
        d = self.dom()
        if type(o) is int:
            if o not in d:
                return False
            if len(d) == 1:
                return True
            return self.t == o
        if self.t.eq(o.t):
            return True
        if not (d & o.dom()):
            return False
        return self.t == o.t

    def __repr__(self):
        return f"Ch({self.t})"


_REL = {}


def rel_formula(term, inter, dom):
    key = (term.get_id(), inter, dom)
    r = _REL.get(key)
    if r is None:
        if len(_REL) > 50000:
            _REL.clear()
        # the term is kept so that its id stays its own
        r = _REL[key] = (_rel_formula(term, inter, dom), term)
    return r[0]


def _rel_formula(term, inter, dom):
    """Membership in inter, given membership in dom, with few intervals."""
    srt = sorted(dom)
    out = []
    run = None
    for p in srt:
        if p in inter:
            if run is None:
                run = [p, p]
                out.append(run)
            run[1] = p
        else:
            run = None
    if len(out) == 1 and not z3.is_int_value(term):
        a, b = out[0]
        if a == b:
            return term == a
        if a == srt[0]:
            return term <= b
        if b == srt[-1]:
            return term >= a
    cs = [term == a if a == b else z3.And(term >= a, term <= b)
          for a, b in out]
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


class Num:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Num({self.t})"


class Dig:
    """Decimal text of a term known to be >= 0."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Dig({self.t})"


DIGITS = frozenset(range(48, 58))


def split_num(a):
    """Atoms of a Num with the sign decided."""
    if core.CTX.decide(a.t < 0):
        return (45, Dig(z3.simplify(-a.t)))
    return (Dig(a.t),)


def digits_of(term):
    """Expand a non-negative term into digit characters."""
    c = core.CTX
    key = term.get_id()
    hit = c.digit_cache.get(key)
    if hit:
        return hit[0]
    lim = core.CTX_LIMITS["digits"]
    n = 1
    while not c.decide(term < 10 ** n):
        n += 1
        if n > lim:
            c.cut(f"text of an integer longer than {lim} digits")
    if n == 1:
        t = z3.simplify(term + 48)
        res = (Ch(t, DIGITS),)
    else:
        # fresh digits, defined by their sum
        ds = [z3.Int(f"dg!{c.fresh}!{i}") for i in range(n)]
        c.fresh += 1
        tot = z3.IntVal(0)
        for d in ds:
            tot = tot * 10 + d
        c.assume(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds],
                        ds[0] >= 1, z3.simplify(tot) == term))
        res = []
        for i, d in enumerate(ds):
            res.append(Ch(z3.simplify(d + 48),
                          DIGITS - {48} if i == 0 else DIGITS))
        res = tuple(res)
    c.digit_cache[key] = (res, term)
    return res


def expand_atom(a):
    if type(a) is Num:
        out = ()
        for b in split_num(a):
            out += expand_atom(b)
        return out
    if type(a) is Dig:
        return digits_of(a.t)
    return (a,)


def of(x):
    """SymStr atoms of a str-like."""
    if type(x) is SymStr:
        return x.atoms
    if isinstance(x, SymStr):
        return x.atoms
    if type(x) is str or isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError(f"not a string: {type(x)}")


def mk(atoms):
    """str if fully concrete, otherwise SymStr."""
    atoms = tuple(atoms)
    for a in atoms:
        if type(a) is not int:
            break
    else:
        return "".join(map(chr, atoms))
    # single-valued chars become concrete
    out = []
    conc = True
    for a in atoms:
        if type(a) is Ch:
            d = a.dom()
            if len(d) == 1:
                a = next(iter(d))
            elif z3.is_int_value(a.t):
                a = a.t.as_long()
            else:
                conc = False
        elif type(a) is not int:
            if z3.is_int_value(a.t):
                out.extend(map(ord, str(a.t.as_long())))
                continue
            conc = False
        out.append(a)
    if conc:
        return "".join(map(chr, out))
    return SymStr(out)


def eq_cond(a, b):
    """Equality of two atom tuples -> True/False/z3."""
    a, b = list(a), list(b)
    # drop identical prefix atoms
    i = 0
    while i < len(a) and i < len(b) and _same(a[i], b[i]):
        i += 1
    a, b = a[i:], b[i:]
    if not a and not b:
        return True
    lazy_a = any(type(x) in (Num, Dig) for x in a)
    lazy_b = any(type(x) in (Num, Dig) for x in b)
    if lazy_a or lazy_b:
        if len(a) == 1 and len(b) == 1 and lazy_a and lazy_b:
            return a[0].t == b[0].t
        if lazy_b and not lazy_a:
            a, b, lazy_a, lazy_b = b, a, lazy_b, lazy_a
        if len(a) == 1 and not lazy_b and all(type(x) is int for x in b):
            s = "".join(map(chr, b))
            import re as _re
            if type(a[0]) is Num and _re.fullmatch("-?[0-9]+", s) or \
                    type(a[0]) is Dig and _re.fullmatch("[0-9]+", s):
                if str(int(s)) == s:
                    return a[0].t == int(s)
            return False
        if not a or not b:
            return False  # a Num/Dig is never empty
        a = sum(map(expand_atom, a), ())
        b = sum(map(expand_atom, b), ())
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if type(x) is int:
            if type(y) is int:
                if x != y:
                    return False
                continue
            x, y = y, x
        c = x.eqf(y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def _same(x, y):
    if type(x) is int or type(y) is int:
        return type(x) is type(y) and x == y
    return type(x) is type(y) and x.t.eq(y.t)


def trie_find(s, cands, exact):
    """Which of the plain strings equals s (a SymStr)?  -> the string or
    None; with exact=False any true value stands for "one of them".  Forks
    character by character, on sets of characters."""
    at = s.atoms
    if any(type(a) in (Num, Dig) for a in at):
        if len(at) == 1:
            a = at[0]
            for c in cands:
                if c.lstrip("-").isdecimal() and s == c:
                    return c
            return None
        at = s.flat()
    n = len(at)
    cands = [c for c in cands if len(c) == n]
    for i, a in enumerate(at):
        if not cands:
            return None
        if type(a) is int:
            cands = [c for c in cands if ord(c[i]) == a]
            continue
        d = a.dom()
        cands = [c for c in cands if ord(c[i]) in d]
        by = {}
        for c in cands:
            by.setdefault(ord(c[i]), []).append(c)
        if not by:
            return None
        if not a.isin(frozenset(by)):
            return None
        # characters with the same continuations need not be told apart
        groups = {}
        for p, cs in by.items():
            key = p if exact else frozenset(c[i + 1:] for c in cs)
            groups.setdefault(key, []).append(p)
        gs = list(groups.values())
        for j, g in enumerate(gs):
            if j == len(gs) - 1 or a.isin(frozenset(g)):
                cands = [c for p in g for c in by[p]]
                break
    return cands[0] if cands else None


def code(a):
    return z3.IntVal(a) if type(a) is int else a.t


WS = frozenset(p for p in range(0x3001) if chr(p).isspace())


def class_of(pred):
    cache = {}

    def get(dom):
        r = cache.get(dom)
        if r is None:
            r = cache[dom] = frozenset(p for p in dom if pred(chr(p)))
        return r
    return get


def char_is(a, pred_cache, pred):
    if type(a) is int:
        return bool(pred(chr(a)))
    return a.isin(pred_cache(a.dom()))


_PREDS = {}
for _n in ("isalpha", "isdigit", "isalnum", "isspace", "isupper", "islower",
           "isnumeric", "isdecimal", "isprintable", "istitle",
           "isidentifier"):
    _f = (lambda n: lambda c: getattr(c, n)())(_n)
    _PREDS[_n] = (class_of(_f), _f)
_PREDS["cased"] = (class_of(lambda c: c.upper() != c or c.lower() != c),
                   lambda c: c.upper() != c or c.lower() != c)


def pred(a, name):
    g, f = _PREDS[name]
    return char_is(a, g, f)


def map_char(a, f):
    """Atoms of f(char), f a str->str function on one character."""
    if type(a) is int:
        return tuple(map(ord, f(chr(a))))
    d = a.dom()
    multi = frozenset(p for p in d if len(f(chr(p))) != 1)
    if multi and a.isin(multi):
        v = realise_ch(a)
        return tuple(map(ord, f(chr(v))))
    d = a.dom()
    groups = {}
    for p in d:
        groups.setdefault(ord(f(chr(p))) - p, set()).add(p)
    if len(groups) == 1:
        delta = next(iter(groups))
        if delta == 0:
            return (a,)
        return (Ch(z3.simplify(a.t + delta), frozenset(p + delta for p in d)),)
    # most populous delta last
    gs = sorted(groups.items(), key=lambda g: (-len(g[1]), g[0]))
    t = a.t + gs[0][0] if gs[0][0] else a.t
    img = set(p + gs[0][0] for p in gs[0][1])
    for delta, ps in gs[1:]:
        t = z3.If(rel_formula(a.t, frozenset(ps), d), a.t + delta, t)
        img |= {p + delta for p in ps}
    return (Ch(z3.simplify(t), frozenset(img)),)


def realise_ch(a):
    if type(a) is int:
        return a
    d = a.dom()
    if len(d) == 1:
        return next(iter(d))
    c = core.CTX
    while True:
        v = c.pick(lambda: c.get_model().eval(
            a.t, model_completion=True).as_long())
        if a.isin(frozenset([v])):
            return v
        if len(a.dom()) == 1:
            return next(iter(a.dom()))


class SymStr(Proxy):
    __slots__ = ("atoms",)

    def __init__(self, atoms):
        self.atoms = tuple(atoms)

    @property
    def __class__(self):
        return str

    # ---- structure ------------------------------------------------------
    def flat(self):
        """Atoms with Num/Dig expanded."""
        for a in self.atoms:
            if type(a) in (Num, Dig):
                break
        else:
            return self.atoms
        out = ()
        for a in self.atoms:
            out += expand_atom(a)
        self.atoms = out
        return out

    def chars(self):
        return [mk((a,)) for a in self.flat()]

    def length(self):
        return len(self.flat())

    def __len__(self):
        return self.length()

    def nonempty(self):
        return len(self.atoms) > 0

    def __bool__(self):
        return len(self.atoms) > 0

    def __iter__(self):
        return iter(self.chars())

    def realise(self, why="string at a C boundary"):
        core.CTX.stats.realised += 1
        # integers first: one decision each
        out = []
        n = 0
        for a in self.flat():
            out.append(realise_ch(a))
        return "".join(map(chr, out))

    def __hash__(self):
        return hash(self.realise("hash of a string"))

    def __str__(self):
        return self.realise()

    def __repr__(self):
        return f"<SymStr {self.atoms}>"

    def __format__(self, spec):
        return format(self.realise("format"), spec)

    # ---- comparison -------------------------------------------------------
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return mk_bool(eq_cond(self.atoms, of(o)))

    def __ne__(self, o):
        return core.sx_not(self.__eq__(o))

    def _lt(self, o, strict, flip):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.flat(), SymStr(of(o)).flat()
        if flip:
            a, b = b, a
        # a < b (strict) or a <= b
        n = min(len(a), len(b))
        base = len(a) < len(b) if strict else len(a) <= len(b)
        e = z3.BoolVal(base)
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            if _same(x, y):
                continue
            cx, cy = code(x), code(y)
            e = z3.Or(cx < cy, z3.And(cx == cy, e))
        return mk_bool(z3.simplify(e))

    def __lt__(self, o):
        return self._lt(o, True, False)

    def __le__(self, o):
        return self._lt(o, False, False)

    def __gt__(self, o):
        return self._lt(o, True, True)

    def __ge__(self, o):
        return self._lt(o, False, True)

    # ---- building ---------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.atoms + of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(of(o) + self.atoms)

    def __mul__(self, n):
        if type(n) is SymInt or type(n) is SymBool:
            n = +n
            if not (n > 0):
                return ""
            k = 1
            while not (n == k):
                k += 1
                if k > core.CTX_LIMITS["repeat"]:
                    core.CTX.cut("repeat count")
            n = k
        if not isinstance(n, int):
            return NotImplemented
        return mk(self.atoms * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.realise("% formatting") % o

    def __getitem__(self, i):
        f = self.flat()
        if isinstance(i, slice):
            return mk(f[norm_slice(i, len(f))])
        i = norm_index(i, len(f), "string index out of range")
        return mk((f[i],))

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError("'in <string>' requires string as left operand, "
                            f"not {type(sub).__name__}")
        return bool(self.contains(sub))

    def contains(self, sub):
        s = SymStr(of(sub)).flat()
        f = self.flat()
        if not s:
            return True
        alts = []
        for k in range(len(f) - len(s) + 1):
            c = eq_cond(f[k:k + len(s)], s)
            if c is True:
                return True
            if c is not False:
                alts.append(c)
        if not alts:
            return False
        return mk_bool(z3.Or(*alts) if len(alts) > 1 else alts[0])

    # ---- searching ----------------------------------------------------------
    def _bounds(self, start, end):
        n = len(self.flat())
        if isinstance(start, Proxy) and start > n:
            return n + 1, n
        s = norm_slice(slice(start, end), n)
        lo, hi, _ = s.indices(n)
        if start is not None and not isinstance(start, Proxy) \
                and start > n:
            lo = n + 1
        return lo, hi

    def find(self, sub, start=None, end=None):
        s = SymStr(of(sub)).flat()
        f = self.flat()
        lo, hi = self._bounds(start, end)
        for k in range(lo, hi - len(s) + 1):
            if mk_bool(eq_cond(f[k:k + len(s)], s)):
                return k
        return -1

    def rfind(self, sub, start=None, end=None):
        s = SymStr(of(sub)).flat()
        f = self.flat()
        lo, hi = self._bounds(start, end)
        for k in range(hi - len(s), lo - 1, -1):
            if mk_bool(eq_cond(f[k:k + len(s)], s)):
                return k
        return -1

    def index(self, sub, start=None, end=None):
        k = self.find(sub, start, end)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def rindex(self, sub, start=None, end=None):
        k = self.rfind(sub, start, end)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def count(self, sub, start=None, end=None):
        s = SymStr(of(sub)).flat()
        f = self.flat()
        lo, hi = self._bounds(start, end)
        if not s:
            return max(0, hi - lo + 1)
        if hi - lo < len(s):
            return 0
        if len(s) == 1:
            tot, const = [], 0
            for k in range(lo, hi):
                c = eq_cond(f[k:k + 1], s)
                if c is True:
                    const += 1
                elif c is not False:
                    tot.append(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            if not tot:
                return const
            return mk_int(z3.Sum(*tot, z3.IntVal(const)))
        n, k = 0, lo
        while k <= hi - len(s):
            if mk_bool(eq_cond(f[k:k + len(s)], s)):
                n += 1
                k += len(s)
            else:
                k += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q, start, end):
                    return True
            return False
        lo, hi = self._bounds(start, end)
        s = SymStr(of(p)).flat()
        f = self.flat()[lo:hi]
        if start is not None and lo > len(self.flat()):
            return False
        if len(s) > len(f):
            return False
        return mk_bool(eq_cond(f[:len(s)], s))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.endswith(q, start, end):
                    return True
            return False
        # cheap answer when the tail is concrete or lazily numeric
        if start is None and end is None and self.atoms:
            s0 = of(p)
            last = self.atoms[-1]
            if len(s0) == 1 and type(last) in (Num, Dig) and \
                    type(s0[0]) is int and s0[0] not in DIGITS:
                return False
            if (len(s0) >= 1 and type(last) in (Num, Dig)
                    and type(s0[-1]) is int and s0[-1] not in DIGITS):
                return False
        lo, hi = self._bounds(start, end)
        s = SymStr(of(p)).flat()
        f = self.flat()[lo:hi]
        if len(s) > len(f):
            return False
        return mk_bool(eq_cond(f[len(f) - len(s):], s))

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(SymStr(of(p)).flat()):]
        return self

    def removesuffix(self, p):
        n = len(SymStr(of(p)).flat())
        if n and self.endswith(p):
            return self[:-n]
        return self

    # ---- splitting ----------------------------------------------------------
    def _stripset(self, chars):
        if chars is None:
            return None
        return SymStr(of(chars)).flat()

    def _instrip(self, a, cs):
        if cs is None:
            if type(a) is int:
                return a in WS
            if type(a) in (Num, Dig):
                return False
            return a.isin(WS)
        if type(a) in (Num, Dig):
            return None
        if all(type(c) is int for c in cs):
            S = frozenset(cs)
            return a in S if type(a) is int else a.isin(S)
        for c in cs:
            x, y = (c, a) if type(a) is int else (a, c)
            r = (x == y) if type(x) is int else x.eqf(y)
            if r is True or r is not False and core.CTX.decide(r):
                return True
        return False

    def _strip(self, chars, left, right):
        cs = self._stripset(chars)
        at = list(self.atoms)

        def need_expand(a):
            if type(a) not in (Num, Dig) or cs is None:
                return False
            return any(type(c) is not int or c in DIGITS or c == 45
                       for c in cs)
        if any(need_expand(a) for a in at):
            at = list(self.flat())

        def inn(a):
            if type(a) in (Num, Dig):
                return False
            return self._instrip(a, cs)
        i, j = 0, len(at)
        if left:
            while i < j and inn(at[i]):
                i += 1
        if right:
            while j > i and inn(at[j - 1]):
                j -= 1
        if i == 0 and j == len(at):
            return self if len(at) else mk(())
        return mk(at[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        f = self.flat()
        if isinstance(maxsplit, Proxy):
            maxsplit = maxsplit.realise()
        res = []
        if sep is None:
            cur = []
            i = 0
            n = 0
            while i < len(f):
                if self._instrip(f[i], None):
                    if cur:
                        res.append(mk(cur))
                        cur = []
                        n += 1
                else:
                    if not cur and maxsplit >= 0 and n >= maxsplit:
                        rest = mk(f[i:])
                        res.append(rest.rstrip())
                        return res
                    cur.append(f[i])
                i += 1
            if cur:
                res.append(mk(cur))
            return res
        s = SymStr(of(sep)).flat()
        if not s:
            raise ValueError("empty separator")
        k = last = n = 0
        while k <= len(f) - len(s):
            if (maxsplit < 0 or n < maxsplit) and \
                    mk_bool(eq_cond(f[k:k + len(s)], s)):
                res.append(mk(f[last:k]))
                k += len(s)
                last = k
                n += 1
            else:
                k += 1
        res.append(mk(f[last:]))
        return res

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.realise("rsplit").rsplit(str(sep) if sep else sep,
                                             maxsplit)

    def splitlines(self, keepends=False):
        f = self.flat()
        brk = frozenset(p for p in range(0x2030)
                        if len(("a" + chr(p) + "b").splitlines()) == 2)
        res, cur = [], []
        i = 0
        while i < len(f):
            a = f[i]
            is_b = a in brk if type(a) is int else a.isin(brk)
            if is_b:
                end = [a]
                iscr = a == 13 if type(a) is int else \
                    a.isin(frozenset([13]))
                if iscr and i + 1 < len(f):
                    b = f[i + 1]
                    if (b == 10 if type(b) is int else
                            b.isin(frozenset([10]))):
                        end.append(b)
                        i += 1
                res.append(mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(a)
            i += 1
        if cur:
            res.append(mk(cur))
        return res

    def partition(self, sep):
        if not len(of(sep)):
            raise ValueError("empty separator")
        k = self.find(sep)
        n = len(SymStr(of(sep)).flat())
        if k < 0:
            return (self, "", "")
        return (self[:k], sep, self[k + n:])

    def rpartition(self, sep):
        if not len(of(sep)):
            raise ValueError("empty separator")
        k = self.rfind(sep)
        n = len(SymStr(of(sep)).flat())
        if k < 0:
            return ("", "", self)
        return (self[:k], sep, self[k + n:])

    def join(self, items):
        out = []
        first = True
        for it in items:
            if not isinstance(it, str):
                raise TypeError("sequence item: expected str instance, "
                                f"{type(it).__name__} found")
            if not first:
                out.extend(self.atoms)
            out.extend(of(it))
            first = False
        return mk(out)

    def replace(self, old, new, count=-1):
        o = SymStr(of(old)).flat()
        # nothing to do if the old text cannot occur in a lazy number
        f = self.flat()
        nw = of(new)
        if isinstance(count, Proxy):
            count = count.realise()
        out = []
        n = 0
        if not o:
            for i, a in enumerate(f):
                if count < 0 or n < count:
                    out.extend(nw)
                    n += 1
                out.append(a)
            if count < 0 or n < count:
                out.extend(nw)
            return mk(out)
        k = 0
        while k < len(f):
            if (k <= len(f) - len(o) and (count < 0 or n < count)
                    and mk_bool(eq_cond(f[k:k + len(o)], o))):
                out.extend(nw)
                n += 1
                k += len(o)
            else:
                out.append(f[k])
                k += 1
        return mk(out)

    # ---- case -----------------------------------------------------------------
    def _mapall(self, f):
        out = ()
        for a in self.flat():
            out += map_char(a, f)
        return mk(out)

    def upper(self):
        return self._mapall(str.upper)

    def lower(self):
        return self._mapall(str.lower)

    def casefold(self):
        return self._mapall(str.casefold)

    def swapcase(self):
        return self._mapall(str.swapcase)

    def capitalize(self):
        out = ()
        for i, a in enumerate(self.flat()):
            out += map_char(a, str.title if i == 0 else str.lower)
        return mk(out)

    def title(self):
        out = ()
        prev = False
        for a in self.flat():
            out += map_char(a, str.lower if prev else str.title)
            prev = pred(a, "cased")
        return mk(out)

    def translate(self, table):
        out = ()
        for a in self.flat():
            if type(table) is dict and type(a) is Ch and \
                    all(type(k) is int for k in table):
                if not a.isin(frozenset(table)):
                    out += (a,)
                    continue
                a = realise_ch(a)
            key = a if type(a) is int else mk_int(a.t)
            try:
                v = table[key]
            except LookupError:
                out += (a,)
                continue
            if v is None:
                continue
            if isinstance(v, int):
                v = to_chr(v) if isinstance(v, Proxy) else chr(v)
            out += tuple(of(v))
        return mk(out)

    def _allpred(self, name):
        f = self.flat()
        if not f:
            return False
        for a in f:
            if not pred(a, name):
                return False
        return True

    def isalpha(self):
        return self._allpred("isalpha")

    def isdigit(self):
        return self._allpred("isdigit")

    def isdecimal(self):
        return self._allpred("isdecimal")

    def isnumeric(self):
        return self._allpred("isnumeric")

    def isalnum(self):
        return self._allpred("isalnum")

    def isspace(self):
        return self._allpred("isspace")

    def isascii(self):
        for a in self.flat():
            if not (a < 128 if type(a) is int else
                    a.isin(frozenset(range(128)))):
                return False
        return True

    def isidentifier(self):
        return self.realise("isidentifier").isidentifier()

    def isprintable(self):
        for a in self.flat():
            if not pred(a, "isprintable"):
                return False
        return True

    def isupper(self):
        cased = False
        for a in self.flat():
            if pred(a, "islower"):
                return False
            if not cased and pred(a, "isupper"):
                cased = True
        return cased

    def islower(self):
        cased = False
        for a in self.flat():
            if pred(a, "isupper"):
                return False
            if not cased and pred(a, "islower"):
                cased = True
        return cased

    def istitle(self):
        return self.realise("istitle").istitle()

    # ---- padding ---------------------------------------------------------------
    def _pad(self, width, fill, l, r):
        if isinstance(width, Proxy):
            width = width.realise()
        n = width - len(self.flat())
        if n <= 0:
            return self
        if l and r:
            a = n // 2 + (n & width & 1)
            return fill * a + self + fill * (n - a)
        return fill * n + self if l else self + fill * n

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, False, True)

    def rjust(self, width, fill=" "):
        return self._pad(width, fill, True, False)

    def center(self, width, fill=" "):
        return self._pad(width, fill, True, True)

    def zfill(self, width):
        f = self.flat()
        if f and (f[0] in (43, 45) if type(f[0]) is int
                  else f[0].isin(frozenset((43, 45)))):
            return mk(f[:1]) + mk(f[1:]).rjust(width - 1, "0")
        return self.rjust(width, "0")

    def encode(self, *a):
        return self.realise("encode").encode(*a)

    def expandtabs(self, *a):
        return self.realise("expandtabs").expandtabs(*a)

    def format(self, *a, **k):
        return self.realise("format").format(*a, **k)


def norm_index(i, n, msg):
    """A concrete valid index (forking), or IndexError."""
    if type(i) is int:
        if -n <= i < n:
            return i + n if i < 0 else i
        raise IndexError(msg)
    if type(i) is SymInt:
        if i >= n or i < -n:
            raise IndexError(msg)
        v = core.CTX.concretize(i.e, limit=4 * n + 4, why="index")
        return v + n if v < 0 else v
    if isinstance(i, bool):
        return norm_index(int(i), n, msg)
    if hasattr(type(i), "__index__"):
        return norm_index(i.__index__(), n, msg)
    raise TypeError(f"indices must be integers or slices, not "
                    f"{type(i).__name__}")


def clamp_bound(b, n):
    """Concrete clamp of a slice bound for a sequence of length n."""
    if b is None or type(b) is int:
        return b
    if type(b) is SymBool:
        return int(bool(b))
    if type(b) is SymInt:
        if b >= n:
            return n
        if b <= -n:
            # -n and anything below both mean "from the start"
            return 0
        return core.CTX.concretize(b.e, limit=4 * n + 4, why="slice bound")
    if isinstance(b, int):
        return int(b)
    raise TypeError("slice indices must be integers or None or have an "
                    "__index__ method")


def norm_slice(s, n):
    if s.step is None or s.step == 1:
        return slice(clamp_bound(s.start, n), clamp_bound(s.stop, n))
    step = s.step
    if isinstance(step, Proxy):
        step = step.realise("slice step")
    for b in (s.start, s.stop):
        if isinstance(b, Proxy):
            return slice(
                s.start.realise("slice") if isinstance(s.start, Proxy)
                else s.start,
                s.stop.realise("slice") if isinstance(s.stop, Proxy)
                else s.stop, step)
    return slice(s.start, s.stop, step)


# ==========================================================================
# Conversions
# ==========================================================================

def to_str(x):
    """str() of an int/float/bool proxy."""
    if type(x) is SymInt:
        return SymStr((Num(x.e),))
    if type(x) is SymBool:
        return "True" if x else "False"
    if type(x) is SymFloat:
        return str_of_float(x)
    raise TypeError(type(x))


def str_of_float(x):
    if core.CTX.decide(z3.And(z3.IsInt(x.e), x.e < 10 ** 15,
                              x.e > -(10 ** 15))):
        return SymStr((Num(z3.simplify(z3.ToInt(x.e))), 46, 48))
    return str(x.realise("text of a float"))


def _digit_val(c):
    import unicodedata
    return unicodedata.decimal(chr(c), None)


def ch_value(a, table):
    """Int term of table[char]; char already known to be in table."""
    if type(a) is int:
        return z3.IntVal(table[a])
    d = a.dom()
    groups = {}
    for p in d:
        groups.setdefault(table[p] - p, set()).add(p)
    gs = sorted(groups.items(), key=lambda g: (-len(g[1]), g[0]))
    t = a.t + gs[0][0]
    for delta, ps in gs[1:]:
        t = z3.If(rel_formula(a.t, frozenset(ps), d), a.t + delta, t)
    return z3.simplify(t)


def to_int(s, base=10):
    at = list(of(s))
    if base == 10:
        if len(at) == 1 and type(at[0]) in (Num, Dig):
            return mk_int(at[0].t)
        if len(at) == 2 and at[0] == 45 and type(at[1]) is Dig:
            return mk_int(z3.simplify(-at[1].t))
    if isinstance(base, Proxy):
        base = base.realise("int() base")
    if base == 0 or not 2 <= base <= 36:
        if base != 0:
            raise ValueError("int() base must be >= 2 and <= 36, or 0")
        return int(SymStr(at).realise("int base 0"), 0)

    def bad():
        raise ValueError(f"invalid literal for int() with base {base}")
    st = SymStr(at).strip()
    f = list(of(st))
    if any(type(a) in (Num, Dig) for a in f):
        f = list(SymStr(f).flat())
    neg = False
    if f:
        a = f[0]
        if a == 45 if type(a) is int else a.isin(frozenset([45])):
            neg = True
            f = f[1:]
        elif a == 43 if type(a) is int else a.isin(frozenset([43])):
            f = f[1:]
    if base in (2, 8, 16) and len(f) > 1:
        pre = {2: "bB", 8: "oO", 16: "xX"}[base]
        a, b = f[0], f[1]
        if (a == 48 if type(a) is int else a.isin(frozenset([48]))):
            S = frozenset(map(ord, pre))
            if (b in S if type(b) is int else b.isin(S)):
                f = f[2:]
                if f and (f[0] == 95 if type(f[0]) is int
                          else f[0].isin(frozenset([95]))):
                    f = f[1:]
    if not f:
        bad()
    table = {}
    for a in f:
        for p in ([a] if type(a) is int else a.dom()):
            v = _digit_val(p)
            if v is None and chr(p).isascii() and chr(p).isalpha():
                v = ord(chr(p).lower()) - 87
            if v is not None and v < base:
                table[p] = v
    S = frozenset(table)
    val = z3.IntVal(0)
    prev_us = True
    for a in f:
        if (a in S if type(a) is int else a.isin(S)):
            val = val * base + ch_value(a, table)
            prev_us = False
        elif (a == 95 if type(a) is int else a.isin(frozenset([95]))):
            if prev_us:
                bad()
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    return mk_int(z3.simplify(-val if neg else val))


def to_float(s):
    at = list(of(s))
    f = list(of(SymStr(at).strip()))
    # [sign] int . 0 of a lazily printed integral float
    if any(type(a) in (Num, Dig) for a in f):
        if len(f) == 1:
            return SymFloat.of(mk_int(f[0].t))
        if (len(f) == 3 and type(f[0]) in (Num, Dig) and f[1] == 46
                and f[2] == 48):
            return SymFloat.of(mk_int(f[0].t))
        if (len(f) == 4 and f[0] == 45 and type(f[1]) is Dig and f[2] == 46
                and f[3] == 48):
            if core.CTX.decide(f[1].t == 0):
                return -0.0
            return SymFloat.of(mk_int(z3.simplify(-f[1].t)))
        f = list(SymStr(f).flat())

    def isch(a, S):
        return a in S if type(a) is int else a.isin(S)

    i = 0
    neg = False
    if f and isch(f[0], frozenset([43, 45])):
        neg = isch(f[0], frozenset([45]))
        i = 1
    val = z3.IntVal(0)
    nd = frac = 0
    dot = False
    D = {}
    for a in f:
        for p in ([a] if type(a) is int else a.dom()):
            v = _digit_val(p)
            if v is not None:
                D[p] = v
    DS = frozenset(D)
    while i < len(f):
        a = f[i]
        if isch(a, DS):
            val = val * 10 + ch_value(a, D)
            nd += 1
            frac += dot
        elif not dot and isch(a, frozenset([46])):
            dot = True
        else:
            # exponent, underscore, inf, nan, error: enumerate
            return float(SymStr(f).realise("float text"))
        i += 1
    if nd == 0:
        raise ValueError("could not convert string to float")
    if nd > 15:
        return float(SymStr(f).realise("float text"))
    if neg and core.CTX.decide(z3.simplify(val) == 0):
        return -0.0
    e = z3.ToReal(val) / (10 ** frac)
    if neg:
        e = -e
    return SymFloat(z3.simplify(e), frac == 0, True)


def to_chr(n):
    """chr() of a SymInt."""
    if n < 0 or n > 0x10FFFF:
        raise ValueError("chr() arg not in range(0x110000)")
    if n < 128:
        return mk((Ch(n.e, frozenset(range(128))),))
    return chr(n.realise("chr of a non-ASCII code"))


def to_ord(s):
    f = SymStr(of(s)).flat()
    if len(f) != 1:
        raise TypeError("ord() expected a character, but string of length "
                        f"{len(f)} found")
    a = f[0]
    return a if type(a) is int else mk_int(a.t)
