"""A backtracking regular-expression matcher for symbolic strings, driven by
CPython's own parse of the pattern (re._parser), so that the regular
expressions of the code under test are interpreted as they stand.  Character
tests fork; a run of decimal digits of an integer term is consumed as a unit
where that is exact, and expanded into digits otherwise."""

import re as _re
import re._parser as _p
import re._constants as _c
import z3
from . import core, strs
from .core import Proxy, mk_bool
from .strs import Ch, Num, Dig, SymStr, mk, of, DIGITS

PLACE = 0xF0000
META = frozenset(map(ord, ".^$*+?{}[]\\|()"))
ALNUM = frozenset(p for p in range(0x700) if chr(p).isalnum())


class Need(Exception):
    def __init__(self, i):
        self.i = i


class CharSet:
    """A single-character test: predicate over code points, cached."""
    __slots__ = ("f", "cache", "key")

    def __init__(self, f):
        self.f = f
        self.cache = {}

    def sub(self, dom):
        r = self.cache.get(dom)
        if r is None:
            f = self.f
            r = self.cache[dom] = frozenset(p for p in dom if f(p))
        return r

    def digits(self):
        """'all', 'none' or 'some' of the ASCII digits."""
        s = self.sub(DIGITS)
        return "all" if len(s) == 10 else "some" if s else "none"


class SymLit:
    """A literal in the pattern that is itself symbolic."""

    def __init__(self, atom, ic):
        self.atom, self.ic = atom, ic


def _variants(p):
    c = chr(p)
    out = {p}
    for d in (c.lower(), c.upper(), c.swapcase()):
        if len(d) == 1:
            out.add(ord(d))
    return out


_cats = {}


def _category(cat, flags):
    key = (cat, bool(flags & _re.ASCII))
    r = _cats.get(key)
    if r is None:
        s = {_c.CATEGORY_DIGIT: r"\d", _c.CATEGORY_NOT_DIGIT: r"\D",
             _c.CATEGORY_SPACE: r"\s", _c.CATEGORY_NOT_SPACE: r"\S",
             _c.CATEGORY_WORD: r"\w", _c.CATEGORY_NOT_WORD: r"\W"}[cat]
        rx = _re.compile(s, flags & _re.ASCII)
        r = _cats[key] = lambda p: rx.match(chr(p)) is not None
    return r


def single(op, av, flags, places):
    """CharSet/SymLit for a one-character node, or None."""
    ic = bool(flags & _re.IGNORECASE)
    if op is _c.LITERAL or op is _c.NOT_LITERAL:
        if av >= PLACE and av - PLACE < len(places):
            if op is _c.NOT_LITERAL:
                raise PatternTooSymbolic()
            return SymLit(places[av - PLACE], ic)
        if ic:
            vs = _variants(av)
            vs |= set().union(*[_variants(v) for v in vs])
        else:
            vs = {av}
        if op is _c.LITERAL:
            return CharSet(lambda p: p in vs)
        return CharSet(lambda p: p not in vs)
    if op is _c.ANY:
        if flags & _re.DOTALL:
            return CharSet(lambda p: True)
        return CharSet(lambda p: p != 10)
    if op is _c.IN:
        neg = False
        tests = []
        for o, a in av:
            if o is _c.NEGATE:
                neg = True
            elif o is _c.LITERAL:
                if a >= PLACE and a - PLACE < len(places):
                    raise PatternTooSymbolic()
                tests.append((lambda x: lambda p: p == x)(a))
            elif o is _c.RANGE:
                if a[1] >= PLACE and places:
                    raise PatternTooSymbolic()
                tests.append((lambda lo, hi: lambda p: lo <= p <= hi)(*a))
            elif o is _c.CATEGORY:
                tests.append(_category(a, flags))
            else:
                raise NotImplementedError(o)

        def f(p):
            ps = _variants(p) if ic else (p,)
            return any(t(q) for q in ps for t in tests) != neg
        return CharSet(f)
    return None


class PatternTooSymbolic(Exception):
    pass


def _prep(seq, flags, places):
    """Parse tree -> list of nodes (tuples) for the matcher."""
    out = []
    for op, av in seq:
        s = single(op, av, flags, places)
        if s is not None:
            out.append(("one", s))
        elif op is _c.BRANCH:
            out.append(("branch", [_prep(x, flags, places) for x in av[1]]))
        elif op is _c.SUBPATTERN:
            g, add, dele, sub = av
            out.append(("group", g, _prep(sub, (flags | add) & ~dele,
                                          places)))
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = None if hi is _c.MAXREPEAT else hi
            body = _prep(sub, flags, places)
            kind = {_c.MAX_REPEAT: "max", _c.MIN_REPEAT: "min",
                    _c.POSSESSIVE_REPEAT: "poss"}[op]
            if len(body) == 1 and body[0][0] == "one" and \
                    isinstance(body[0][1], CharSet):
                out.append(("rep1", kind, int(lo), hi, body[0][1]))
            else:
                out.append(("rep", kind, int(lo), hi, body))
        elif op is _c.ATOMIC_GROUP:
            out.append(("atomic", _prep(av, flags, places)))
        elif op is _c.AT:
            m = bool(flags & _re.MULTILINE)
            a = bool(flags & _re.ASCII)
            name = {_c.AT_BEGINNING: "bol" if m else "bos",
                    _c.AT_BEGINNING_STRING: "bos",
                    _c.AT_END: "eol" if m else "eosnl",
                    _c.AT_END_STRING: "eos",
                    _c.AT_BOUNDARY: "wb", _c.AT_NON_BOUNDARY: "nwb"}[av]
            out.append(("at", name, a))
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            d, sub = av
            w = sub.getwidth()
            out.append(("look", op is _c.ASSERT, d, int(w[0]),
                        _prep(sub, flags, places)))
        elif op is _c.GROUPREF:
            out.append(("ref", av, bool(flags & _re.IGNORECASE)))
        elif op is _c.GROUPREF_EXISTS:
            g, yes, no = av
            out.append(("cond", g, _prep(yes, flags, places),
                        _prep(no, flags, places) if no else []))
        else:
            raise NotImplementedError(f"regex construct {op}")
    return out


NL = frozenset([10])


def _isnl(a):
    if type(a) is int:
        return a == 10
    if type(a) is Dig:
        return False
    return a.isin(NL)


_word = {}


def _isword(a, ascii_):
    if type(a) is Dig:
        return True
    cs = _word.get(ascii_)
    if cs is None:
        cs = _word[ascii_] = CharSet(_category(
            _c.CATEGORY_WORD, _re.ASCII if ascii_ else 0))
    if type(a) is int:
        return cs.f(a)
    return a.isin(cs.sub(a.dom()))


class Matcher:
    def __init__(self, nodes, ngroups, atoms):
        self.nodes, self.ngroups = nodes, ngroups
        self.at = atoms
        self.n = len(atoms)
        self.steps = 0

    def step(self, cs, pos):
        """Match one char at pos -> next pos or None."""
        i, inside = pos
        if inside:
            d = cs.digits() if type(cs) is CharSet else "some"
            if d == "none":
                return None
            raise Need(i)
        if i >= self.n:
            return None
        a = self.at[i]
        if type(cs) is SymLit:
            return self.symlit(cs, a, i)
        if type(a) is int:
            return (i + 1, False) if cs.f(a) else None
        if type(a) is Dig:
            if cs.digits() == "none" or not self.lead(cs, a):
                return None
            raise Need(i)
        return (i + 1, False) if a.isin(cs.sub(a.dom())) else None

    def lead(self, cs, a):
        """Whether cs could match the first digit of a number: one that
        matches no digit but 0 can only match the number 0."""
        for d in range(49, 58):
            if cs.f(d):
                return True
        return core.CTX.decide(a.t == 0)

    def symlit(self, cs, a, i):
        if type(a) is Dig:
            raise Need(i)
        b = cs.atom
        if cs.ic:
            x = strs.map_char(a, str.lower)
            y = strs.map_char(b, str.lower)
            r = strs.eq_cond(x, y)
        else:
            r = strs.eq_cond((a,), (b,))
        if mk_bool(r) if r is not True and r is not False else r:
            return (i + 1, False)
        return None

    def m(self, seq, idx, pos, g, k):
        while idx < len(seq):
            nd = seq[idx]
            kind = nd[0]
            if kind == "one":
                pos = self.step(nd[1], pos)
                if pos is None:
                    return None
                idx += 1
                continue
            if kind == "at":
                if not self.anchor(nd[1], nd[2], pos):
                    return None
                idx += 1
                continue
            nxt = idx + 1

            def kk(p, g2):
                return self.m(seq, nxt, p, g2, k)
            if kind == "group":
                gi = nd[1]
                if gi is None:
                    return self.m(nd[2], 0, pos, g, kk)
                start = pos

                def kg(p, g2):
                    if p[1] or start[1]:
                        raise Need(p[0] if p[1] else start[0])
                    g3 = dict(g2)
                    g3[gi] = (start[0], p[0])
                    return kk(p, g3)
                return self.m(nd[2], 0, pos, g, kg)
            if kind == "branch":
                for alt in nd[1]:
                    r = self.m(alt, 0, pos, g, kk)
                    if r is not None:
                        return r
                return None
            if kind == "rep1":
                return self.rep1(nd, pos, g, kk)
            if kind == "rep":
                return self.rep(nd, pos, g, kk)
            if kind == "atomic":
                r = self.m(nd[1], 0, pos, g, lambda p, g2: (p, g2))
                return None if r is None else kk(*r)
            if kind == "look":
                _, positive, d, w, sub = nd
                if d < 0:
                    i, inside = pos
                    if inside:
                        raise Need(i)
                    j = i - w
                    if any(type(a) is Dig for a in
                           self.at[max(0, j):i]):
                        for q in range(max(0, j), i):
                            if type(self.at[q]) is Dig:
                                raise Need(q)
                    if j < 0:
                        r = None
                    else:
                        r = self.m(sub, 0, (j, False), g,
                                   lambda p, g2: (p, g2)
                                   if p == (i, False) else None)
                else:
                    r = self.m(sub, 0, pos, g, lambda p, g2: (p, g2))
                if positive:
                    if r is None:
                        return None
                    g = r[1]
                elif r is not None:
                    return None
                idx += 1
                continue
            if kind == "ref":
                span = g.get(nd[1])
                if span is None:
                    return None
                t = self.at[span[0]:span[1]]
                for q, a in enumerate(t):
                    if type(a) is Dig:
                        raise Need(span[0] + q)
                i, inside = pos
                if inside:
                    raise Need(i)
                u = self.at[i:i + len(t)]
                for q, a in enumerate(u):
                    if type(a) is Dig:
                        raise Need(i + q)
                if len(u) < len(t):
                    return None
                if nd[2]:
                    t = sum((strs.map_char(a, str.lower) for a in t), ())
                    u = sum((strs.map_char(a, str.lower) for a in u), ())
                if not mk_bool(strs.eq_cond(t, u)):
                    return None
                pos = (i + len(u), False)
                idx += 1
                continue
            if kind == "cond":
                return self.m(nd[2] if nd[1] in g else nd[3], 0, pos, g, kk)
            raise NotImplementedError(kind)
        return k(pos, g)

    def anchor(self, name, ascii_, pos):
        i, inside = pos
        if inside:
            return name == "nwb"
        n, at = self.n, self.at
        if name == "bos":
            return i == 0
        if name == "bol":
            return i == 0 or bool(_isnl(at[i - 1]))
        if name == "eos":
            return i == n
        if name == "eosnl":
            return i == n or (i == n - 1 and bool(_isnl(at[i])))
        if name == "eol":
            return i == n or bool(_isnl(at[i]))
        if name == "nwb" and n == 0:
            return False  # CPython 3.12: \B never matches an empty string
        a = i > 0 and bool(_isword(at[i - 1], ascii_))
        b = i < n and bool(_isword(at[i], ascii_))
        return (a != b) == (name == "wb")

    def rep1(self, nd, pos, g, kk):
        _, kind, lo, hi, cs = nd

        def nexts(p):
            """(next pos, unit?) consuming one char or a whole digit run."""
            i, inside = p
            if inside:
                if cs.digits() == "none":
                    return None
                raise Need(i)
            if i < self.n and type(self.at[i]) is Dig:
                d = cs.digits()
                if d == "none" or not self.lead(cs, self.at[i]):
                    return None
                if d == "some" or hi is not None or kind == "min":
                    raise Need(i)
                return ((i + 1, False), True)
            q = self.step(cs, p)
            return None if q is None else (q, False)

        if kind == "min":
            cnt = 0
            while cnt < lo:
                r = nexts(pos)
                if r is None:
                    return None
                pos = r[0]
                cnt += 1
            while True:
                res = kk(pos, g)
                if res is not None:
                    return res
                if hi is not None and cnt >= hi:
                    return None
                r = nexts(pos)
                if r is None:
                    return None
                pos = r[0]
                cnt += 1
        trail = [(pos, 0, False)]
        cnt = 0
        while hi is None or cnt < hi:
            r = nexts(pos)
            if r is None:
                break
            pos = r[0]
            if r[1] and cnt + 1 < lo:
                raise Need(trail[-1][0][0])
            cnt += 1
            trail.append((pos, cnt, r[1]))
        if kind == "poss":
            return kk(pos, g) if cnt >= lo else None
        for j in range(len(trail) - 1, -1, -1):
            p, c, unit = trail[j]
            if c >= lo:
                res = kk(p, g)
                if res is not None:
                    return res
            if unit:
                # interior of the digit run (consumed at least one digit)
                if c >= lo:
                    res = kk((p[0] - 1, True), g)
                    if res is not None:
                        raise Need(p[0] - 1)
        return None

    def rep(self, nd, pos, g, kk):
        _, kind, lo, hi, body = nd

        def go(cnt, p, g2, last):
            if cnt < lo:
                return self.m(body, 0, p, g2,
                              lambda p3, g3: go(cnt + 1, p3, g3, p))
            if kind == "min":
                r = kk(p, g2)
                if r is not None:
                    return r
                if (hi is None or cnt < hi) and p != last:
                    return self.m(body, 0, p, g2,
                                  lambda p3, g3: go(cnt + 1, p3, g3, p))
                return None
            if (hi is None or cnt < hi) and p != last:
                r = self.m(body, 0, p, g2,
                           lambda p3, g3: go(cnt + 1, p3, g3, p))
                if r is not None:
                    return r
            return kk(p, g2)
        if kind == "poss":
            cnt = 0
            while hi is None or cnt < hi:
                r = self.m(body, 0, pos, g, lambda p, g2: (p, g2))
                if r is None:
                    break
                cnt += 1
                same = r[0] == pos
                pos, g = r
                if same:
                    cnt = max(cnt, lo)
                    break
            return kk(pos, g) if cnt >= lo else None
        return go(0, pos, g, None)

    def match_at(self, pos, must_advance=False, full=False):
        def fin(p, g):
            if p[1]:
                raise Need(p[0])
            if must_advance and p == pos:
                return None
            if full and p != (self.n, False):
                return None
            return (p, g)
        return self.m(self.nodes, 0, pos, {}, fin)

    def search(self, start, must_advance=False):
        i = start
        while i <= self.n:
            r = self.match_at((i, False), must_advance)
            if r is not None:
                return i, r[0][0], r[1]
            must_advance = False
            if i < self.n and type(self.at[i]) is Dig:
                r = self.match_at((i, True))
                if r is not None:
                    raise Need(i)
            i += 1
        return None


def _presplit(s):
    """Atoms with signs of Num decided."""
    out = []
    for a in of(s):
        if type(a) is Num:
            out.extend(strs.split_num(a))
        else:
            out.append(a)
    return out


class SxMatch:
    def __init__(self, pat, s, atoms, start, end, groups):
        self._pat, self.string = pat, s
        self._at = atoms
        self._spans = dict(groups)
        self._spans[0] = (start, end)
        self.re = pat
        self.pos = 0

    @property
    def __class__(self):
        return _re.Match

    @property
    def endpos(self):
        return strs.SymStr(self._at).length()

    def _gi(self, g):
        if isinstance(g, str):
            try:
                return self._pat.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        if g < 0 or g > self._pat.groups:
            raise IndexError("no such group")
        return g

    def _text(self, g, default=None):
        sp = self._spans.get(self._gi(g))
        if sp is None:
            return default
        return mk(self._at[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._text(0)
        if len(gs) == 1:
            return self._text(gs[0])
        return tuple(self._text(g) for g in gs)

    def __getitem__(self, g):
        return self._text(g)

    def groups(self, default=None):
        return tuple(self._text(i, default)
                     for i in range(1, self._pat.groups + 1))

    def groupdict(self, default=None):
        return {n: self._text(i, default)
                for n, i in self._pat.groupindex.items()}

    def _off(self, i):
        n = 0
        for a in self._at[:i]:
            n += len(strs.expand_atom(a)) if type(a) in (Num, Dig) else 1
        return n

    def span(self, g=0):
        sp = self._spans.get(self._gi(g))
        if sp is None:
            return (-1, -1)
        a = self._off(sp[0])
        return (a, a + self._off_between(*sp))

    def _off_between(self, i, j):
        n = 0
        for a in self._at[i:j]:
            n += len(strs.expand_atom(a)) if type(a) in (Num, Dig) else 1
        return n

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self._pat.groups + 1))

    @property
    def lastindex(self):
        raise NotImplementedError("lastindex")

    def expand(self, template):
        return self._pat._expand(template)(self)

    def __bool__(self):
        return True


_prep_cache = {}


class SxPattern:
    """A compiled pattern; the real one whenever everything is concrete."""

    def __init__(self, real, pattern, flags, places=()):
        self._real = real
        self.pattern = pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = real.groupindex
        self._places = places
        self._nodes = None

    @property
    def __class__(self):
        return _re.Pattern

    def __eq__(self, o):
        if type(o) is not SxPattern:
            return NotImplemented
        return self._real == o._real and not self._places and \
            not o._places

    def __hash__(self):
        return hash(self._real)

    def _prepared(self):
        if self._nodes is None:
            key = None
            if not self._places:
                key = (self._real.pattern, self._real.flags)
                hit = _prep_cache.get(key)
                if hit:
                    self._nodes = hit
                    return hit
            p = _p.parse(self._real.pattern, self._real.flags & ~32
                         if not isinstance(self._real.pattern, bytes)
                         else self._real.flags)
            fl = p.state.flags if hasattr(p.state, "flags") else \
                self._real.flags
            self._nodes = _prep(p, fl | self._real.flags, self._places)
            if key:
                _prep_cache[key] = self._nodes
        return self._nodes

    def _conc(self, *ss):
        return not self._places and not any(isinstance(s, Proxy) for s in ss)

    def _run(self, s, f):
        """Run f(matcher) expanding digit runs on demand."""
        atoms = _presplit(s)
        while True:
            mt = Matcher(self._prepared(), self.groups, tuple(atoms))
            try:
                return f(mt), tuple(atoms)
            except Need as e:
                i = e.i
                atoms = (atoms[:i] + list(strs.expand_atom(atoms[i]))
                         + atoms[i + 1:])

    def _rng(self, s, pos, endpos):
        if pos or endpos is not None:
            return True
        return False

    def match(self, s, pos=0, endpos=None):
        return self._m(s, pos, endpos, "match")

    def fullmatch(self, s, pos=0, endpos=None):
        return self._m(s, pos, endpos, "fullmatch")

    def search(self, s, pos=0, endpos=None):
        return self._m(s, pos, endpos, "search")

    def _m(self, s, pos, endpos, how):
        if isinstance(pos, Proxy):
            pos = pos.realise("regex pos")
        if isinstance(endpos, Proxy):
            endpos = endpos.realise("regex endpos")
        if self._conc(s):
            f = getattr(self._real, how)
            return f(s, pos) if endpos is None else f(s, pos, endpos)
        if not isinstance(s, str):
            raise TypeError("expected string or bytes-like object, got "
                            f"{type(s).__name__!r}")
        start = 0
        if pos or endpos is not None:
            s = mk(SymStr(of(s)).flat())
            fl = of(s)
            if endpos is not None:
                s = mk(fl[:max(0, endpos)])
            start = max(0, min(pos, len(of(s))))

        def f(mt):
            if how == "search":
                return mt.search(start)
            r = mt.match_at((start, False), full=how == "fullmatch")
            return None if r is None else (start, r[0][0], r[1])
        r, atoms = self._run(s, f)
        if r is None:
            return None
        return SxMatch(self, s, atoms, *r)

    def _scan(self, s):
        """All successive matches (as CPython's scanner finds them)."""
        def f(mt):
            out = []
            start, adv = 0, False
            while start <= mt.n:
                r = mt.search(start, adv)
                if r is None:
                    break
                out.append(r)
                a, b, _ = r
                adv = a == b
                start = b
            return out
        return self._run(s, f)

    def finditer(self, s, *a):
        if self._conc(s):
            return self._real.finditer(s, *a)
        return self._finditer(s)

    def _finditer(self, s):
        # matches are found one at a time, as CPython does
        rs, atoms = self._scan(s)
        for r in rs:
            yield SxMatch(self, s, atoms, *r)

    def findall(self, s, *a):
        if self._conc(s):
            return self._real.findall(s, *a)
        out = []
        for m in self._finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._text(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if self._conc(s) and not isinstance(maxsplit, Proxy):
            return self._real.split(s, maxsplit)
        rs, atoms = self._scan(s)
        out = []
        last = 0
        for k, (a, b, g) in enumerate(rs):
            if maxsplit > 0 and k >= maxsplit:
                break
            out.append(mk(atoms[last:a]))
            for i in range(1, self.groups + 1):
                sp = g.get(i)
                out.append(None if sp is None else mk(atoms[sp[0]:sp[1]]))
            last = b
        out.append(mk(atoms[last:]))
        return out

    def _expand(self, repl):
        if isinstance(repl, Proxy):
            bs = frozenset([92])
            for a in repl.flat():
                if (a == 92 if type(a) is int else a.isin(bs)):
                    repl = repl.realise("replacement template")
                    break
            else:
                return lambda m: repl
        if "\\" not in repl:
            return lambda m: repl
        parts = _p.parse_template(repl, self._real)

        def ex(m):
            out = ""
            for i, x in enumerate(parts):
                if isinstance(x, int):
                    out = out + m._text(x, "")
                else:
                    out = out + x
            return out
        return ex

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        call = callable(repl) and not isinstance(repl, str)
        if self._conc(s, repl) and not isinstance(count, Proxy):
            return self._subn_conc(repl, s, count, call)
        ex = repl if call else self._expand(repl)
        rs, atoms = self._scan(s)
        out = ()
        last = n = 0
        for a, b, g in rs:
            if count > 0 and n >= count:
                break
            out += atoms[last:a]
            r = ex(SxMatch(self, s, atoms, a, b, g))
            if not isinstance(r, str):
                raise TypeError("sequence item: expected str instance")
            out += of(r)
            last = b
            n += 1
        out += atoms[last:]
        return mk(out), n

    def _subn_conc(self, repl, s, count, call):
        if not call:
            return self._real.subn(repl, s, count)
        # the callback may return a symbolic string
        out = ""
        last = n = 0
        for m in self._real.finditer(s):
            if count > 0 and n >= count:
                break
            out = out + s[last:m.start()]
            r = repl(m)
            if not isinstance(r, str):
                raise TypeError("sequence item: expected str instance")
            out = out + r
            last = m.end()
            n += 1
        return out + s[last:], n

    def scanner(self, *a):
        raise NotImplementedError("scanner")

    def __repr__(self):
        return f"sx.compile({self.pattern!r})"


def compile_(pattern, flags=0):
    if type(pattern) is SxPattern:
        return pattern
    if isinstance(flags, Proxy):
        flags = flags.realise("regex flags")
    if isinstance(pattern, Proxy):
        return compile_sym(pattern, flags)
    return SxPattern(_re.compile(pattern, flags), pattern, flags)


DIGSET = frozenset(range(48, 58))


def compile_sym(pattern, flags):
    """Pattern text with symbolic characters: characters that can only be
    literals become placeholders; anything else is enumerated."""
    at = SymStr(of(pattern)).flat()
    out = []
    places = []
    esc = False
    inclass = False
    for i, a in enumerate(at):
        if type(a) is not int:
            safe = False
            if not inclass:
                if esc:
                    if not (a.dom() & ALNUM) or not a.isin(ALNUM):
                        safe = True
                else:
                    prev = at[i - 1] if i else None
                    ctxbad = (prev in (40, 63, 123, 91)
                              if type(prev) is int else False)
                    # inside {..} or (?..) text is not literal
                    if not ctxbad or prev in (40,):
                        bad = META | ({35} | strs.WS if flags & _re.X
                                      else set())
                        if prev == 40:
                            bad = bad | {63, 42}
                        # digit after \digit, or in a brace
                        j = i - 1
                        while j >= 0 and type(at[j]) is int and (
                                at[j] in DIGSET or at[j] == 44):
                            j -= 1
                        if j >= 0 and type(at[j]) is int and \
                                at[j] in (92, 123):
                            bad = bad | DIGSET | {44}
                        safe = not a.isin(frozenset(bad))
            if safe:
                places.append(a)
                if esc:
                    out.pop()  # drop the backslash
                out.append(PLACE + len(places) - 1)
                esc = False
                continue
            a = strs.realise_ch(a)
        out.append(a)
        if esc:
            esc = False
        elif a == 92:
            esc = True
        elif inclass:
            if a == 93 and at[i - 1] != 91:
                inclass = False
        elif a == 91:
            inclass = True
    text = "".join(map(chr, out))
    real = _re.compile(text, flags)
    p = SxPattern(real, pattern, flags, tuple(places))
    if not places:
        p.pattern = text
        return p
    try:
        p._prepared()
    except PatternTooSymbolic:
        text = SymStr(at).realise("regex text")
        return SxPattern(_re.compile(text, flags), text, flags)
    return p


_special = frozenset(p for p in range(0x700)
                     if _re.escape(chr(p)) != chr(p))


def escape(s):
    if not isinstance(s, Proxy):
        return _re.escape(s)
    out = []
    for a in s.flat():
        if (a in _special if type(a) is int else a.isin(_special)):
            out.append(92)
        out.append(a)
    return mk(out)


class ReModule:
    """Stands in for the re module in instrumented code."""
    def __init__(self):
        for n in ("ASCII", "A", "IGNORECASE", "I", "MULTILINE", "M", "DOTALL",
                  "S", "VERBOSE", "X", "LOCALE", "L", "UNICODE", "U",
                  "NOFLAG", "RegexFlag", "error", "Pattern", "Match",
                  "purge"):
            setattr(self, n, getattr(_re, n))
        self.compile = compile_
        self.escape = escape

    def match(self, p, s, flags=0):
        return compile_(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return compile_(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return compile_(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        return compile_(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return compile_(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return compile_(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return compile_(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return compile_(p, flags).finditer(s)


RE = ReModule()
