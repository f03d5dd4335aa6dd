"""Output: what is printed is the text of the value in the chosen format."""

BOUNDS = {
    "quick": "values of 22 shapes: texts of up to 3 characters over all of "
             "Unicode, integers of up to 8 digits, nil, patterns, ranges of up to "
             "3 items at any place, lists nested to depth 4; all 7 list "
             "formats; all operators for the same value under every format "
             "and with warnings",
    "thorough": "texts of up to 5 characters, ranges of up to 5 items, "
                "two symbolic operands of every kind for every operator",
}

BIG = 10 ** 8
FORMATS = (None, "n", "s", "l", "p", "P", "S")
SHAPES = ("0", "t", "i", "n", "[]", "[t]", "[i]", "[n]", "[t,t]", "[t,n,i]",
          "[[]]", "[[t],t]", "[t,[i,n]]", "[[t,t],[i,t]]", "[[[t],i],t]",
          "[[],[[]],n]", "[[[t,[i,t]],t],n,[t]]", "r", "[r]", "[t,r,t]",
          "[[r,t],i]", "e", "[e,t]", "p", "[p,t]")
UNARY = ("# + - ! $+ A C RP RV UQ LC UC SC Z UW FL CP PM SN H S EV "
         "OD NG SG AB SI SQ RT CD DN UP \\, , @ TB FB TD FD UN "
         "ZD ZJ PZ DQ PO DU MX MN TM").split()
BINARY = ("< > = <= >= != LT GT Q LE GE NE #= #< #> == ~= N NI CB AE AL PE "
          "PU PB PK ^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP CG ZG OG "
          "TD FD WR ~ . RM DC X || |> <| TM , \\, TB BA BO BX AT CM |< >| "
          "RZ RN + - AD * / % // ** E FB @ @< @> M").split()


def units(tier):
    t = tier == "thorough"
    us = []
    for s in SHAPES:
        for f in FORMATS:
            us.append((f"{s} as {f}", "show", {"s": s, "f": f, "t": t}))
    for f in FORMATS:
        us.append((f"order as {f}", "order", {"f": f}))
        us.append((f"passes on as {f}", "passes", {"f": f}))
    for op in UNARY:
        us.append((f"{op} a", "unary", {"op": op, "t": t}))
    for op in BINARY:
        us.append((f"a {op} b", "binary", {"op": op, "t": t}))
    for f in ("silent", "loops", "functions", "reprs", "endless", "lines"):
        us.append((f, f, {}))
    return us


class Maker:
    """Makes values of a shape.  If `only` is given, just that text or number
    of it is symbolic (and the rest are some constants)."""

    def __init__(self, ctx, t=False, only=None, small=False):
        self.ctx, self.n, self.t, self.only = ctx, 0, t, only
        self.small = small

    def make(self, s):
        v, rest = self.read(s)
        if rest:
            raise ValueError(s)
        return v

    def read(self, s):
        ctx, c = self.ctx, s[0]
        if c == "[":
            xs, s = [], s[1:]
            while s[0] != "]":
                x, s = self.read(s)
                xs.append(x)
                if s[0] == ",":
                    s = s[1:]
            return xs, s[1:]
        if c == "0":
            return "", s[1:]
        if c == "n":
            return None, s[1:]
        self.n += 1
        n = f"v{self.n}"
        fixed = self.only is not None and self.only != self.n
        if c == "t":
            if fixed:
                return ("a b", "-7", "", "x\n")[self.n % 4], s[1:]
            if self.small:
                return ctx.string(n, 1, alpha("a0 \n")), s[1:]
            k = (5 if self.t else 3) if self.n == 1 else 1
            return ctx.string(n, k, FULL), s[1:]
        if c == "i":
            if self.small:
                return ctx.int(n, -2, 3), s[1:]
            return 40 + self.n if fixed else ctx.int(n, -BIG, BIG), s[1:]
        if c == "p":
            return ("pattern", ctx.choice(n, ("a+", "`", "\n")), 0), s[1:]
        if c == "r":
            lo = self.n if fixed else ctx.int(n, -2, 2) if self.small \
                else ctx.int(n, -BIG, BIG)
            k = 2 if self.small else ctx.choice(
                n + "k", range(6 if self.t else 4))
            return ("range", lo, lo + k), s[1:]
        if c == "e":
            lo = self.n if fixed else ctx.int(n, -BIG, BIG)
            return ("range", lo, None), s[1:]
        raise ValueError(s)


def leaves(s):
    return sum(s.count(c) for c in "tirep")


def symbolic(ctx, s, f):
    """Which part of a value is symbolic: all of it, or, where the repr is
    printed, each in turn."""
    if f not in ("p", "P") or leaves(s) < 2:
        return None
    return ctx.choice("only", range(1, leaves(s) + 1))


def plain(v):
    """The text of a value that is not a list."""
    if v is None:
        return ""
    if isinstance(v, tuple) and v[0] == "pattern":
        return v[1]
    if isinstance(v, tuple):
        return f"({v[1]},())"
    return str(v)


def spread(v):
    if isinstance(v, tuple) and v[0] == "range" and v[2] is not None:
        return [v[1] + k for k in range(8) if v[1] + k < v[2]]
    return v


def join(sep, xs):
    r = ""
    for k, x in enumerate(xs):
        r = r + (sep if k else "") + x
    return r


def deep(v, sep):
    v = spread(v)
    if isinstance(v, list):
        return join(sep, [deep(x, sep) for x in v])
    return plain(v)


def shown(v):
    """What RP says of a value; ranges of a list as they are."""
    return str(W.ptypes.Scalar(repr(pip(v))))


def text_of(v, f):
    w = spread(v)
    if not isinstance(w, list):
        return plain(v)
    if f is None:
        return deep(w, "")
    if f == "n":
        return deep(w, "\n")
    if f == "s":
        return deep(w, " ")
    if f == "l":
        return join("\n", [deep(x, "") for x in w])
    if f == "S":
        return join("\n", [deep(x, " ") for x in w])
    if f == "p":
        return "[" + join(";", [shown(x) for x in w]) + "]"
    return join("\n", [shown(x) for x in w])


def printed(ctx, f, code, *args, warn=False):
    st = state(warn, f)
    st.executeProgram(parse(code), [pip(x) for x in args])
    return ctx.output()


def show(ctx, s, f, t):
    v = Maker(ctx, t, symbolic(ctx, s, f)).make(s)
    w = text_of(v, f)
    line = "" if v is None else w + "\n"
    part = "" if v is None else w
    same(ctx, printed(ctx, f, "a", v), line, "the program's value")
    same(ctx, printed(ctx, f, "P a;()", v), line, "P")
    same(ctx, printed(ctx, f, "O a;()", v), part, "O")
    same(ctx, printed(ctx, f, "O a", v), part + line, "O and the value")
    same(ctx, printed(ctx, f, "YP a;()", v), line, "YP")
    same(ctx, printed(ctx, f, "YO a;P y;()", v), part + line, "YO")
    same(ctx, printed(ctx, f, "{P a}V[a];()", v), line, "P in a function")
    same(ctx, printed(ctx, f, "O P a;O'.", v), line + part + "..\n",
         "O of P")
    st = state(False, f)
    same(ctx, py(run("ST a", [v], st)), w, "ST")
    ctx.check(ctx.errors() == "", "nothing on standard error")


def order(ctx, f):
    x, y = ctx.string("x", 2, FULL), ctx.int("y", -BIG, BIG)
    same(ctx, printed(ctx, f, "P a;O b;O a;P b;b", x, y),
         x + "\n" + str(y) + x + str(y) + "\n" + str(y) + "\n",
         "output in order")
    same(ctx, printed(ctx, f, "O(O a).P b", x, y),
         x + str(y) + "\n" + x + str(y) + x + str(y) + "\n",
         "output in order")
    same(ctx, printed(ctx, f, "P a;{O a;P b}MP[a;b;a];O();P();O[];b", x, y),
         x + "\n" + x + str(y) + "\n" + str(y) + x + "\n" + ("[]" if f == "p" else "") + str(y)
         + "\n", "output in order")
    same(ctx, printed(ctx, f, "I a Q b {P a} EL {P b}", x, y),
         (x if x == str(y) else str(y)) + "\n", "no value")


def passes(ctx, f):
    s = ctx.choice("s", ("t", "i", "n", "[t,n,[i]]", "r", "e", "p"))
    x = Maker(ctx, False, symbolic(ctx, s, f)).make(s)
    for op in ("P", "O", "YP", "YO"):
        st = state(False, f)
        same(ctx, py(run(f"[{op} a;a;{op} a]", [x], st)),
             [py(pip(x))] * 3, f"{op} passes its operand on")
        ctx.output()
    for op in ("YP", "YO"):
        same(ctx, py(run(f"y:5;{op} a;y", [x], state(False, f))),
             py(pip(x)), f"{op} yanks")
        ctx.output()


def silent(ctx):
    x = ctx.string("x", 2, FULL)
    for code in ("", "()", "a;()", "x:a;I 0 {a}", "F i,3 {i}", "{}V[a]",
                 "P()", "O()", "YP()"):
        for f in FORMATS:
            same(ctx, printed(ctx, f, code, x), "", f"{code} prints nothing")
    same(ctx, printed(ctx, None, "P\"\"", x), "\n\n", "an empty line")
    same(ctx, printed(ctx, None, "P[];[()]", x), "\n\n", "an empty line")


def loops(ctx):
    n = ctx.int("n", 0, 4)
    w = [str(i) for i in range(4) if i < n]
    same(ctx, printed(ctx, None, "F i,a P i", n), "".join(
        [x + "\n" for x in w]), "P in a loop")
    same(ctx, printed(ctx, None, "F i,a O i", n), "".join(w), "O in a loop")
    same(ctx, printed(ctx, None, "L a O'.", n), "." * len(w), "O in a loop")
    same(ctx, printed(ctx, None, "{P a}M,a;()", n), "".join(
        [x + "\n" for x in w]), "P in a map")
    same(ctx, printed(ctx, None, "W a>0 {P a;a-:1}", n), "".join(
        [str(n - i) + "\n" for i in range(4) if i < n]), "P in a loop")


def functions(ctx):
    x = ctx.int("x", -BIG, BIG)
    for code in ("{a+1}", "_+1", "{P a}", "{b:5;b}"):
        w = repr(run(code, []))
        for f in FORMATS:
            same(ctx, printed(ctx, f, code), w + "\n", "a function's text")
            same(ctx, printed(ctx, f, f"[{code}]"),
                 (f"[{w}]" if f == "p" else w) + "\n", "in a list")


def reprs(ctx):
    s = ctx.choice("s", ("[t,i]", "[n,[t]]", "[[],t,[i,[t]]]", "[t,p]",
                         "[e,r]"))
    v = Maker(ctx, False, symbolic(ctx, s, "p")).make(s)
    w = py(run("RP a", [v]))
    same(ctx, printed(ctx, "p", "a", v), w + "\n", "-p prints the repr")
    same(ctx, printed(ctx, "P", "a", v),
         join("\n", [py(run("RP a", [x])) for x in v]) + "\n",
         "-P prints the repr of every item")
    for f in FORMATS:
        same(ctx, printed(ctx, f, "RP a", v), w + "\n", "RP")
    for f in FORMATS:
        printed(ctx, f, "a", v)
        same(ctx, py(run("RP a", [v], state(False, f))), w, "RP")


def endless(ctx):
    x = ctx.int("x", -BIG, BIG)
    for f in FORMATS:
        same(ctx, printed(ctx, f, "a,()", x), f"({x},())\n", "endless range")
        same(ctx, printed(ctx, f, "O\\,();()", x), "(1,())",
             "endless range")


def lines(ctx):
    """Joining on lines is what splitting into lines undoes."""
    xs = [ctx.string(f"x{i}", 2, alpha("ab\t \r\u2028[;")) for i in range(3)]
    t = printed(ctx, "n", "a", xs)
    same(ctx, py(run("a^n", [t[:-1]])), xs, "-n")
    t = printed(ctx, "l", "a", [xs, xs])
    same(ctx, t, (xs[0] + xs[1] + xs[2] + "\n") * 2, "-l")


KINDS = ("t", "i", "n", "[t,i]", "[[i],t]", "r", "p")


def unary(ctx, op, t):
    x = Maker(ctx, small=True).make(ctx.choice("s", KINDS))
    alike(ctx, f"{op} a", [x])


def binary(ctx, op, t):
    m = Maker(ctx, small=True)
    x = m.make(ctx.choice("s", KINDS))
    y = m.make(ctx.choice("s2", KINDS) if t else ctx.choice(
        "s2", ("i", "[t,i]", "r", "n")))
    if op in ("PU", "PB") and (isinstance(x, (str, int))
                               or isinstance(x, tuple) and x[0] != "range") \
            and isinstance(y, (list, tuple)):
        return      # makes the list a text, like ST
    alike(ctx, f"a {op} b", [x, y])


def alike(ctx, code, args):
    """The value is the same under every format, with and without
    warnings; without, nothing is printed."""
    want = py(run(code, args))
    ctx.check(ctx.output() == "", "no output")
    ctx.check(ctx.errors() == "", "no warnings unless asked for")
    for f in ("p", "s"):
        same(ctx, py(run(code, args, state(False, f))), want,
             f"the value under -{f}")
    same(ctx, py(run(code, args, state(True))), want, "the value under -w")
    ctx.check(ctx.output() == "", "warnings are not output")
