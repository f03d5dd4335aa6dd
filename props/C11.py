"""A range behaves as the list of the integers it stands for."""

BOUNDS = {
    "quick": "ranges of 1-3 items starting anywhere from -2 to 3 (anywhere "
             "for arithmetic, length, items, membership); every unary "
             "operator, every binary operator with the range on either side "
             "of a number, a text, a list or a range; every meta-operator "
             "with 24 operators; every higher-order operator",
    "thorough": "ranges of 0-5 items",
}

UN = ("! V FI FN FU FX FJ \\! ST MX M MN N RC SH SN SS DN DS UQ EN PM FL FA "
      "PO DQ ^ <> CH J RV R RF PZ QR QP Z H S WV UW CG ZG OG TD FD . "
      "|| |> <| TM LC UC SC TC IC , \\, TB BN RD BL |< >| RZ RN + - % HV HU "
      "DB SQ U D # A AB SG FB @ @< @> ++ --").split()
# the value shows which kind of iterable it was: a range stays a range in
# these when a list would give something else
ADDMUL = "+ - * % // < > = <= >= != AD BA BO BX".split()
BIN = ("| & \\| \\& < > = <= >= != #= #< #> N NI CB AE AL "
       "PE PU PB PK ^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP CG ZG OG TD "
       "FD WR . RM DC X || |> <| TM , \\, TB BA BO BX CM |< >| RZ RN + - AD "
       "* % // ** FB @ @< @>").split()
# a range next to these is not a list (a range index is a slice; a range of
# characters to trim is not a list of texts)
LEFT_ONLY = ("@", "||", "|>", "<|", "TM")
# with another iterable these compare whole values, which tell types apart,
# or (+ -) make a range of each item
SCALARS = ("RM", "||", "|>", "<|", "TM", "+", "-")
# a range finds any number or text that is a number in it
NUMBERS = ("N", "NI", "@?", "@*")
HO = ("{aAEa}M_ {aAEa}MJ_ {aAEb}ME_ {a}MM[_] {aAEb}MP_ {a}MS_ {a}MU[_] "
      "{[a;a]}MF_ {a%2}FI_ {a%2}FN_ {a}FE_ {a>b}FX_ {a%2}FJ_ {-a}SK_ {-a}DK_ "
      "{aAEb}MZ_~_").split()


def units(tier):
    t = tier == "thorough"
    n = 5 if t else 3
    us = []
    for op in UN:
        us.append((f"unary {op}", "unary", {"op": op, "n": n}))
    for op in BIN:
        us.append((f"binary {op}", "binary", {"op": op, "n": n},
                   {"weight": 2}))
    for op in ("R", "RA", "TR", "?", "\\?", "MR", "MZ"):
        us.append((f"ternary {op}", "ternary", {"op": op, "n": n}))
    for op in ADDMUL:
        us.append((f"arithmetic {op}", "arith", {"op": op}))
    for m in ("$", "\\$"):
        for op in METAS:
            us.append((f"meta {m} {op}", "meta", {"m": m, "n": n, "op": op}))
    us.append(("meta map", "metamap", {"n": n}, {"weight": 3}))
    us.append(("higher order", "higher", {"n": n}))
    us.append(("statements", "statements", {"n": n}))
    us.append(("length and items", "basic", {}))
    us.append(("comparing ranges", "compare", {}))
    for n in range(0, 4):
        us.append((f"comparing a list of {n} with ranges", "mixed", {"n": n},
                   {"weight": 2}))
    us.append(("in", "within", {}))
    us.append(("infinite", "infinite", {}))
    us.append(("output", "output", {"n": n}))
    return us


def both(ctx, n, lo=-2, hi=3):
    k = int(ctx.int("len", 1, n))
    a = int(ctx.int("lo", lo, hi))
    r = R(a, a + k) if a != 0 or not ctx.bool("from nil") else R(None, k)
    return r, L([S(a + j) for j in range(k)])


def shape(v):
    """The value, with ranges written out as lists."""
    return items(v)


def agree(ctx, code, r, l, rest, label):
    w = shape(run(code, [l] + rest))
    ctx.record(w)
    same(ctx, shape(run(code, [r] + rest)), w, label)


def unary(ctx, op, n):
    r, l = both(ctx, n, 0 if op in ("CG", "ZG", "OG", "A") else -2)
    if op == "RC":
        v = val("RC a", r)
        ctx.check(1 <= len([x for x in py(l) if x == v]),
                  "RC of a range is one of its items")
        return
    agree(ctx, f"x:a;y:({op} x);[y x]" if op != "SH" else "#SHa",
          r, l, [], f"{op} of a range")


def others(ctx):
    return ctx.choice("other", (
        2, "1a", [1, 2], [0], ("range", 0, 2), [[1], 3], None, ""))


def binary(ctx, op, n):
    r, l = both(ctx, n, 0 if op in ("CG", "ZG", "OG", "**", "//", "%", "TB")
                else -2)
    o = pip(others(ctx) if op not in SCALARS + NUMBERS
            else ctx.choice("other", (2, "1a", "")) if op not in NUMBERS
            else ctx.int("other", -4, 9))
    if op in ("PU", "PB", "PK"):
        code = f"x:a;y:b;z:(x {op} y);[z x y]"
    else:
        code = f"(a {op} b)"
    agree(ctx, code, r, l, [o], f"a range on the left of {op}")
    if op in LEFT_ONLY:
        return
    code = f"(b {op} a)" if op not in ("PU", "PB", "PK") else \
        f"x:a;y:b;z:(y {op} x);[z y x]"
    agree(ctx, code, r, l, [o], f"a range on the right of {op}")


def ternary(ctx, op, n):
    r, l = both(ctx, n)
    agree(ctx, f"(a {op} b c)", r, l, [pip(1), pip(7)], f"a range in {op}")


def arith(ctx, op):
    lo = ctx.int("lo")
    k = int(ctx.int("len", 1, 3))
    r = R(lo, lo + k)
    l = L([S(lo + j) for j in range(k)])
    v = ctx.choice("v", (1, 2, 7)) \
        if op in ("%", "//", "BA", "BO", "BX", "*") else ctx.int("v")
    agree(ctx, f"(a {op} b)", r, l, [S(v)], f"a range {op} a number")
    if op not in ("%", "//", "BA", "BO", "BX"):
        agree(ctx, f"(b {op} a)", r, l, [S(v)], f"a number {op} a range")
        if op not in "+-":
            agree(ctx, f"(a {op} b)", r, l, [pip([v, v])],
                  f"a range {op} a list")


METAS = ("+ - * . AE PE AL J < = LT #= BA BX AD X RL Z CP | & @ || , "
         "CM").split()


def meta(ctx, m, n, op):
    r, l = both(ctx, n, 0 if op in ("BA", "BX") else -2)
    agree(ctx, f"({m}{op} a)", r, l, [], f"{m}{op} of a range")


def metamap(ctx, n):
    r, l = both(ctx, n)
    op = ctx.choice("op", "- + # , . RV SQ HV ! A ST PZ @".split())
    agree(ctx, f"({op} *a)", r, l, [], f"{op}* of a range")


def higher(ctx, n):
    r, l = both(ctx, n)
    h = ctx.choice("op", HO)
    agree(ctx, "(" + h.replace("~", " ").replace("_", "a") + ")", r, l, [],
          f"{h} over a range")


def statements(ctx, n):
    r, l = both(ctx, n)
    code = ctx.choice("code", (
        "x:0;F z a{x:xAEz};x", "x:a;xPB5;xPU6;x", "x:[];W#a{xPBPOa};x",
        "x:a;x@0:9;x", "[x y]:a;[x y]", "x:0;I a{x:1};x", "L#a{z:1};#a",
        "x:0;F z,#a{x:xAE(a@z)};x"))
    agree(ctx, code, r, l, [], "a range in " + code)


def basic(ctx):
    lo = ctx.int("lo")
    hi = ctx.int("hi")
    i = ctx.int("i", 0)
    n = hi - lo
    r = R(lo, hi)
    same(ctx, val("#a", r), n if n > 0 else 0, "length of a range")
    same(ctx, val("a?1 0", r), 1 if n > 0 else 0, "an empty range is false")
    if i < n:
        same(ctx, val("a@b", r, i), lo + i, "item of a range")
        same(ctx, val("b Na", r, lo + i), 1, "the items are in the range")
        same(ctx, val("a@?b", r, lo + i), i, "where an item is")
    same(ctx, py(run("a,b", [lo, hi])), ("range", lo, hi), ", makes a range")
    same(ctx, py(run("a\\,b", [lo, hi])), ("range", lo, hi + 1),
         "\\, makes a range with the end")
    same(ctx, py(run(",b", [lo, hi])), ("range", 0, hi), "unary ,")
    same(ctx, py(run("\\,b", [lo, hi])), ("range", 1, hi + 1), "unary \\,")
    same(ctx, py(run("a,()", [lo])), ("range", lo, None), "infinite range")
    same(ctx, py(run("a\\,()", [lo])), ("range", lo, None), "infinite range")


def lexless(p, q, a, b):
    """Whether p..q-1 comes before a..b-1 as lists, neither being empty."""
    return p < a or (p == a and q < b)


def compare(ctx):
    p = ctx.int("p")
    q = ctx.int("q")
    a = ctx.int("a")
    b = ctx.int("b")
    ctx.assume(p < q)
    ctx.assume(a < b)
    x, y = R(p, q), R(a, b)
    if p == 0 and ctx.bool("from nil"):
        x = R(None, q)
    less = lexless(p, q, a, b)
    more = lexless(a, b, p, q)
    for op, w in (("<", less), (">", more), ("<=", not more),
                  (">=", not less), ("=", not less and not more),
                  ("!=", less or more)):
        same(ctx, val(f"(a {op} b)", x, y), 1 if w else 0,
             f"ranges compare as lists: {op}")


def mixed(ctx, n):
    """A list against a range, also an infinite one."""
    lo = ctx.int("lo")
    k = int(ctx.int("len", 0, 4))
    x = [ctx.int(f"x{i}") for i in range(n)]
    r = R(lo, lo + k) if k < 4 else R(lo, None)
    less = more = False
    i = 0
    while True:
        if i == n or (k < 4 and i == k):
            less = i == n and not (k < 4 and i == k)
            more = i < n
            break
        if x[i] != lo + i:
            less = x[i] < lo + i
            more = not less
            break
        i += 1
    for op, w in (("<", less), (">", more), ("<=", not more),
                  (">=", not less), ("=", not less and not more),
                  ("!=", less or more)):
        same(ctx, val(f"(a {op} b)", pip(x), r), 1 if w else 0,
             f"a list against a range: {op}")
    for op, w in ((">", less), ("<", more), (">=", not more),
                  ("<=", not less), ("=", not less and not more),
                  ("!=", less or more)):
        same(ctx, val(f"(b {op} a)", pip(x), r), 1 if w else 0,
             f"a range against a list: {op}")


def within(ctx):
    lo = ctx.int("lo")
    hi = ctx.int("hi")
    v = ctx.int("v")
    w = 1 if lo <= v and v < hi else 0
    same(ctx, val("b Na", R(lo, hi), v), w, "integers in a range")
    same(ctx, val("b NIa", R(lo, hi), v), 1 - w, "integers not in a range")
    same(ctx, val("a@?b", R(lo, hi), v), v - lo if w else None,
         "where an integer is in a range")
    same(ctx, val("b Na", R(lo, None), v), 1 if lo <= v else 0,
         "integers in an infinite range")
    same(ctx, val("a@?b", R(lo, None), v), v - lo if lo <= v else None,
         "where an integer is in an infinite range")


def infinite(ctx):
    lo = ctx.int("lo")
    v = ctx.int("v")
    r = R(lo, None)
    for code, w in (("a+b", lo + v), ("b+a", lo + v), ("a-b", lo - v)):
        same(ctx, py(run(code, [r, v])), ("range", w, None),
             f"{code} of an infinite range is infinite")
    same(ctx, py(run("#a", [r])) is None
         or int(run("#a", [r])) is None, 1,
         "an infinite range has no length")
    same(ctx, items(run("aZ[b b]", [r, v])),
         [[str(lo), str(v)], [str(lo + 1), str(v)]],
         "zipping an infinite range stops with the other list")
    same(ctx, items(run("a@(,3)", [r])), [str(lo + k) for k in range(3)],
         "the first items of an infinite range")
    w = R(v, None)
    for op, e in (("=", lo == v), ("!=", lo != v), ("<", lo < v),
                  (">", lo > v), ("<=", lo <= v), (">=", lo >= v)):
        same(ctx, val(f"(a {op} b)", r, w), 1 if e else 0,
             f"infinite ranges compare by their start: {op}")
    f = R(v, v + 3)
    for op, e in (("=", False), ("!=", True), ("<", lo < v),
                  (">", lo >= v), ("<=", lo < v), (">=", lo >= v)):
        same(ctx, val(f"(a {op} b)", r, f), 1 if e else 0,
             f"an infinite range is longer than any other: {op}")


def output(ctx, n):
    r, l = both(ctx, n)
    for f in (None, "n", "s", "l", "S"):
        W.ptypes.List.outFormat = f
        same(ctx, str(r), str(l), f"a range is printed as a list ({f})")
    W.ptypes.List.outFormat = None
