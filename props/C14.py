"""Itemwise operators: on lists they work item by item, at every depth."""

BOUNDS = {
    "quick": "67 itemwise operators; lists of up to 2 items (3 for 5 of "
             "them) against scalars and each other, nested lists to depth 3; "
             "items: integers -9 to 30 for arithmetic, texts of 1 character "
             "for text operators, given numbers for float functions",
    "thorough": "lists of up to 4 items for all",
}
BOUNDS["quick"] += ("; lists of 9 items with one arbitrary item for + . -")

ARITH2 = ("+", "-", "AD", "*", "//", "%", "BA", "BO", "BX", "|<", ">|",
          "RZ", "RN", ",", "\\,")
ARITH1 = ("+", "-", "%", "HV", "HU", "DB", "SQ", "BN", "BL", "|<", ">|",
          "RZ", "RN", "AB", "SG", ",", "\\,", "TB", "C", "EY", "CG", "ZG",
          "OG", "EE", "E", "**")
TEXT2 = (".", "WR", "DC", "||", "|>", "<|", "~")
TEXT1 = ("LC", "UC", "SC", "TC", "IC", "||", "|>", "<|", "TM", "A", ".", "K",
         "^", "FB")
FLOAT2 = ("/", "**", "E", "EE", "RT", "AT")
FLOAT1 = ("/", "SI", "CO", "TA", "AT", "RD", "DG", "RT", "EX", "LN", "LB",
          "LD")
MIXED = ("X", "TM", "TB", "FB", "^", "CG", "ZG", "OG")

# binary operators whose right operand is taken whole when it is a list (or
# whose left one is) are not itemwise in that operand
ONE_SIDED = {}


def units(tier):
    t = tier == "thorough"
    us = []
    for kind, ops in (("number", ARITH2), ("text", TEXT2),
                      ("float", FLOAT2), ("mixed", MIXED)):
        for op in ops:
            m = 4 if t else 3 if op in ("+", "/", ".", "DB", "LC") else 2
            for n in range(m + 1):
                w = {"weight": 1 + 2 * n}
                us.append((f"{op} list of {n}, scalar", "list_scalar",
                           {"op": op, "n": n, "kind": kind}, w))
                for k in range(m + 1):
                    if n + k <= (5 if t else 3):
                        us.append((f"{op} lists of {n} and {k}", "two_lists",
                                   {"op": op, "n": n, "k": k, "kind": kind},
                                   w))
            us.append((f"{op} nested", "nested2", {"op": op, "kind": kind}))
    for op in (".", "+", "MX" if "MX" in ARITH2 else "-"):
        for n, k in ((7, 5), (5, 8)):
            us.append((f"{op} long lists of {n} and {k}", "two_long",
                       {"op": op, "n": n, "k": k}))
    for kind, ops in (("number", ARITH1), ("text", TEXT1),
                      ("float", FLOAT1)):
        for op in ops:
            m = 4 if t else 3 if op in ("+", "/", ".", "DB", "LC") else 2
            for n in range(m + 1):
                us.append((f"{op} of {n}", "unary",
                           {"op": op, "n": n, "kind": kind}))
            us.append((f"{op} of nested", "nested1",
                       {"op": op, "kind": kind}))
    for op in ARITH2[2:-2] + (".", "**", "/"):
        for n in range(3):
            us.append((f"{op} list of {n}, range", "with_range",
                       {"op": op, "n": n}))
    us.append(("not itemwise", "whole", {}))
    return us


NUMBERS = (0, 1, 2, "0.5", -3, "x")


SMALL = (",", "\\,", "EY", "CG", "ZG", "OG", "EE", "E", "**")


def item(ctx, name, kind, op=""):
    if op in SMALL:
        return ctx.choice(name, (-1, 0, 2) if name == "x0" else (0, 2))
    if kind == "number":
        return ctx.choice(name + "v", (0, 3)) if name in ("s", "t") \
            else ctx.int(name, -9, 30) if name == "x0" else \
            ctx.int(name, 0, 3)
    if kind == "text":
        return ctx.string(name, 1, alpha("aB9 "))
    if kind == "mixed":
        return ctx.choice(name, (0, 1, "2", "b", "1a1"))
    return ctx.choice(name, NUMBERS[:4] if name[1:] not in ("", "0")
                      else NUMBERS)


def one(op, x):
    return run(f"{op}a", [x])


def two(op, x, y):
    return run(f"a{op}b", [x, y])


def unary(ctx, op, n, kind):
    xs = [item(ctx, f"x{i}", kind, op) for i in range(n)]
    same(ctx, items(run(f"{op}a", [pip(xs)])), [items(one(op, x))
                                                 for x in xs],
         f"{op} of a list is the list of its results")


def nested1(ctx, op, kind):
    x, y, z = [item(ctx, c, kind, op) for c in ("x0", "y1", "z1")]
    v = pip([[x, [y]], [], z, [[z]]])
    f = lambda u: items(one(op, u))
    same(ctx, items(run(f"{op}a", [v])),
         [[f(x), [f(y)]], [], f(z), [[f(z)]]], f"{op} of nested lists")


def list_scalar(ctx, op, n, kind):
    xs = [item(ctx, f"x{i}", kind, op) for i in range(n)]
    s = item(ctx, "s", kind, op)
    same(ctx, items(run(f"a{op}b", [pip(xs), s])),
         [items(two(op, x, s)) for x in xs], f"list {op} scalar")
    same(ctx, items(run(f"a{op}b", [s, pip(xs)])),
         [items(two(op, s, x)) for x in xs], f"scalar {op} list")


def two_lists(ctx, op, n, k, kind):
    xs = [item(ctx, f"x{i}", kind, op) for i in range(n)]
    ys = [item(ctx, f"y{i}", kind, op) for i in range(k)]
    want = [items(two(op, x, y)) for x, y in zip(xs, ys)]
    want += [items(pip(x)) for x in xs[k:]] + [items(pip(y))
                                               for y in ys[n:]]
    same(ctx, items(run(f"a{op}b", [pip(xs), pip(ys)])), want,
         f"{op} of two lists: pairs, the rest unchanged")


def with_range(ctx, op, n):
    xs = [ctx.int("x0", 2, 9), 3][:n]
    k = ctx.choice("k", (0, 1, 2, 4))
    lo = ctx.choice("lo", (0, 2))
    r = R(lo, lo + k)
    ys = [str(lo + i) for i in range(k)]
    for left in (True, False):
        want = [items(two(op, x, y) if left else two(op, y, x))
                for x, y in zip(xs, ys)]
        want += [items(pip(x)) for x in xs[k:]] + ys[n:]
        got = run(f"a{op}b", [pip(xs), r] if left else [r, pip(xs)])
        same(ctx, items(got), want, f"a list {op} a range" if left else
             f"a range {op} a list")


def two_long(ctx, op, n, k):
    xs = [str(2 * i) for i in range(n)]
    ys = [str(i + 7) for i in range(k)]
    i = int(ctx.int("i", 0, max(n, k) - 1))
    zs = xs if i < n else ys
    zs[i] = ctx.int("x", -99, 99)
    want = [items(two(op, x, y)) for x, y in zip(xs, ys)]
    want += [items(pip(x)) for x in xs[k:]] + [items(pip(y))
                                               for y in ys[n:]]
    same(ctx, items(run(f"a{op}b", [pip(xs), pip(ys)])), want,
         f"{op} of two long lists")
    same(ctx, items(run(f"a{op}b", [pip(xs), "5"])),
         [items(two(op, x, "5")) for x in xs], f"{op} of a long list")


def nested2(ctx, op, kind):
    x, y, z = [item(ctx, c, kind, op) for c in ("x0", "y1", "z1")]
    f = lambda u, v: items(two(op, u, v))
    g = lambda u: items(pip(u))
    same(ctx, items(run(f"a{op}b", [pip([[x, y], z, []]), pip(z)])),
         [[f(x, z), f(y, z)], f(z, z), []], f"nested {op} scalar")
    same(ctx, items(run(f"a{op}b", [z, pip([[[x]], y])])),
         [[[f(z, x)]], f(z, y)], f"scalar {op} nested")
    same(ctx, items(run(f"a{op}b", [pip([[x, y], z]), pip([z, [x, y]])])),
         [[f(x, z), f(y, z)], [f(z, x), f(z, y)]],
         f"nested {op} nested, crosswise")
    same(ctx, items(run(f"a{op}b", [pip([[x, y], z]),
                                     pip([[z], y, [x]])])),
         [[f(x, z), g(y)], f(z, y), [g(x)]], f"nested {op} nested")


def whole(ctx):
    """Operators that look at a list as a whole do not broadcast."""
    x, y = ctx.int("x", 0, 9), ctx.int("y", 0, 9)
    v = pip([x, y])
    same(ctx, val("#a", v), 2, "# of a list")
    same(ctx, val("RVa", v), [str(y), str(x)], "RV of a list")
    same(ctx, val("!a", v), 0, "! of a list")
    same(ctx, val("a=b", v, pip([x, y])), 1, "= of lists")
    same(ctx, val("J a", v), str(x) + str(y), "J of a list")
    same(ctx, val("MXa", v), max(x, y), "MX of a list")
