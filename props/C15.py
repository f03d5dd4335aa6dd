"""Meta-operators: $ folds, \\$ scans, * maps an operator over items."""

BOUNDS = {
    "quick": "75 binary operators folded and scanned over lists of up to 3 "
             "items (4 for arithmetic on all integers), 30 unary operators "
             "mapped over lists of up to 3 items; texts of up to 3 digits, "
             "every finite range of up to 3 items",
    "thorough": "lists of up to 4 items (5 for arithmetic)",
}
BOUNDS["quick"] += ("; folds and scans of up to 9 items with one arbitrary item")

# (operator, what a fold of nothing gives), by associativity
LEFT = (("+", 0), ("-", 0), ("AD", 0), ("*", 1), ("/", 1), ("%", 0),
        ("//", 1), ("BA", -1), ("BO", 0), ("BX", 0), ("AT", None), ("CM", 0),
        ("|<", 0), (">|", 0), ("RZ", 0), ("RN", 0), ("|", 0), ("&", 1),
        ("==", 1), ("\\|", 0), ("\\&", 1), ("N", None), ("NI", None),
        ("CB", []), ("AE", []), ("AL", []), ("PE", []), ("^", []),
        ("^@", []), ("@?", None), ("@*", []), ("<>", []), ("CH", []),
        ("J", ""), ("JW", None), ("RL", []), ("Z", []), ("ZD", []),
        ("ZJ", []), ("H", []), ("S", []), ("WV", []), ("UW", []),
        ("CP", []), ("CG", None), ("ZG", None), ("OG", None), ("TD", []),
        ("FD", 0), ("WR", ""), ("~", ""), (".", ""), ("RM", ""), ("DC", ""),
        ("X", ""), ("||", ""), ("|>", ""), ("<|", ""), ("TM", ""),
        (",", None), ("\\,", None), ("TB", 0), ("FB", 0), ("@", None),
        ("@<", None), ("@>", None))
RIGHT = (("**", 1), ("E", 1), ("EE", 1), ("RT", 1))
CHAIN = ("<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE", "NE",
         "#=", "#<", "#>", "~=")
INTS = ("+", "-", "AD", "*", "|<", "CM")
UNARY = ("+", "-", "!", "#", "RV", "UQ", "SN", "SS", "MX", "MN", "J", "^",
         "A", "LC", "UC", "DB", "SQ", "AB", "SG", "HV", "EN", "PZ", "RF",
         "Z", "CP", "FL", "FA", ",", "TD", "\\!")


def units(tier):
    t = tier == "thorough"
    us = []
    for op, d in LEFT + RIGHT:
        us.append((f"fold {op} of nothing", "empty", {"op": op, "d": d}))
    for op in CHAIN:
        us.append((f"fold {op} of nothing", "empty", {"op": op, "d": 1}))
    for kind, ops in (("L", LEFT), ("R", RIGHT)):
        for op, d in ops:
            for n in range(1, 5 if t else 4):
                us.append((f"fold {op} n={n}", "fold",
                           {"op": op, "kind": kind, "n": n},
                           {"weight": n}))
    for op in INTS:
        for n in range(1, 6 if t else 5):
            us.append((f"fold integers {op} n={n}", "fold_ints",
                       {"op": op, "n": n}))
    for op in CHAIN:
        for n in range(1, 5 if t else 4):
            us.append((f"fold {op} n={n}", "fold_chain",
                       {"op": op, "n": n}, {"weight": n}))
    for op in UNARY:
        for n in range(4):
            us.append((f"map {op} n={n}", "mapping", {"op": op, "n": n}))
    for n in range(4):
        us.append((f"texts n={n}", "over_text", {"n": n}))
        us.append((f"ranges n={n}", "over_range", {"n": n}))
        us.append((f"combined n={n}", "combined", {"n": n}))
    for op in CHAIN:
        us.append((f"long fold {op}", "long_chain", {"op": op}))
    for op in ("+", "-", "*", "AD", "MX", ".", "AL", "**", "|<", "^", "J"):
        us.append((f"long fold {op}", "long_fold", {"op": op}))
    for op in UNARY:
        us.append((f"map {op} of values that print alike", "alike",
                   {"op": op}))
    us.append(("nothing to go over", "not_iterable", {}))
    us.append(("precedence", "precedence", {}))
    return us


def empty(ctx, op, d):
    e = ctx.choice("e", ([], "", ("range", 3, 3), ("range", 5, 2)))
    same(ctx, val(f"$ {op}a", e), d, f"fold of nothing with {op}")
    same(ctx, val(f"\\$ {op}a", e), [], f"scan of nothing with {op}")


def element(ctx, name, op):
    if op in ("**", "E", "EE", "RT"):
        return ctx.choice(name, (0, 1, 2))
    if op in (",", "\\,", "CG", "ZG", "OG", "CP", "CB", "X", "RL", "TB",
              "FB", "/", "AT", "TM"):
        return ctx.choice(name, ("1", "2", "b"))
    if op in ("|<", ">|", "RZ", "RN", "//", "%", "BA", "BO", "BX"):
        return ctx.choice(name, ("4", "3", "-2", "0"))
    if op in ("@?", "@*", "N", "NI", "~", "CM", "H", "S"):
        return ctx.string(name, 1, alpha("01a"))
    return ctx.choice(name, ("0", "12", ["a", "1"]))


def steps(xs, op, kind):
    """The successive values of a fold."""
    if kind == "L":
        acc = pip(xs[0])
        out = [acc]
        for x in xs[1:]:
            acc = run(f"a{op}b", [acc, x])
            out.append(acc)
        return out
    acc = pip(xs[-1])
    out = [acc]
    for x in xs[-2::-1]:
        acc = run(f"a{op}b", [x, acc])
        out.append(acc)
    return out


def fold(ctx, op, kind, n):
    xs = [element(ctx, f"x{i}", op) for i in range(n)]
    want = steps(xs, op, kind)
    same(ctx, items(run(f"$ {op}a", [pip(xs)])), items(want[-1]),
         f"fold with {op}")
    if kind == "R":
        want.reverse()
    same(ctx, items(run(f"\\$ {op}a", [pip(xs)])),
         [items(w) for w in want], f"scan with {op}")


def fold_ints(ctx, op, n):
    xs = [ctx.int(f"x{i}") for i in range(n - 1)]
    xs.append(ctx.int("y") if op != "*" or n < 3 else ctx.choice("y", (0, 7)))
    if op == "*" and n > 2:
        xs = [xs[0]] + [ctx.choice(f"k{i}", (-1, 3)) for i in range(n - 2)] \
            + [xs[-1]]
    if op == "|<":
        xs = [xs[0]] + [ctx.choice(f"k{i}", (2, 3, 10))
                        for i in range(n - 1)]
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y,
         "AD": lambda x, y: abs(x - y), "*": lambda x, y: x * y,
         "|<": lambda x, y: x // y * y,
         "CM": lambda x, y: (x > y) - (x < y)}[op]
    acc = xs[0]
    out = [str(acc)]
    for x in xs[1:]:
        acc = f(acc, x)
        out.append(str(acc))
    same(ctx, val(f"${op}a", xs), acc, f"fold with {op}")
    same(ctx, val(f"\\${op}a", xs), out, f"scan with {op}")


def fold_chain(ctx, op, n):
    xs = [ctx.string(f"x{i}", ctx.choice(f"n{i}", (0, 1)) if op[0] == "#"
                     else 1, alpha("01a")) for i in range(n)]
    ok = 1
    out = ["1"]
    for x, y in zip(xs, xs[1:]):
        ok = 1 if ok == 1 and val(f"a{op}b", x, y) == "1" else 0
        out.append(str(ok))
    same(ctx, val(f"${op}a", xs), ok, f"fold with {op}: every link holds")
    same(ctx, val(f"\\${op}a", xs), out, f"scan with {op}")


def long_chain(ctx, op):
    """Seven items of which one may be anything."""
    i = int(ctx.int("i", 0, 6))
    up = op in ("<", "<=", "!=", "LT", "LE", "NE", "#<")
    flat = op in ("=", "Q", "#=", "~=")
    xs = ["1" if flat else k + 1 if up else 9 - k for k in range(7)]
    xs[i] = ctx.choice("x", (1, 4, 8, 0)) if op[0] != "#" else \
        ctx.choice("x", ("", "ab", "a"))
    if op[0] == "#":
        xs = [x if k == i or flat else "abcdefghi"[:x]
              for k, x in enumerate(xs)]
    ok = 1
    out = ["1"]
    for x, y in zip(xs, xs[1:]):
        ok = 1 if ok == 1 and val(f"a{op}b", x, y) == "1" else 0
        out.append(str(ok))
    same(ctx, val(f"${op}a", xs), ok, f"long fold with {op}")
    same(ctx, val(f"\\${op}a", xs), out, f"long scan with {op}")


def long_fold(ctx, op):
    if op == "MX":
        op = "CM"
    i = int(ctx.int("i", 0, 7))
    xs = [2, 1, 1, 2, 1, 1, 2, 1]
    xs[i] = ctx.int("x") if op in ("+", "-", "*", "AD") else \
        ctx.choice("x", (1, 2, 3))
    if op == "**":
        ctx.assume(i > 4 or xs[i] < 3)
    want = steps(xs, op, "R" if op == "**" else "L")
    same(ctx, items(run(f"$ {op}a", [pip(xs)])), items(want[-1]),
         f"long fold with {op}")
    if op == "**":
        want.reverse()
    same(ctx, items(run(f"\\$ {op}a", [pip(xs)])),
         [items(w) for w in want], f"long scan with {op}")


def mapping(ctx, op, n):
    xs = []
    for i in range(n):
        k = ctx.choice(f"k{i}", (0, 1, 2))
        xs.append(ctx.string(f"x{i}", 1, alpha("09aB")) if k == 0 else
                  ctx.choice(f"v{i}", ("12", "")) if k == 1 else
                  [ctx.choice(f"w{i}", ("1", "b")), "3", "3"])
        if i > 0 and k == 0:
            ctx.assume(False)
    if op == ",":
        xs = [ctx.choice(f"m{i}", (0, 2)) for i in range(n)]
    same(ctx, items(run(f"{op} *a", [pip(xs)])),
         [items(run(f"{op}a", [x])) for x in xs],
         f"{op} mapped over a list")


ALIKE = ("12", [1, 2], [[1], 2], ["12"], ("range", 1, 3), [], "", None, [""])


def alike(ctx, op):
    xs = [ctx.choice(f"x{i}", ALIKE) for i in range(2)] + ["12"]
    if op == ",":
        xs = [x for x in xs if not isinstance(x, tuple) and x != "12"]
    same(ctx, items(run(f"{op} *a", [pip(xs)])),
         [items(run(f"{op}a", [x])) for x in xs],
         f"{op} mapped over values that print alike")


def over_text(ctx, n):
    s = ctx.string("s", n, alpha("0123456789"))
    ds = [int(c) for c in s]
    same(ctx, val("$+a", s), sum(ds), "sum of the digits of a text")
    same(ctx, val("\\$+a", s), [str(sum(ds[:i + 1])) for i in range(n)],
         "running sums of the digits of a text")
    same(ctx, val("DB*a", s), [str(2 * d) for d in ds], "DB of each digit")
    u = ctx.string("u", n, FULL)
    same(ctx, val("$.a", u), u, "joining the characters of a text")
    same(ctx, val("#*a", u), ["1"] * n, "# of each character")
    same(ctx, val("\\$.a", u), [u[:i + 1] for i in range(n)],
         "the beginnings of a text")


def over_range(ctx, n):
    lo = ctx.int("lo")
    r = R(lo, lo + n)
    xs = [lo + i for i in range(n)]
    same(ctx, val("$+a", r), sum(xs), "sum of a range")
    same(ctx, val("\\$+a", r), [str(sum(xs[:i + 1])) for i in range(n)],
         "running sums of a range")
    same(ctx, val("$-a", r),
         xs[0] - sum(xs[1:]) if n else 0, "difference of a range")
    same(ctx, val("-*a", r), [str(-x) for x in xs], "- of each of a range")
    same(ctx, val("$<a", r), 1, "a range ascends")
    same(ctx, val("$>a", r), 1 if n < 2 else 0, "a range does not descend")


def combined(ctx, n):
    xs = [ctx.int(f"x{i}") for i in range(n)]
    ys = [ctx.int(f"y{i}", 0, 9) for i in range(n)]
    for x in xs[1:]:
        ctx.assume(x >= 0)
    v = [xs, ys]
    t = sum(xs) + sum(ys)
    same(ctx, val("$+*a", v), [str(sum(xs)), str(sum(ys))],
         "the sum of each")
    same(ctx, val("$+$+*a", v), t, "the sum of the sums")
    same(ctx, val("$+$+a", v), t, "the sum of the itemwise sums")
    same(ctx, val("-*-*a", xs), [str(x) for x in xs], "- mapped twice")
    same(ctx, val("$+(-*a)", xs), -sum(xs), "the sum of the negatives")
    same(ctx, val("($+a)-$+b", xs, ys), sum(xs) - sum(ys),
         "the difference of two sums")
    same(ctx, val("\\$+*a", v),
         [[str(sum(xs[:i + 1])) for i in range(n)],
          [str(sum(ys[:i + 1])) for i in range(n)]], "the scan of each")
    same(ctx, val("x:a;x:$+x;x", xs), sum(xs), "sum of a variable")


def not_iterable(ctx):
    for code in ("$+a", "\\$+a", "-*a", "$<a"):
        same(ctx, val(code, None), None, f"{code} of nil")
        same(ctx, val(code, P("ab")), None, f"{code} of a pattern")
    lo = ctx.int("lo")
    same(ctx, val("$+a", R(lo, None)), None, "fold of an infinite range")
    same(ctx, val("\\$+a", R(lo, None)), None, "scan of an infinite range")


def precedence(ctx):
    """A meta-operator binds like a unary operator of its level."""
    xs = [ctx.int(f"x{i}") for i in range(3)]
    y = ctx.int("y")
    s = sum(xs)
    for code, w in (("b+$+a", y + s), ("b-$-a", y - (xs[0] - xs[1] - xs[2])),
                    ("#\\$+a", 3), ("$+-a", -s), ("-$+a", -s),
                    ("$+(a+b)", s + 3 * y), ("($+a)+b", s + y)):
        same(ctx, val(code, xs, y), w, code)
