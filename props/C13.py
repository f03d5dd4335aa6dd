"""Comparisons: orders by number, by text, by length; chains."""

BOUNDS = {
    "quick": "every pair of integers; decimal texts of 2+1 digits; texts of "
             "up to 3 characters over all of Unicode; lists of up to 3 items "
             "(integers or texts of 1 character), nested lists of 2+2; "
             "chains of up to 4 operands over 13 operators",
    "thorough": "texts of up to 4 characters, lists of up to 4 items, "
                "nested lists of 3+3, chains of up to 5 operands",
}
BOUNDS["quick"] += ("; chains of 7 operands and lists of 9 items with one arbitrary "
                    "place")

NUM = ("<", ">", "=", "<=", ">=", "!=")
STR = ("LT", "GT", "Q", "LE", "GE", "NE")
LEN = ("#<", "#>", "#=")


def units(tier):
    t = tier == "thorough"
    us = [("integers", "integers", {}), ("texts as numbers", "texts", {}),
          ("decimals", "decimals", {}), ("lengths", "lengths", {})]
    m = 4 if t else 3
    for n in range(m + 1):
        for k in range(m + 1):
            us.append((f"strings {n},{k}", "strings", {"n": n, "k": k}))
            us.append((f"integer lists {n},{k}", "lists",
                       {"n": n, "k": k, "text": False}, {"weight": 4}))
            us.append((f"text lists {n},{k}", "lists",
                       {"n": n, "k": k, "text": True}, {"weight": 4}))
    for a in SHAPES:
        for b in SHAPES:
            if t or len(a) + len(b) <= 4:
                us.append((f"nested {a},{b}", "nested", {"a": a, "b": b},
                           {"weight": 4}))
    for a in KINDS:
        for b in KINDS:
            if a != b:
                us.append((f"kinds {a},{b}", "kinds", {"a": a, "b": b}))
    for n in range(2, 6 if t else 5):
        us.append((f"chain of {n}", "chain", {"n": n}, {"weight": 6}))
        us.append((f"chain once {n}", "once", {"n": n}))
    for op in NUM + STR + LEN:
        us.append((f"chain {op}", "chain_all", {"op": op}))
    for a in ALIKE:
        us.append((f"alike {a}", "alike", {"a": a}))
    us.append(("identity", "identity", {}))
    for op in NUM + STR:
        us.append((f"long chain {op}", "long_chain", {"op": op}))
    us.append(("items in no order", "no_order", {}))
    for n in (6, 9):
        us.append((f"long lists {n}", "long_lists", {"n": n}))
    for n in range(m + 1):
        us.append((f"same everywhere {n}", "identity_list", {"n": n}))
    return us


def want_num(lt, eq):
    gt = not lt and not eq
    return (lt, gt, eq, lt or eq, gt or eq, not eq)


def compare(ctx, ops, a, b, lt, eq, what):
    gt = (not lt) and (not eq)
    want = (lt, gt, eq, lt or eq, gt or eq, not eq)
    for op, w in zip(ops, want):
        same(ctx, val(f"a{op}b", a, b), 1 if w else 0, f"{op} of {what}")
    same(ctx, val(f"b{ops[0]}a", a, b), 1 if gt else 0,
         f"{ops[0]} of {what}, the other way round")


def integers(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    compare(ctx, NUM, a, b, a < b, a == b, "integers")
    same(ctx, val("aCMb", a, b), (a > b) - (a < b), "CM of integers")


def texts(ctx):
    i = ctx.int("i")
    j = ctx.int("j")
    f, g = ctx.choice("f", (("{}", "\n{}"), (" {}", "{}"), ("{}x", "{}e"),
                            ("{} 9", "{}/2"), ("{}-", "{}")))
    a, b = f.replace("{}", str(i)), g.replace("{}", str(j))
    compare(ctx, NUM, a, b, i < j, i == j, "texts starting with numbers")
    same(ctx, val("aCMb", a, b), (i > j) - (i < j), "CM of texts")
    w = ctx.choice("w", ("", "x", "-", ".", "abc5", "inf", "nan", "+5"))
    compare(ctx, NUM, a, w, i < 0, i == 0, "a text without a number")


def decimals(ctx):
    d = ctx.string("d", 2, alpha("0159"))
    f = ctx.string("f", 1, alpha("0159"))
    neg = ctx.bool("negative")
    i = ctx.int("i", -200, 200)
    x = int(d) * 10 + int(f)
    if neg:
        x = -x
    t = ("-" if neg else "") + d + "." + f
    compare(ctx, NUM, t, i, x < 10 * i, x == 10 * i, "decimal and integer")
    u = ctx.choice("u", ("0.5", "-0.1", "9.9", ".5", "5.", "1e+1", "1.50"))
    y = {"0.5": 5, "-0.1": -1, "9.9": 99, ".5": 5, "5.": 50, "1e+1": 100,
         "1.50": 15}[u]
    compare(ctx, NUM, t, u, x < y, x == y, "decimals")


def strings(ctx, n, k):
    a = ctx.string("a", n, FULL)
    b = ctx.string("b", k, FULL)
    lt = False
    eq = True
    for x, y in zip(a, b):
        if eq and ord(x) != ord(y):
            eq = False
            lt = ord(x) < ord(y)
    if eq:
        lt = n < k
        eq = n == k
    compare(ctx, STR, a, b, lt, eq, "texts")
    same(ctx, val("a==b", a, b), 1 if eq else 0, "== of texts")
    same(ctx, val("[a#<b;a#>b;a#=b]", a, b),
         [str(int(n < k)), str(int(n > k)), str(int(n == k))], "lengths")


def lexi(xs, ys):
    """(less, equal) of two lists compared item by item, then by length."""
    for x, y in zip(xs, ys):
        if isinstance(x, list):
            lt, eq = lexi(x, y)
        else:
            lt, eq = x < y, x == y
        if not eq:
            return lt, False
    return len(xs) < len(ys), len(xs) == len(ys)


def lists(ctx, n, k, text):
    if text:
        xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
        ys = [ctx.string(f"y{i}", 1, FULL) for i in range(k)]
    else:
        xs = [ctx.int(f"x{i}") for i in range(n)]
        ys = [ctx.int(f"y{i}") for i in range(k)]
    lt, eq = lexi(xs, ys)
    compare(ctx, STR if text else NUM, xs, ys, lt, eq, "lists")
    if not text:
        same(ctx, val("aCMb", xs, ys), 0 if eq else -1 if lt else 1,
             "CM of lists")
        zs = [str(y) + "z" for y in ys]
        compare(ctx, NUM, xs, zs, lt, eq, "lists of texts")
    same(ctx, val("a==b", xs, ys), 1 if eq else 0, "== of lists")
    same(ctx, val("[a#<b;a#>b;a#=b]", xs, ys),
         [str(int(n < k)), str(int(n > k)), str(int(n == k))], "lengths")


SHAPES = ((), (1,), (2,), (0, 1), (1, 1), (2, 1), (1, 2), (1, 1, 1))


def nested(ctx, a, b):
    """Lists of lists; `a` and `b` are the lengths of the inner lists."""
    text = ctx.bool("text")
    mk_ = (lambda nm: ctx.string(nm, 1, FULL)) if text else ctx.int
    xs = [[mk_(f"x{i}_{j}") for j in range(n)] for i, n in enumerate(a)]
    ys = [[mk_(f"y{i}_{j}") for j in range(n)] for i, n in enumerate(b)]
    lt, eq = lexi(xs, ys)
    compare(ctx, STR if text else NUM, xs, ys, lt, eq, "nested lists")
    same(ctx, val("a==b", xs, ys), 1 if eq else 0, "== of nested lists")


KINDS = ("text", "list", "empty list", "nil", "pattern", "function")


def thing(ctx, kind, name):
    if kind == "text":
        return ctx.string(name, ctx.choice(name + "n", (0, 1, 2)), FULL)
    if kind == "list":
        return [ctx.string(name, 1, FULL)]
    if kind == "empty list":
        return []
    if kind == "nil":
        return NIL()
    if kind == "pattern":
        return P(ctx.string(name, 1, FULL))
    return run("{a+1}")


def kinds(ctx, a, b):
    """Values of different kinds are unequal and in no order."""
    x, y = pip(thing(ctx, a, "x")), pip(thing(ctx, b, "y"))
    if "list" in a and "list" in b:
        return ctx.check(True, "both are lists")
    want = {"<": 0, ">": 0, "=": 0, "!=": 1, "LT": 0, "GT": 0, "Q": 0,
            "NE": 1, "==": 0, "<=": 0, ">=": 0, "LE": 0, "GE": 0}
    if "pattern" in (a, b) and "text" in (a, b):
        for op in ("Q", "NE", "LE", "GE"):
            del want[op]
    for op, w in want.items():
        if (a == "function" or b == "function") and op != "==":
            continue
        same(ctx, val(f"a{op}b", x, y), w, f"{op} of {a} and {b}")


def rel(op, x, y):
    return {"<": x < y, ">": x > y, "=": x == y, "<=": x <= y,
            ">=": x >= y, "!=": x != y}[op]


def chain(ctx, n):
    """a<b=c>d holds when every link does; any operators together."""
    xs = [ctx.int(f"x{i}") for i in range(n)]
    code = "a"
    ok = True
    for i in range(1, n):
        op = ctx.choice(f"op{i}", ("<", "=", ">=", "!=")
                        if n > 3 else NUM)
        code += op + "abcde"[i]
        ok = ok and rel(op, xs[i - 1], xs[i])
    same(ctx, val(code, *xs), 1 if ok else 0, "chain of comparisons")


def chain_all(ctx, op):
    """The same with every comparison operator, text operators included."""
    x, y, z = [ctx.string(c, ctx.choice(c + "n", (0, 1)), alpha("059ab"))
               for c in "xyz"]
    p = val(f"a{op}b", x, y)
    q = val(f"a{op}b", y, z)
    same(ctx, val(f"a{op}b{op}c", x, y, z),
         1 if p == "1" and q == "1" else 0, f"chain of two {op}")
    r = val("a=b", y, z)
    same(ctx, val(f"a{op}b=c", x, y, z),
         1 if p == "1" and r == "1" else 0, f"chain of {op} and =")
    same(ctx, val(f"a=b{op}c", z, y, x) if op in ("=", "!=") else
         val(f"(a{op}b)&(b=c)", x, y, z),
         1 if p == "1" and r == "1" else 0, "the links joined by &")


def long_chain(ctx, op):
    """Seven operands, of which one may be anything."""
    i = int(ctx.int("i", 0, 6))
    up = op in ("<", "<=", "!=", "LT", "LE", "NE")
    flat = op in ("=", "Q")
    xs = [str(5 if flat else k + 1 if up else 8 - k) for k in range(7)]
    xs[i] = ctx.string("x", 1, alpha("0123456789"))
    ok = 1
    for x, y in zip(xs, xs[1:]):
        r = (ord(x) > ord(y)) - (ord(x) < ord(y))
        if not {"<": r < 0, ">": r > 0, "=": r == 0, "!=": r != 0,
                "<=": r <= 0, ">=": r >= 0, "LT": r < 0, "GT": r > 0,
                "Q": r == 0, "NE": r != 0, "LE": r <= 0, "GE": r >= 0}[op]:
            ok = 0
    same(ctx, val(op.join(f"a@{k}" for k in range(7)), xs), ok,
         "a chain of seven")
    same(ctx, val(f"${op}a", xs), ok, "the same as a fold")


def no_order(ctx):
    """A place whose items are in no order decides nothing."""
    x, y = ctx.choice("p", ((None, 0), (P("a"), P("b")), ([0], "1"),
                            ("0", ["a"]), (P("a"), "a")))
    x, y = pip(x), pip(y)
    a = ctx.int("a")
    b = ctx.int("b")
    xs, ys = pip([x, a]), pip([y, b])
    for op, w in (("<", a < b), (">", a > b), ("=", False), ("!=", True)):
        same(ctx, val(f"a{op}b", xs, ys), int(w),
             f"{op} of lists with items in no order")
    s = ctx.string("s", 1, FULL)
    t = ctx.string("t", 1, FULL)
    if not isinstance(x, (W.ptypes.Pattern)):
        xs, ys = pip([x, s]), pip([y, t])
        for op, w in (("LT", ord(s) < ord(t)), ("GT", ord(s) > ord(t)),
                      ("Q", False), ("NE", True)):
            same(ctx, val(f"a{op}b", xs, ys), int(w),
                 f"{op} of lists with items in no order")


def long_lists(ctx, n):
    i = int(ctx.int("i", 0, n - 1))
    k = int(ctx.int("k", 0, n))
    a = ctx.int("a")
    b = ctx.int("b")
    xs = [7] * n
    xs[i] = a
    ys = [7] * n
    ys[i] = b
    ys = ys[:k]
    lt, eq = lexi(xs, ys)
    compare(ctx, NUM, xs, ys, lt, eq, "long lists")
    same(ctx, val("a==b", xs, ys), 1 if eq else 0, "== of long lists")


def once(ctx, n):
    """Every operand of a chain is evaluated once, from left to right."""
    xs = [ctx.int(f"x{i}") for i in range(n)]
    code = "x:{l PB a;a};y:"
    code += "<".join(f"(x {c})" for c in "abcde"[:n])
    code += ";l"
    same(ctx, val(code, *xs), [str(x) for x in xs], "operands of a chain")
    code = "y:" + "<".join("(Uz)" if i else "z" for i in range(n)) + ";z"
    same(ctx, val("z:a;" + code, xs[0]), xs[0] + n - 1,
         "effects of the operands")


def identity(ctx):
    """== tells apart what is not the same text."""
    i = ctx.int("i")
    j = ctx.int("j")
    same(ctx, val("a==b", i, j), 1 if i == j else 0, "== of integers")
    same(ctx, val("a==b", i, str(i) + "x"), 0, "different texts")
    same(ctx, val("a==b", i, str(i) + ".0"), 0, "different texts")
    same(ctx, val("a=b", i, str(i) + "x"), 1, "equal numbers")
    same(ctx, val("aQb", i, str(i)), 1, "the same text")
    same(ctx, val("a==a", ctx.choice("v", (None, [], [[]], ""))), 1,
         "a value is itself")
    same(ctx, val("a==b", [i], [j]), 1 if i == j else 0, "== of lists")
    same(ctx, val("a==b", R(i, j), R(i, j)), 1, "== of ranges")
    s = ctx.string("s", 1, FULL)
    u = ctx.string("u", 1, FULL)
    same(ctx, val("a==b", P(s), P(u)), 1 if s == u else 0, "== of patterns")
    same(ctx, val("a==b", P(s), P(s, 2)), 0, "patterns with other flags")


ALIKE = ("int", "list", "nested", "range", "nil", "pattern", "text")


def lookalike(ctx, kind, name):
    """Values of different kinds that have the same items or text."""
    i = ctx.int(name, 0, 3)
    if kind == "int":
        return i
    if kind == "list":
        return [i, i + 1]
    if kind == "nested":
        return [[i], i + 1]
    if kind == "range":
        return R(i, i + 2)
    if kind == "nil":
        return None
    if kind == "pattern":
        return P(str(i) + str(i + 1))
    return str(i) + str(i + 1)


def alike(ctx, a):
    b = ctx.choice("b", ALIKE)
    x, y = lookalike(ctx, a, "x"), lookalike(ctx, b, "y")
    w = run("a==b", [x, y])
    same(ctx, py(w), 1 if a == b and (a == "nil" or ctx_same(x, y)) else 0,
         f"== of {a} and {b}")
    w = int(py(w))
    for code, want in (("aN[b]", w), ("aNI[b]", 1 - w),
                       ("[b]@?a", "0" if w else None),
                       ("[b]@*a", ["0"] if w else []),
                       ("aN[9;b;[b];b]", 2 * w),
                       ("[9;[b];b]@?a", "2" if w else None),
                       ("#UQ[a;b]", 2 - w), ("#([b]RMa)", 1 - w)):
        same(ctx, val(code, x, y), want, f"{code} of {a} and {b}")


def ctx_same(x, y):
    p = W.ptypes
    if isinstance(x, list):
        return x[-1] == y[-1]
    if isinstance(x, p.Range):
        return x.getLower() == y.getLower()
    if isinstance(x, p.Pattern):
        return str(x) == str(y)
    return x == y


def identity_list(ctx, n):
    """The operators that look for an item use the same equality as ==."""
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
    y = ctx.string("y", 1, FULL)
    w = 0
    for x in xs:
        w = 1 if x == y else w
    same(ctx, val("y:b;$+({a==y} M a)", xs, y),
         sum([1 if x == y else 0 for x in xs]), "== with each")
    same(ctx, val("bNa", xs, y), sum([1 if x == y else 0 for x in xs]),
         "number of occurrences")
    same(ctx, val("bNIa", xs, y), 1 - w, "absence")
    same(ctx, val("a@?b", xs, y),
         ([i for i, x in enumerate(xs) if x == y] + [None])[0], "place")
    same(ctx, val("a@*b", xs, y),
         [str(i) for i, x in enumerate(xs) if x == y], "places")


def lengths(ctx):
    lo = ctx.int("lo", -30, 30)
    hi = ctx.int("hi", -30, 30)
    n = hi - lo if hi > lo else 0
    s = ctx.string("s", ctx.choice("n", (0, 1, 3)), FULL)
    k = len(s)
    r = R(lo, hi)
    for op, w in (("#<", n < k), ("#>", n > k), ("#=", n == k)):
        same(ctx, val(f"a{op}b", r, s), int(w), f"{op} of range and text")
    inf = R(lo, None)
    for op, w, v in (("#<", 0, 1), ("#>", 1, 0), ("#=", 0, 0)):
        same(ctx, val(f"a{op}b", inf, s), w, f"{op} of infinite range")
        same(ctx, val(f"a{op}b", s, inf), v, f"{op} of infinite range")
        same(ctx, val(f"a{op}b", r, inf), v, f"{op} of two ranges")
        same(ctx, val(f"a{op}b", inf, R(hi, None)), op == "#=",
             f"{op} of two infinite ranges")
