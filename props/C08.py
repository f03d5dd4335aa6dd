"""Assignment: to names, indices, slices, lists of names; with operators."""

BOUNDS = {
    "quick": "strings (any characters) and lists of 1-4 items, every integer "
             "index, in-bounds slices, assigned strings of 0-2 characters "
             "and lists of 0-2 items, nesting depth 2, destructuring of "
             "0-4 values into 1-3 names, 40 operators",
    "thorough": "strings and lists of 1-6 items",
}
BOUNDS["quick"] += ("; lists of 9 items with one arbitrary item or index")

NAMES = ("x", "a", "$_name", "$foo")

# operators for compute-and-assign; every one is used as  x OP: b
BIN = ("+ - * / % // . X , \\, < = > <= Q NE LT #= N NI & | \\& \\| BA BO BX "
       "RL AE PE AL ^ J WR RM CM AD TB Z H S @ @< @> == ^@ @? CP WV DC TM "
       "PU PB").split()
UNI = "- + ! \\! # RV UC LC AB SG HV DB SQ RP ST , \\, A C R PZ UQ MX EN " \
      "U D ++ -- PO DQ".split()


def units(tier):
    n = 6 if tier == "thorough" else 4
    us = [("names", "names", {})]
    for nm in NAMES:
        for k in range(1, n + 1):
            us.append((f"list item {nm} len={k}", "item",
                       {"kind": "list", "n": k, "nm": nm}))
    for k in range(1, n + 1):
        for m in range(3):
            us.append((f"string item len={k} by={m}", "str_item",
                       {"n": k, "m": m}))
        us.append((f"range item len={k}", "item",
                   {"kind": "range", "n": k, "nm": "x"}))
        for m in range(3):
            us.append((f"list slice len={k} by={m}", "slice_",
                       {"kind": "list", "n": k, "m": m}, {"weight": k * 2}))
            us.append((f"string slice len={k} by={m}", "slice_",
                       {"kind": "str", "n": k, "m": m}, {"weight": k * 2}))
    us.append(("long list item", "item", {"kind": "list", "n": 9,
                                          "nm": "x"}))
    us.append(("long range item", "item", {"kind": "range", "n": 9,
                                           "nm": "x"}))
    us.append(("long string item", "str_item", {"n": 9, "m": 1}))
    us.append(("nested item", "nested", {}, {"weight": 5}))
    us.append(("nested string item", "nested_str", {}, {"weight": 5}))
    us.append(("no such place", "noplace", {}))
    for op in BIN:
        us.append((f"compute {op}", "compute", {"op": op}))
    for op in UNI:
        us.append((f"compute unary {op}", "compute1", {"op": op}))
    for op in "+ - * . % AE PE RL X @ ^ J".split():
        us.append((f"compute item {op}", "compute_item", {"op": op},
                   {"weight": 3}))
    us.append(("step", "step", {}))
    us.append(("step item", "step_item", {}))
    us.append(("swap", "swap", {}))
    us.append(("swap items", "swap_items", {}, {"weight": 3}))
    for k in range(5):
        for m in range(1, 4):
            us.append((f"destructure {k} into {m}", "destructure",
                       {"k": k, "m": m}))
    us.append(("destructure nested", "destructure_nested", {}))
    us.append(("destructure places", "destructure_places", {}))
    us.append(("choose the name", "choose", {}))
    us.append(("value of assignment", "value", {}))
    us.append(("not a place", "notplace", {}))
    return us


def many(ctx, n, name="x"):
    return [ctx.int(f"{name}{k}") for k in range(n)]


def txt(xs):
    return [str(x) for x in xs]


def names(ctx):
    i = ctx.int("i")
    j = ctx.int("j")
    same(ctx, val("x:a y:b [x y]", i, j), txt([i, j]), "assign to names")
    same(ctx, val("x:y:a [x y]", i), txt([i, i]), "assignment groups right")
    same(ctx, val("x:a x:b x", i, j), str(j), "the last assignment counts")
    same(ctx, val("x:a y:x x:b [x y]", i, j), txt([j, i]),
         "assigning copies the value")
    same(ctx, val("YaYby", i, j), str(j), "Y assigns to y")
    same(ctx, val("x:()[x a]", i), [None, str(i)], "nil can be assigned")
    same(ctx, val("$foo:a $fo:b $foo_1:c [$foo $fo $foo_1]", i, j, 3),
         txt([i, j, 3]), "names with a dollar sign")


def item(ctx, kind, n, nm):
    i = ctx.int("i")
    v = ctx.int("v")
    if kind == "list":
        xs = many(ctx, n)
        c = pip(xs)
    else:
        lo = ctx.int("lo")
        xs = [lo + k for k in range(n)]
        c = R(lo, lo + n)
    want = txt(xs)
    want[i % n] = str(v)
    same(ctx, val(f"{nm}:a {nm}@b:c {nm}", c, i, v), want,
         "assigning to an index changes that item only")


def str_item(ctx, n, m):
    s = ctx.string("s", n)
    t = ctx.string("t", m)
    i = ctx.int("i")
    k = i % n
    same(ctx, val("x:a x@b:c x", s, i, t), s[:k] + t + s[k + 1:],
         "assigning to an index of a string replaces that character")


def slice_(ctx, kind, n, m):
    lo = int(ctx.int("lo", 0, n))
    hi = int(ctx.int("hi", 0, n))
    ctx.assume(lo <= hi)
    if kind == "str":
        s = ctx.string("s", n)
        t = ctx.string("t", m)
        want = s[:lo] + t + s[hi:]
        head = t + s[hi:]
        tail = s[:lo] + t
        src, new = s, t
    else:
        xs = many(ctx, n)
        ys = many(ctx, m, "y")
        want = txt(xs[:lo] + ys + xs[hi:])
        head = txt(ys + xs[hi:])
        tail = txt(xs[:lo] + ys)
        src, new = pip(xs), pip(ys)
    same(ctx, val("x:a x@(b,c):d x", src, lo, hi, new), want,
         "assigning to a slice replaces it")
    if lo == 0:
        for code in ("x:a x@<b:c x", "x:a;(xHb):c;x"):
            same(ctx, val(code, src, hi, new), head,
                 "assigning to a left part replaces it")
    if hi == n:
        same(ctx, val("x:a x@>b:c x", src, lo, new), tail,
             "assigning to a right part replaces it")
        if lo < n:
            same(ctx, val("x:a;(xSb):c;x", src, n - lo, new), tail,
                 "assigning to a suffix replaces it")


def nested(ctx):
    i = ctx.int("i")
    j = ctx.int("j")
    v = ctx.int("v")
    xs = [many(ctx, 2, "x"), many(ctx, 3, "y")]
    c = pip(xs)
    want = [txt(r) for r in xs]
    row = want[i % 2]
    row[j % len(row)] = str(v)
    same(ctx, val("x:a x@b@c:d x", c, i, j, v), want,
         "assigning to an item of an item")
    same(ctx, val("x:a y:b x@y@c:d x", c, i, j, v), want,
         "assigning to an item of an item, index in a name")
    row2 = [txt(r) for r in xs]
    row2[i % 2] = [str(v), str(v)]
    same(ctx, val("x:a x@b:[c c] x", c, i, v), row2,
         "assigning a list to an item")


def nested_str(ctx):
    i = ctx.int("i")
    j = ctx.int("j")
    s = ctx.string("s", 2)
    t = ctx.string("t", 3)
    u = ctx.string("u", 2)
    want = [s, t]
    k = i % 2
    old = want[k]
    p = j % len(old)
    want[k] = old[:p] + u + old[p + 1:]
    same(ctx, val("x:a x@b@c:d x", pip([s, t]), i, j, u), want,
         "assigning to a character of an item")


def noplace(ctx):
    i = ctx.int("i")
    v = ctx.int("v")
    same(ctx, val("l:[] l@a:b l", i, v), [], "no item to assign to")
    same(ctx, val("x:\"\" x@a:b x", i, v), "", "no character to assign to")
    same(ctx, val("x:() x@a:b x", i, v), None, "nil has no items")
    same(ctx, val("$new@a:b $new", i, v), None, "a new name has no items")
    same(ctx, val("x:[[] 5] x@0@a:b x", i, v), [[], "5"],
         "no item to assign to")


ARITH = "+ - * < > <= >= = != & | \\& \\| ! \\! AB SG U D ++ -- SQ DB".split()


def operands(ctx, op):
    """Every integer for arithmetic, small ones where texts or sizes
    matter."""
    if op in ARITH:
        return ctx.int("n"), ctx.int("m")
    if op in ("%", "//", "CM"):
        return ctx.int("n"), ctx.int("m", -3, 3)
    if op in (",", "\\,"):
        n = ctx.int("n", -1, 3)
        return n, ctx.int("m", 0, 4)
    if op in ("X", "RL", "TB", "@<", "@>", "H", "S", "^@", "TM", "/", "BA",
              "BO", "BX", "HV"):
        return ctx.int("n", 0, 12), ctx.int("m", 2, 4)
    return ctx.int("n", -2, 12), ctx.int("m", 0, 12)


def compute(ctx, op):
    n, m = operands(ctx, op)
    sp = f" {op}: "
    want = items(run(f"x:a;(x {op} b)", [n, m]))
    ctx.record(want)
    same(ctx, items(run(f"x:a x{sp}b x", [n, m])), want,
         f"x {op}: b is x : x {op} b")
    same(ctx, items(run(f"x:a x{sp}b", [n, m])), want,
         f"x {op}: b has the value assigned")
    xs = pip([n, m])
    want = items(run(f"x:a;(x {op} b)", [xs, m]))
    same(ctx, items(run(f"x:a x{sp}b x", [xs, m])), want,
         f"x {op}: b is x : x {op} b, for a list")


def compute1(ctx, op):
    n, m = operands(ctx, op)
    if op == "C":
        n, m = ctx.int("code", 65, 67), ctx.int("code2", 65, 67)
    want = items(run(f"x:a;y:({op} x);y", [n]))
    ctx.record(want)
    same(ctx, items(run(f"x:a;{op}:x;x", [n])), want,
         f"{op}: x is x : {op} x")
    xs = pip([n, m])
    want = items(run(f"x:a;y:({op} x);y", [xs]))
    same(ctx, items(run(f"x:a;{op}:x;x", [xs])), want,
         f"{op}: x is x : {op} x, for a list")


def compute_item(ctx, op):
    xs = [ctx.int("x0", 0, 12), ctx.int("x1", 0, 12)]
    b = ctx.int("b", 1, 3)
    i = ctx.int("i", -3, 3)
    k = i % 2
    new = items(run(f"(a {op} b)", [xs[k], b]))
    ctx.record(new)
    want = txt(xs)
    want[k] = new
    same(ctx, items(run(f"x:a x@b {op}: c x", [pip(xs), i, b])), want,
         f"x@i {op}: b changes that item only")


def step(ctx):
    n = ctx.int("n")
    for u in ("U", "++"):
        same(ctx, val(f"x:a;{u}x;x", n), str(n + 1), "increment")
        same(ctx, val(f"x:a;{u}x", n), str(n + 1), "value of an increment")
        same(ctx, val(f"x:a;({u}x)+({u}x)", n), str(n + 1 + n + 2),
             "each increment counts")
    for u in ("D", "--"):
        same(ctx, val(f"x:a;{u}x;x", n), str(n - 1), "decrement")
        same(ctx, val(f"x:a;{u}x", n), str(n - 1), "value of a decrement")


def step_item(ctx):
    xs = many(ctx, 3)
    i = ctx.int("i")
    want = txt(xs)
    want[i % 3] = str(xs[i % 3] + 1)
    same(ctx, val("x:a;U(x@b);x", pip(xs), i), want, "increment an item")
    same(ctx, val("x:a;++(x@b);x", pip(xs), i), want, "increment an item")
    want[i % 3] = str(xs[i % 3] - 1)
    same(ctx, val("x:a;D(x@b);x", pip(xs), i), want, "decrement an item")
    same(ctx, val("x:a;U x;x", pip(xs)), txt([v + 1 for v in xs]),
         "increment a list")


def swap(ctx):
    n = ctx.int("n")
    s = ctx.string("s", 2)
    same(ctx, val("x:a y:b x::y [x y]", n, s), [s, str(n)],
         ":: swaps two names")
    same(ctx, val("a::b [a b]", n, s), [s, str(n)], ":: swaps two names")
    same(ctx, val("x:a y:b x::y x::y [x y]", n, s), [str(n), s],
         "swapping twice undoes it")
    same(ctx, val("x:a x::x x", n), str(n), "swapping with itself")


def swap_items(ctx):
    xs = many(ctx, 3)
    i = ctx.int("i")
    j = ctx.int("j")
    want = txt(xs)
    a, b = i % 3, j % 3
    want[a], want[b] = want[b], want[a]
    same(ctx, val("x:a x@b::x@c x", pip(xs), i, j), want,
         ":: swaps two items")
    s = ctx.string("s", 3)
    w = [s[0], s[1], s[2]]
    w[a], w[b] = w[b], w[a]
    same(ctx, val("x:a x@b::x@c x", s, i, j), "".join(w),
         ":: swaps two characters")


def destructure(ctx, k, m):
    xs = many(ctx, k)
    nm = "xyz"[:m]
    lhs = "[" + " ".join(nm) + "]"
    if ctx.bool("other values"):
        xs = [ctx.choice(f"v{p}", (None, [None], [], "")) for p in range(k)]
        want = [xs[p] if p < k else None for p in range(m)]
        same(ctx, val(f"x:7 y:8 z:9 {lhs}:a [x y z]", pip(xs)),
             want + ["7", "8", "9"][m:],
             "a list of names takes items of any type, also nil")
        return
    want = [str(xs[p]) if p < k else None for p in range(m)]
    pre = "x:7 y:8 z:9 "
    rest = ["7", "8", "9"][m:]
    same(ctx, val(f"{pre}{lhs}:a [x y z]", pip(xs)), want + rest,
         "a list of names takes the items in order, nil when there are none")
    lo = ctx.int("lo")
    want = [str(lo + p) if p < k else None for p in range(m)]
    same(ctx, val(f"{pre}{lhs}:a [x y z]", R(lo, lo + k)), want + rest,
         "also from a range")
    s = ctx.string("s", k)
    want = [s[p] if p < k else None for p in range(m)]
    same(ctx, val(f"{pre}{lhs}:a [x y z]", s), want + rest,
         "also from a string")
    if k == 0:
        same(ctx, val(f"{pre}{lhs}:() [x y z]"), [None] * m + rest,
             "nil assigns nil to all")


def destructure_nested(ctx):
    xs = many(ctx, 3)
    same(ctx, val("[x [y z]]:[a [b c]] [x y z]", *xs), txt(xs),
         "nested lists of names")
    same(ctx, val("[x y]:[a b] [x y]:[y x] [x y]", *xs),
         txt([xs[1], xs[0]]), "the values are taken before assigning")
    same(ctx, val("[a b c]:[c a b] [a b c]", *xs),
         txt([xs[2], xs[0], xs[1]]), "rotating three names")
    same(ctx, val("x:[y z]:[a b] [x y z]", *xs),
         [txt(xs[:2])] + txt(xs[:2]), "its value is the list")


def destructure_places(ctx):
    xs = many(ctx, 3)
    i = ctx.int("i")
    v = ctx.int("v")
    want = txt(xs)
    want[i % 3] = str(v)
    same(ctx, val("x:a [x@b y]:[c 5] [x y]", pip(xs), i, v), [want, "5"],
         "a list of places")


def choose(ctx):
    xs = many(ctx, 3)
    i = ctx.int("i")
    v = ctx.int("v")
    want = txt(xs)
    want[i % 3] = str(v)
    same(ctx, val("x:a y:b z:c;([x y z]@d):e;[x y z]", *xs, i, v), want,
         "assigning to an item of a list of names assigns to that name")


def value(ctx):
    n = ctx.int("n")
    v = ctx.int("v")
    same(ctx, val("x:a;(x:b)+x", n, v), str(v + v),
         "an assignment has the value assigned")
    same(ctx, val("(x:a):b x", n, v), str(v), "an assignment is a place")
    same(ctx, val("(x+:a):b x", n, v), str(v), "an assignment is a place")
    same(ctx, val("x:a;(x+:b)*2", n, v), str((n + v) * 2),
         "a compute-and-assign has the value assigned")
    same(ctx, val("x:a x+:x+:b x", n, v), str(n + n + v),
         "compute-and-assign groups right")


def notplace(ctx):
    n = ctx.int("n")
    v = ctx.int("v")
    same(ctx, val("(a+0):b", n, v), str(v), "assigning to a value gives the "
         "right-hand side")
    same(ctx, val("(a+0)+:b", n, v), str(n + v), "computing into a value "
         "gives the result")
    same(ctx, val("U(a+0)", n), str(n + 1), "incrementing a value")
    same(ctx, val("x:a x+0:b x", n, v), str(n), "names keep their values")
