"""Taking items from and putting items onto the ends of iterables."""

BOUNDS = {
    "quick": "strings (any characters), lists and ranges of 0-4 items, "
             "ranges with any integer ends, infinite ranges; every sequence "
             "of 3 operations on a list, string or range of up to 2 items; "
             "every integer item and index",
    "thorough": "up to 6 items, every sequence of 4 operations",
}
BOUNDS["quick"] += ("; lists of 9 items with one arbitrary index")

OPS = ("PO", "DQ", "PU", "PB", "PK")


def units(tier):
    t = tier == "thorough"
    us = []
    for kind in ("list", "str", "range"):
        for n in range(7 if t else 5):
            us.append((f"one {kind} len={n}", "one", {"kind": kind, "n": n}))
    for kind in ("list", "str", "range"):
        us.append((f"long {kind}", "one", {"kind": kind, "n": 9}))
    us.append(("range any ends", "any_range", {}))
    us.append(("infinite range", "infinite", {}))
    us.append(("nil", "onto_nil", {}))
    us.append(("pattern", "onto_pattern", {}))
    us.append(("parts", "parts", {}, {"weight": 3}))
    us.append(("values", "values", {}))
    us.append(("lists onto lists", "lists", {}))
    us.append(("not iterable", "bad", {}))
    us.append(("as a queue", "queue", {"n": 5 if t else 3}))
    for first in OPS:
        for second in OPS:
            for kind in ("list", "str", "range"):
                us.append((f"sequence {kind} {first} {second}", "sequence",
                           {"ops": [first, second], "kind": kind,
                            "k": 4 if t else 3}, {"weight": 10}))
    return us


def make(ctx, kind, n):
    if kind == "str":
        s = ctx.string("s", n)
        return S(s), [s[i] for i in range(n)]
    if kind == "list":
        xs = [ctx.int(f"x{k}") for k in range(n)]
        return pip(xs), [str(x) for x in xs]
    lo = ctx.int("lo")
    return R(lo, lo + n), [str(lo + k) for k in range(n)]


def glue(kind, xs):
    if kind == "str":
        return "".join(xs)
    return xs


def one(ctx, kind, n):
    v, xs = make(ctx, kind, n)
    d = ctx.string("d", 1) if kind == "str" else ctx.int("d")
    i = ctx.int("i")
    if n == 0:
        for code in ("POx", "DQx", "(xPKc)"):
            same(ctx, items(run(f"x:a;y:{code};[y x]", [v, d, i])),
                 [None, glue(kind, [])],
                 "taking from an empty iterable gives nil")
    else:
        k = i % n
        for code, item, rest in (("POx", xs[0], xs[1:]),
                                 ("DQx", xs[-1], xs[:-1]),
                                 ("(xPKc)", xs[k], xs[:k] + xs[k + 1:])):
            same(ctx, items(run(f"x:a;y:{code};[y x]", [v, d, i])),
                 [item, glue(kind, rest)],
                 f"{code} gives an item and takes it away")
            same(ctx, items(run(f"{code.replace('x', 'a')}", [v, d, i])),
                 item, f"{code} of a local variable")
    for code, new in (("xPUb", [str(d)] + xs), ("xPBb", xs + [str(d)])):
        same(ctx, items(run(f"x:a;{code};x", [v, d])), glue(kind, new),
             f"{code} adds an item")
        same(ctx, items(run(f"x:a;{code}", [v, d])), glue(kind, new),
             f"the value of {code} is the new value")


def any_range(ctx):
    lo = ctx.int("lo")
    hi = ctx.int("hi")
    v = R(lo, hi)
    got = run("x:a;y:POx;[y x]", [v])
    g = [py(z) for z in got]
    e = [py(z) for z in run("x:a;y:DQx;[y x]", [v])]
    p = [py(z) for z in run("x:a;y:xPK0;[y x]", [v])]
    if hi <= lo:
        same(ctx, [g[0], e[0], p[0]], [None] * 3, "nothing to take")
        for z in (g, e, p):
            same(ctx, z[1], ("range", lo, hi), "unchanged")
    else:
        same(ctx, g, [str(lo), ("range", lo + 1, hi)], "PO of a range")
        same(ctx, p, [str(lo), ("range", lo + 1, hi)], "PK0 of a range")
        same(ctx, e, [str(hi - 1), ("range", lo, hi - 1)], "DQ of a range")
    lo0 = R(None, hi)
    if hi > 0:
        got = [py(z) for z in run("x:a;y:POx;z:DQx;[y z x]", [R(None, hi)])]
        same(ctx, got[0], "0", "PO of a range from nil")
        if hi > 1:
            same(ctx, got[1], str(hi - 1), "then DQ")
            same(ctx, got[2], ("range", 1, hi - 1), "then what is left")
        got = [py(z) for z in run("x:a;z:DQx;[z x]", [R(None, hi)])]
        same(ctx, got[1], ("range", 0, hi - 1), "DQ of a range from nil")


def infinite(ctx):
    lo = ctx.int("lo")
    i = ctx.int("i")
    v = R(lo, None)
    same(ctx, [py(z) for z in run("x:a;y:POx;[y x]", [v])],
         [str(lo), ("range", lo + 1, None)], "PO of an infinite range")
    same(ctx, [py(z) for z in run("x:a;y:DQx;[y x]", [v])],
         [None, ("range", lo, None)], "an infinite range has no end")
    same(ctx, [py(z) for z in run("x:a;y:xPKb;[y x]", [v, i])],
         [str(lo), ("range", lo + 1, None)] if i == 0
         else [None, ("range", lo, None)],
         "only the first item of an infinite range can be picked")
    same(ctx, py(run("x:a;POx;x@b", [v, abs(i)])), str(lo + 1 + abs(i)),
         "what is left of an infinite range")


def onto_nil(ctx):
    d = ctx.int("d")
    same(ctx, val("x:();xPUa;x", d), [str(d)], "pushing onto nil")
    same(ctx, val("x:();xPBa;x", d), [str(d)], "pushing onto nil")
    same(ctx, val("x:();y:POx;[y x]"), [None, None], "taking from nil")
    same(ctx, val("x:();y:DQx;[y x]"), [None, None], "taking from nil")
    same(ctx, val("x:();y:xPKa;[y x]", d), [None, None], "taking from nil")
    same(ctx, val("$new:();$newPBa;$newPUb;$new", d, 5), ["5", str(d)],
         "building a list from nil")


def onto_pattern(ctx):
    s = ctx.string("s", 2, alpha("ab"))
    same(ctx, py(run("x:a;xPUb;x", [P("c"), s])), ("pattern", s + "c", 0),
         "pushing text onto a pattern")
    same(ctx, py(run("x:a;xPBb;x", [P("c"), s])), ("pattern", "c" + s, 0),
         "pushing text onto a pattern")


def parts(ctx):
    """The place changed can be an item of a list."""
    xs = [ctx.int("p"), ctx.int("q")]
    d = ctx.int("d")
    i = ctx.int("i")
    c = pip([xs, [d]])
    k = i % 2
    rows = [[str(x) for x in xs], [str(d)]]

    def put(row):
        out = list(rows)
        out[k] = row
        return out
    r = rows[k]
    same(ctx, val("x:a;PO(x@b);x", c, i), put(r[1:]), "PO of an item")
    same(ctx, val("x:a;DQ(x@b);x", c, i), put(r[:-1]), "DQ of an item")
    same(ctx, val("x:a;PO(x@b)", c, i), r[0], "value of PO of an item")
    same(ctx, val("x:a;x@bPUc;x", c, i, d), put([str(d)] + r),
         "PU onto an item")
    same(ctx, val("x:a;x@bPBc;x", c, i, d), put(r + [str(d)]),
         "PB onto an item")
    same(ctx, val("x:a;x@bPK0;x", c, i), put(r[1:]), "PK from an item")
    same(ctx, val("x:a;y:[];yPBPOx;[x y]", c), [rows[1:], [rows[0]]],
         "moving an item")


def values(ctx):
    """Operations on a value that is no variable change nothing."""
    xs = [ctx.int("p"), ctx.int("q")]
    d = ctx.int("d")
    w = [str(x) for x in xs]
    for code, want in (("PO(xAL[])", w[0]), ("DQ(xAL[])", w[1]),
                       ("((xAL[])PK1)", w[1]),
                       ("((xAL[])PUb)", [str(d)] + w),
                       ("((xAL[])PBb)", w + [str(d)]),
                       ("PO[b 1]", str(d)), ("([b 1]PB2)",
                                             [str(d), "1", "2"]),
                       ("DQ[1 b]", str(d))):
        same(ctx, val(f"x:a;y:{code};[y x b]", pip(xs), d),
             [want, w, str(d)], f"{code} leaves variables alone")


def lists(ctx):
    xs = [ctx.int("p"), ctx.int("q")]
    w = [str(x) for x in xs]
    same(ctx, val("x:[1];xPUa;x", pip(xs)), [w, "1"],
         "a list is pushed as one item")
    same(ctx, val("x:[1];xPBa;x", pip(xs)), ["1", w],
         "a list is pushed as one item")
    same(ctx, val("x:[1];xPB();xPU();x"), [None, "1", None],
         "nil can be pushed")
    same(ctx, val("x:\"z\";xPUa;xPBa;x", pip(xs)),
         w[0] + w[1] + "z" + w[0] + w[1], "text of a list onto a string")


def bad(ctx):
    d = ctx.int("d")
    same(ctx, val("x:[1;2];y:xPK();[x y]", d), [["1", "2"], None],
         "nil is no position")
    same(ctx, val("x:[1;2];y:xPK[0];[x y]", d), [["1", "2"], None],
         "a list is no position")
    same(ctx, py(run("x:a;y:POx;[y x]", [P("ab")])),
         [None, ("pattern", "ab", 0)], "nothing to take from a pattern")


def queue(ctx, n):
    xs = [ctx.int(f"x{k}") for k in range(n)]
    w = [str(x) for x in xs]
    v = pip(xs)
    same(ctx, val("x:[];F z a{xPBz};y:[];L#a{yPBPOx};[x y]", v), [[], w],
         "PB then PO is a queue")
    same(ctx, val("x:[];F z a{xPUz};y:[];L#a{yPBDQx};[x y]", v), [[], w],
         "PU then DQ is a queue")
    same(ctx, val("x:[];F z a{xPBz};y:[];L#a{yPBDQx};[x y]", v),
         [[], w[::-1]], "PB then DQ is a stack")
    same(ctx, val("x:[];F z a{xPUz};y:[];L#a{yPBPOx};[x y]", v),
         [[], w[::-1]], "PU then PO is a stack")
    same(ctx, val("y:[];W#a{yPBPOa};[a y]", v), [[], w],
         "taking until nothing is left")


def sequence(ctx, ops, kind, k):
    n = int(ctx.int("n", 0, 2))
    v, xs = make(ctx, kind, n)
    ops = list(ops) + [ctx.choice(f"op{j}", OPS) for j in range(k - 2)]
    d = [ctx.string(f"d{j}", 1) if kind == "str" else ctx.int(f"d{j}", 0)
         for j in range(k)]
    i = int(ctx.int("i", -1, 1))
    code = "x:a;y:[];"
    cur = list(xs)
    took = []
    for j, op in enumerate(ops):
        if op == "PO":
            code += "yPB(POx);"
            took.append(cur.pop(0) if cur else None)
        elif op == "DQ":
            code += "yPB(DQx);"
            took.append(cur.pop() if cur else None)
        elif op == "PK":
            code += "yPB(xPKb);"
            took.append(cur.pop(i % len(cur)) if cur else None)
        elif op == "PU":
            code += f"xPU(c@{j});"
            cur = [str(d[j])] + cur
        else:
            code += f"xPB(c@{j});"
            cur = cur + [str(d[j])]
    same(ctx, items(run(code + "[x y]", [v, i, pip(d)])),
         [glue(kind, cur), took], "a sequence of takes and puts")
