"""Rearranging operators: every item goes where it is documented to go."""

BOUNDS = {
    "quick": "lists of up to 4 texts of 1 character over all of Unicode, "
             "texts of up to 4 characters, ranges of up to 4 items at any "
             "place, pairs of these, up to 3 lists of up to 3 items, nested "
             "lists to depth 4; group sizes -5 to 5 and 1.5, piece counts "
             "-7 to 7, cuts at up to 2 places -5 to 6, grids up to 3 by 3",
    "thorough": "lists, texts and ranges of up to 6 items",
}
BOUNDS["quick"] += ("; lists of 9 items; fractional group sizes 1.5 and 2.5 of either "
                    "sign")

KIND = ("list", "text", "range")


def units(tier):
    t = tier == "thorough"
    m = 6 if t else 4
    us = []
    for k in KIND:
        for n in range(m + 1):
            for f in ("mirror", "ends", "groups", "chops", "weave", "added",
                      "replaced", "counted"):
                us.append((f"{f} {k} {n}", f, {"k": k, "n": n}))
            us.append((f"cuts {k} {n}", "cuts", {"k": k, "n": n},
                       {"weight": 4}))
            if n < 5:
                us.append((f"choices {k} {n}", "choices", {"k": k, "n": n}))
            for j in range(4):
                for h in KIND:
                    us.append((f"pairs {k} {n}, {h} {j}", "pairs",
                               {"k": k, "n": n, "h": h, "j": j}))
    for k in KIND:
        for f in ("mirror", "ends", "groups", "chops", "weave", "cuts"):
            us.append((f"long {f} {k}", f, {"k": k, "n": 9}, {"weight": 2}))
    for s in ((), (0,), (1,), (2, 1), (2, 0), (0, 2), (1, 2, 3), (2, 2, 2),
              (3, 0, 1), (2, 1, 0), (0, 2, 2), (2, 2, 1, 0), (1, 3, 2, 2)):
        us.append((f"several {s}", "several", {"s": s}))
    us.append(("unique texts", "unique", {}))
    us.append(("unique lists", "unique_lists", {}))
    us.append(("nested", "nested", {}))
    us.append(("grids", "grids", {}))
    us.append(("lines", "lines", {}))
    us.append(("big chops", "big", {}))
    us.append(("not iterable", "bad", {}))
    return us


def things(ctx, k, n, p="x"):
    """(the value, its items as texts)"""
    if k == "list":
        xs = [ctx.string(f"{p}{i}", 1, FULL) for i in range(n)]
        return xs, xs
    if k == "text":
        s = ctx.string(p, n, FULL)
        return s, [c for c in s]
    lo = ctx.int(p, -99, 99)
    return R(lo, lo + n), [str(lo + i) for i in range(n)]


def part(k, xs):
    """Several items together: a text of a text, a list otherwise."""
    return "".join(xs) if k == "text" else xs


def mirror(ctx, k, n):
    v, xs = things(ctx, k, n)
    rev = xs[::-1]
    same(ctx, val("RVa", v), part(k, rev), "RV")
    same(ctx, val("R a", v), part(k, rev), "R")
    same(ctx, val("RVRVa", v), part(k, xs), "RV of RV")
    same(ctx, val("RFa", v), part(k, xs + rev), "RF")
    same(ctx, val("PZa", v), part(k, xs + rev[1:]), "PZ")
    if k != "text":
        rows = [x + "-" for x in xs]
        same(ctx, val("QR(a.'-)", v),
             [x + "--" + x[::-1] for x in xs + rev] if k == "list" else
             [x + "-" + "-" + x[::-1] for x in xs + rev], "QR")
        same(ctx, val("QP(a.'-)", v),
             [x + "-" + x[::-1] for x in xs + rev[1:]], "QP")
        same(ctx, val("QR({[a;1]}M a)", v),
             [[x, "1", "1", x] for x in xs + rev], "QR of lists")
        same(ctx, val("QP({[a;1]}M a)", v),
             [[x, "1", x] for x in xs + rev[1:]], "QP of lists")
    same(ctx, val("x:a;y:RVx;z:RFx;{a}M x", v), xs,
         "the operand stays")


def ends(ctx, k, n):
    """Heads and tails; for ranges the result is a range."""
    v, xs = things(ctx, k, n)
    m = ctx.choice("m", tuple(range(-n, n + 1)))
    g = lambda code: items(run(code, [v, m]))
    same(ctx, g("aHb"), part(k, xs[:m] if m >= 0 else xs[:n + m]), "H")
    same(ctx, g("aSb"), part(k, xs[n - m:] if m >= 0 else xs[-m:]), "S")
    if n:
        same(ctx, g("Ha"), part(k, xs[:n - 1]), "unary H")
        same(ctx, g("Sa"), part(k, xs[1:]), "unary S")
    same(ctx, g("x:a;xHb"), part(k, xs[:m] if m >= 0 else xs[:n + m]),
         "H of a variable")
    same(ctx, g("x:a;xSb"), part(k, xs[n - m:] if m >= 0 else xs[-m:]),
         "S of a variable")
    if n:
        same(ctx, g("aH[b;1]"),
             [part(k, xs[:m] if m >= 0 else xs[:n + m]), part(k, xs[:1])],
             "H of several lengths")
    if k != "range":
        same(ctx, g("x:a;xH0:x;x"), part(k, xs + xs), "H as a place")


def groups(ctx, k, n):
    v, xs = things(ctx, k, n)
    m = ctx.choice("m", (-5, -3, -2, -1, 1, 2, 3, 5))
    w = []
    if m > 0:
        i = 0
        while i < n:
            w.append(part(k, xs[i:i + m]))
            i += m
    else:
        i = n
        while i > 0:
            w.append(part(k, xs[max(i + m, 0):i]))
            i += m
    g = lambda code, *a: items(run(code, [v] + list(a)))
    same(ctx, g("a<>b", m), w, "<>")
    same(ctx, g("<>a"), g("a<>2"), "<> of 2")
    same(ctx, g("a<>b", [m, 1]), [w, [part(k, [x]) for x in xs]],
         "<> of several sizes")
    same(ctx, g("a<>0"), None, "<> of size 0")
    for s, d in (("1.5", 3), ("2.5", 5)):
        w = []
        i = 0
        while i < 2 * n:
            w.append(part(k, xs[i // 2:min(i + d, 2 * n) // 2]))
            i += d
        same(ctx, g("a<>" + s), w, f"<> of size {s}")
        w = []
        i = 0
        while i < 2 * n:
            w.append(part(k, xs[n - min(i + d, 2 * n) // 2:n - i // 2]))
            i += d
        same(ctx, g("a<>-" + s), w, f"<> of size -{s}")


def chops(ctx, k, n):
    v, xs = things(ctx, k, n)
    m = ctx.choice("m", (-7, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7))
    g = lambda code, *a: items(run(code, [v] + list(a)))
    if m > 0:
        w = [part(k, xs[n * i // m:n * (i + 1) // m]) for i in range(m)]
    else:
        w = [part(k, xs[n - n * (i + 1) // -m:n - n * i // -m])
             for i in range(-m)]
    if not n:
        w = []
    same(ctx, g("aCHb", m), w, "CH")
    same(ctx, g("CHa"), g("aCH2"), "CH in 2")
    same(ctx, g("aCHb", [m, 1]), [w, [part(k, xs)] if n else []],
         "CH in several numbers")
    same(ctx, g("aCH0"), None, "CH in 0")


def big(ctx):
    """As many pieces as asked for, all items in them, in order."""
    n = ctx.choice("n", (1, 7, 11, 23, 49))
    k = ctx.int("k", -12, 12)
    ctx.assume(k != 0)
    m = abs(k)
    r = run("(,a)CHb", [n, k])
    ctx.check(len(r) == m, "number of pieces")
    got = items(r)
    if k < 0:
        got = got[::-1]
    same(ctx, [x for y in got for x in y], [str(i) for i in range(n)],
         "all items, in order")
    ctx.check(max([len(y) for y in got]) - min([len(y) for y in got]) <= 1,
              "pieces of nearly the same size")


def cuts(ctx, k, n):
    v, xs = things(ctx, k, n)
    m = ctx.choice("m", (0, 1, 2))
    at = [ctx.int(f"at{i}", -5, 6) for i in range(m)]
    w = []
    j = 0
    for i in range(n):
        if any([a == i or a == i - n for a in at]):
            w.append(part(k, xs[j:i]))
            j = i
    w.append(part(k, xs[j:]))
    g = lambda code, *a: items(run(code, [v] + list(a)))
    same(ctx, g("a^@b", at), w, "^@ of a list of places")
    if m == 1:
        same(ctx, g("a^@b", at[0]), w, "^@ of a place")
    if m == 2:
        same(ctx, g("a^@b", R(at[0], at[0] + 1)), g("a^@b", [at[0]]),
             "^@ of a range")


def weave(ctx, k, n):
    v, xs = things(ctx, k, n)
    g = lambda code, *a: items(run(code, [v] + list(a)))
    m = ctx.choice("m", (1, 2, 3, 5))
    w = [part(k, xs[i::m]) for i in range(m)]
    same(ctx, g("aUWb", m), w, "UW")
    same(ctx, g("UWa"), g("aUW2"), "UW in 2")
    same(ctx, g("WV(aUWb)", m), part(k, xs), "UW, then WV")
    same(ctx, g("aUW0"), None, "UW in 0")
    if k == "text":
        same(ctx, g("WVa"), part(k, xs), "WV of a text")


def pairs(ctx, k, n, h, j):
    v, xs = things(ctx, k, n)
    u, ys = things(ctx, h, j, "y")
    g = lambda code: items(run(code, [v, u]))
    z = [[x, y] for x, y in zip(xs, ys)]
    same(ctx, g("aZb"), z, "Z")
    same(ctx, g("Z[a;b]"), z, "Z of a list of two")
    m = max(n, j)
    pad = lambda s, d: s + [d] * (m - len(s))
    same(ctx, g("ZD[a;b]"),
         [[x, y] for x, y in zip(pad(xs, ""), pad(ys, ""))], "ZD")
    same(ctx, g("[a;b]ZD'-"),
         [[x, y] for x, y in zip(pad(xs, "-"), pad(ys, "-"))],
         "ZD with a default")
    same(ctx, g("aZJb"),
         [x + y for x, y in zip(pad(xs, " "), pad(ys, " "))], "ZJ")
    same(ctx, g("ZJ[a;b]"),
         [x + y for x, y in zip(pad(xs, " "), pad(ys, " "))], "ZJ")
    same(ctx, g("aCPb"), [[x, y] for x in xs for y in ys], "CP")
    same(ctx, g("CP[a;b]"), [[x, y] for x in xs for y in ys], "CP")
    w = []
    for i in range(m):
        w += xs[i:i + 1] + ys[i:i + 1]
    w = "".join(w) if k == "text" and h == "text" else w
    same(ctx, g("aWVb"), w, "WV")
    same(ctx, g("WV[a;b]"), w, "WV of a list of two")
    lx = [part(k, xs)] if k == "text" else xs
    ly = [part(h, ys)] if h == "text" else ys
    same(ctx, g("aALb"), lx + ly, "AL")


def several(ctx, s):
    xs = [[ctx.string(f"x{i}_{j}", 1, FULL) for j in range(n)]
          for i, n in enumerate(s)]
    same(ctx, val("Za", xs), [[x[i] for x in xs]
                              for i in range(min(s) if s else 0)], "Z")
    same(ctx, val("ZDa", xs), [[x[i] if i < len(x) else "" for x in xs]
                               for i in range(max(s) if s else 0)], "ZD")
    same(ctx, val("ZJa", xs),
         ["".join([x[i] if i < len(x) else " " for x in xs])
          for i in range(max(s) if s else 0)], "ZJ")
    w = [[]]
    for x in xs:
        w = [p + [y] for p in w for y in x]
    same(ctx, val("CPa", xs), w, "CP")
    w = []
    for i in range(max(s) if s else 0):
        for x in xs:
            w += x[i:i + 1]
    same(ctx, val("WVa", xs), w if s else "", "WV")
    same(ctx, val("FLa", xs), [y for x in xs for y in x], "FL")
    if s and min(s) == max(s):
        same(ctx, val("Z(Za)", xs), xs if s and s[0] else [], "Z of Z")


def added(ctx, k, n):
    v, xs = things(ctx, k, n)
    t = ctx.string("t", 1, FULL)
    g = lambda code, *a: items(run(code, [v] + list(a)))
    ys = [part(k, xs)] if k == "text" else xs
    same(ctx, g("aAEb", t), ys + [t], "AE")
    same(ctx, g("aPEb", t), [t] + ys, "PE")
    same(ctx, g("aALb", t), ys + [t], "AL")
    same(ctx, g("aAEb", [t]), ys + [[t]], "AE of a list")
    same(ctx, g("aPEb", [t]), [[t]] + ys, "PE of a list")
    same(ctx, g("aALb", [t, [t]]), ys + [t, [t]], "AL of a list")
    m = ctx.choice("m", (-1, 0, 1, 2))
    same(ctx, g("aRLb", m), ys * m if m > 0 else [], "RL")
    same(ctx, g("x:a;xAL:b;x", [t]), ys + [t], "AL:")
    same(ctx, g("#a"), str(n), "#")
    same(ctx, g("ENa"), [[str(i), x] for i, x in enumerate(xs)], "EN")
    same(ctx, g("x:a;y:xAEb;z:xRL2;{a}M x", t), xs, "the operand stays")


def replaced(ctx, k, n):
    v, xs = things(ctx, k, n)
    if not n:
        return ctx.check(True, "nothing to replace")
    i = ctx.int("i", -5, 6)
    t = ctx.string("t", 1, FULL)
    g = lambda code, *a: items(run(code, [v] + list(a)))
    p = i % n
    w = [t if q == p else x for q, x in enumerate(xs)]
    same(ctx, g("aRAbc", i, t), part(k, w), "RA")
    same(ctx, g("aRAbc", [i], t), part(k, w), "RA at one place")
    same(ctx, g("aRAbc", [i, i + 1], t),
         part(k, [t if q == p or q == (i + 1) % n else x
                  for q, x in enumerate(xs)]), "RA at two places")
    w = list(xs)
    w[p] = t
    w[(i + 1) % n] = "-"
    same(ctx, g("aRAbc", [i, i + 1], [t, "-"]), part(k, w),
         "RA at two places by two")
    same(ctx, g("x:a;y:xRAbc;{a}M x", i, t), xs, "the operand stays")


def choices(ctx, k, n):
    v, xs = things(ctx, k, n)
    m = ctx.choice("m", tuple(range(n + 2)))

    def comb(ys, r):
        if r == 0:
            return [[]]
        return [[y] + c for i, y in enumerate(ys)
                for c in comb(ys[i + 1:], r - 1)]

    def perm(ys):
        if not ys:
            return [[]]
        return [[y] + c for i, y in enumerate(ys)
                for c in perm(ys[:i] + ys[i + 1:])]

    g = lambda code, *a: items(run(code, [v] + list(a)))
    same(ctx, g("aCBb", m), [part(k, c) for c in comb(xs, m)], "CB")
    if n < 4:
        same(ctx, g("PMa"), [part(k, c) for c in perm(xs)], "PM")


def counted(ctx, k, n):
    v, xs = things(ctx, k, n)
    same(ctx, val("#UQa", v), len(uniq(xs)), "number of different items")
    same(ctx, items(run("UQa", [v])), part(k, uniq(xs)), "UQ")
    same(ctx, items(run("UQUQa", [v])), part(k, uniq(xs)), "UQ of UQ")
    same(ctx, items(run("FLa", [v])), part(k, xs), "FL of plain items")
    same(ctx, items(run("FAa", [v])), part(k, xs), "FA of plain items")


def uniq(xs):
    out = []
    for x in xs:
        if not any([x == y for y in out]):
            out.append(x)
    return out


def unique(ctx):
    xs = [ctx.string(f"x{i}", ctx.choice(f"n{i}", (0, 1)), FULL)
          for i in range(3)]
    same(ctx, val("UQa", xs + xs), uniq(xs), "UQ of texts")
    i = ctx.int("i", 0, 99)
    same(ctx, val("UQa", [i, str(i) + ".0", i, "0" + str(i), i]),
         [str(i), str(i) + ".0", "0" + str(i)], "UQ goes by text")


def unique_lists(ctx):
    xs = [[ctx.string(f"x{i}{j}", 1, FULL) for j in range(i % 2 + 1)]
          for i in range(3)]
    w = uniq(xs)
    same(ctx, val("UQa", [xs[0], xs[1], xs[2], xs[1], [], None, None, []]),
         w + [[], None], "UQ of lists")


def nested(ctx):
    x, y, z = [ctx.string(c, 1, FULL) for c in "xyz"]
    v = [x, [y, [z, []]], [], [[[x]], R(0, 2)], "ab"]
    same(ctx, items(run("FAa", [v])), [x, y, z, x, "0", "1", "ab"],
         "FA flattens all levels")
    same(ctx, items(run("FLa", [v])),
         [x, y, [z, []], [[x]], ["0", "1"], "ab"], "FL flattens one level")
    same(ctx, val("FLa", x), x, "FL of a text")
    same(ctx, val("FAa", x), x, "FA of a text")
    same(ctx, items(run("RVa", [v])),
         ["ab", [[[x]], ["0", "1"]], [], [y, [z, []]], x],
         "RV is of the outer list")


def grids(ctx):
    r = ctx.choice("r", (0, 1, 2, 3))
    c = ctx.choice("c", (0, 1, 2, 3))
    cells = lambda f, r, c: [[f(i, j) for j in range(c)] for i in range(r)]
    for op, f in (("CG", lambda i, j: [str(i), str(j)]),
                  ("ZG", lambda i, j: "0"), ("OG", lambda i, j: "1")):
        same(ctx, val(f"a{op}b", r, c), cells(f, r, c), op)
        same(ctx, val(f"{op}a", r), cells(f, r, r), f"unary {op}")
    same(ctx, val("EYa", r),
         cells(lambda i, j: "1" if i == j else "0", r, r), "EY")
    if r and c:
        same(ctx, val("x:aZGb;x@0@0:5;x", r, c),
             [["5" if i == j == 0 else "0" for j in range(c)]
              for i in range(r)], "the cells are separate")


def lines(ctx):
    s = ctx.string("s", 1, FULL)
    t = ctx.string("t", 2, FULL)
    ctx.assume(not "\n" in s and not "\n" in t)
    same(ctx, val("ZJa", s + "\n" + t), s + t[0] + "\n " + t[1],
         "ZJ of a text goes by its lines")
    same(ctx, val("ZJa", t), t[0] + "\n" + t[1], "ZJ of a line")


def bad(ctx):
    x = ctx.int("x")
    p = P("ab")
    for op in ("RV", "RF", "PZ", "QR", "QP", "EN", "UQ", "PM", "WV", "UW",
               "CP", "Z", "ZD", "ZJ", "<>", "CH", "H", "S"):
        same(ctx, val(f"{op} a", p), None, f"{op} of a pattern")
    for op in ("RV", "RF", "PZ", "QR", "QP", "EN", "PM", "WV", "UW",
               "<>", "CH"):
        same(ctx, val(f"{op} a", R(x, None)), None,
             f"{op} of an endless range")
    for op in ("Z", "CP", "WV"):
        same(ctx, val(f"a{op}b", [x], p), None, f"{op} with a pattern")
    for op in ("<>", "CH", "^@", "RL", "CB", "UW"):
        same(ctx, val(f"a{op}b", [x], p), None, f"{op} by a pattern")
    same(ctx, val("aZb", [x, x], R(x, None)),
         [[str(x), str(x)], [str(x), str(x + 1)]], "Z with an endless range")
    same(ctx, val("aRAbc", [x], None, 5), [str(x)], "RA nowhere")
    same(ctx, val("aRAbc", [x], p, 5), None, "RA at a pattern")
