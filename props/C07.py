"""Reading by index and slice: cyclic, extended, the same for every iterable."""

BOUNDS = {
    "quick": "strings (any characters) and lists of 0-4 items, ranges with "
             "any integer ends (up to 4 items when enumerated), every "
             "integer index, slice ends from -2n-1 to 2n+1 or open, index "
             "lists nested to depth 2",
    "thorough": "strings and lists of up to 7 items, slice ends from -3n-1 "
                "to 3n+1",
}
BOUNDS["quick"] += ("; lists, texts and ranges of 9 items with one arbitrary index")

# the ways a program can index: a variable, a computed value, an index held
# in a variable or computed
FORMS = ("a@b", "({a}a)@b", "({a}a)@(b+0)", "x:a x@b", "(a)@b")


def units(tier):
    t = tier == "thorough"
    n = 7 if t else 4
    us = []
    for k in range(n + 1):
        for f in range(len(FORMS)):
            us.append((f"string index len={k} form={f}", "index",
                       {"kind": "str", "n": k, "form": f}))
            us.append((f"list index len={k} form={f}", "index",
                       {"kind": "list", "n": k, "form": f}))
    for f in range(len(FORMS)):
        for k in range(n + 1):
            us.append((f"range index len={k} form={f}", "index",
                       {"kind": "range", "n": k, "form": f}))
        us.append((f"range index any length form={f}", "range_index",
                   {"form": f}))
    us.append(("text index", "text_index", {"n": 2}))
    for kind in ("str", "list", "range"):
        for k in range(1, n + 1):
            for v in (0, 1):
                us.append((f"slice {kind} len={k} via={v}", "slice_",
                           {"kind": kind, "n": k, "m": 3 if t else 2,
                            "via": v},
                       {"weight": k * k, "limits": {"range": 64}}))
                us.append((f"left right {kind} len={k} via={v}",
                           "leftright", {"kind": kind, "n": k,
                                         "m": 3 if t else 2, "via": v},
                           {"weight": k}))
    for kind in ("str", "list", "range"):
        for f in range(len(FORMS)):
            us.append((f"long {kind} index form={f}", "index",
                       {"kind": kind, "n": 11, "form": f}))
        us.append((f"long {kind} left right", "leftright",
                   {"kind": kind, "n": 10, "m": 1, "via": 0}))
        us.append((f"long {kind} slice", "slice_",
                   {"kind": kind, "n": 7, "m": 1, "via": 0},
                   {"weight": 20, "limits": {"range": 64}}))
    us.append(("range slice any ends", "range_slice", {}))
    us.append(("infinite range", "infinite", {}))
    for kind in ("str", "list", "range"):
        us.append((f"index list {kind}", "index_list", {"kind": kind}))
        us.append((f"left right list {kind}", "lr_list", {"kind": kind}))
    us.append(("deep index", "deep", {}))
    us.append(("deep slice", "deep_slice", {}))
    us.append(("index of lvalue list", "lval_list", {}))
    us.append(("not indexable", "bad", {}))
    return us


def make(ctx, kind, n, name="x"):
    """A Pip iterable of n items, and its items as texts."""
    if kind == "str":
        s = ctx.string(name, n)
        return S(s), [s[i] for i in range(n)]
    if kind == "list":
        xs = [ctx.int(f"{name}{k}") for k in range(n)]
        return L([S(x) for x in xs]), [str(x) for x in xs]
    lo = ctx.int(name + "lo")
    return R(lo, lo + n), [str(lo + k) for k in range(n)]


def seq(ctx, got, kind, want, label):
    """got is a piece of an iterable of the given kind."""
    ctx.record(items(got))
    if kind == "str":
        same(ctx, py(got), "".join(want), label)
    else:
        same(ctx, items(got), want, label)


def index(ctx, kind, n, form):
    v, xs = make(ctx, kind, n)
    i = ctx.int("i")
    got = val(FORMS[form], v, i)
    ctx.record(got)
    if n == 0:
        same(ctx, got, None, "indexing an empty iterable gives nil")
    else:
        same(ctx, got, xs[i % n], "index counts cyclically from 0")
        if form == 0:
            same(ctx, val("@a", v), xs[0], "unary @ is the first item")


def range_index(ctx, form):
    lo = ctx.int("lo")
    hi = ctx.int("hi")
    i = ctx.int("i")
    n = hi - lo
    ctx.assume((n <= 0) | ((i < n) & (i >= -n)))
    got = val(FORMS[form], R(lo, hi), i)
    ctx.record(got)
    if hi <= lo:
        same(ctx, got, None, "indexing an empty range gives nil")
    else:
        same(ctx, got, str(lo + i if i >= 0 else hi + i),
             "range index is cyclic")


def text_index(ctx, n):
    """An index that is not an integer text counts as the integer it starts
    with, or 0."""
    s = ctx.string("s", 3, alpha("abc"))
    t = ctx.string("t", n, alpha("0123-.x "))
    got = val("a@b", s, t)
    k = 0
    neg = t[0] == "-"
    body = t[1:] if neg else t.lstrip(" ")
    if not neg and body[:1] == "-":
        neg = True
        body = body[1:]
    digits = 0
    for c in body:
        if c not in "0123":
            break
        k = k * 10 + int(c)
        digits += 1
    if neg:
        k = -k
    same(ctx, got, s[k % 3], "an index is read as an integer")


def cut_at(v, n):
    """An end of a slice, counted from the end when it is negative."""
    return v + n if v < 0 else v


def expected(xs, lo, hi):
    n = len(xs)
    lo = cut_at(0 if lo is None else lo, n)
    hi = cut_at(n if hi is None else hi, n)
    return [xs[i % n] for i in range(lo, hi)]


def slice_(ctx, kind, n, m, via):
    v, xs = make(ctx, kind, n)
    b = m * n + 1
    lo = int(ctx.int("lo", -b, b))
    hi = int(ctx.int("hi", -b, b))
    k = int(ctx.int("open", 0, 2))
    if k == 1:
        ctx.assume(hi == 0)
        hi = None
    elif k == 2:
        ctx.assume(lo == 0)
        lo = None
    code = ("a@b", "({a}a)@b")[via]
    got = run(code, [v, R(lo, hi)])
    seq(ctx, got, kind, expected(xs, lo, hi),
        "a slice wraps around past the ends")


def leftright(ctx, kind, n, m, via):
    v, xs = make(ctx, kind, n)
    b = m * n + 1
    i = int(ctx.int("i", -b, b))
    a = ("a", "({a}a)")[via]
    seq(ctx, run(a + "@<b", [v, i]), kind, expected(xs, None, i),
        "@< is the slice up to an index")
    seq(ctx, run(a + "@>b", [v, i]), kind, expected(xs, i, None),
        "@> is the slice from an index")
    if i == 0:
        seq(ctx, run("@<" + a, [v]), kind, xs[:-1], "unary @< drops the last")
        seq(ctx, run("@>" + a, [v]), kind, xs[1:], "unary @> drops the first")


def range_slice(ctx):
    """In-bounds slices of a range of any size are ranges."""
    lo = ctx.int("lo")
    n = ctx.int("n", 1)
    s = ctx.int("s")
    e = ctx.int("e")
    ctx.assume(s >= -n)
    ctx.assume(e <= n)
    got = run("a@b", [R(lo, lo + n), R(s, e)])
    st = cut_at(s, n)
    en = cut_at(e, n)
    g = py(got)
    ctx.check(g[0] == "range", "an in-bounds slice of a range is a range")
    if en <= st:
        ctx.check(g[2] <= g[1], "an empty slice of a range is empty")
    else:
        ctx.check(g[1] == lo + st and g[2] == lo + en,
                  "a slice of a range has the right ends")
    k = ctx.int("k", 0)
    if k < en - st:
        same(ctx, val("a@b@c", R(lo, lo + n), R(s, e), k), str(lo + st + k),
             "an item of a slice of a range")


def infinite(ctx):
    lo = ctx.int("lo")
    low = lo
    v = R(lo, None)
    if ctx.bool("nolow"):
        ctx.assume(lo == 0)
        v = R(None, None)
    i = ctx.int("i")
    j = ctx.int("j")
    got = val("a@b", v, i)
    if i < 0:
        same(ctx, got, None, "an infinite range has no end to count from")
    else:
        same(ctx, got, str(low + i), "item of an infinite range")
    s = py(run("a@b", [v, R(i, j)]))
    if i < 0 or j < 0:
        same(ctx, s, None, "an infinite range has no end to count from")
    elif j <= i:
        ctx.check(s[0] == "range" and s[2] <= s[1], "empty slice")
    else:
        same(ctx, s, ("range", low + i, low + j), "slice of infinite range")
    if i >= 0:
        same(ctx, py(run("a@>b", [v, i])), ("range", low + i, None),
             "@> of an infinite range")
        s = py(run("a@<b", [v, i]))
        ctx.check(s[0] == "range" and s[1] == low and s[2] == low + i,
                  "@< of an infinite range")


def index_list(ctx, kind):
    v, xs = make(ctx, kind, 3)
    i = ctx.int("i")
    j = ctx.int("j")
    k = ctx.int("k")
    form = ctx.choice("form", ("a@b", "({a}a)@b"))
    want = [xs[i % 3], [xs[j % 3], xs[k % 3]], []]
    same(ctx, val(form, v, pip([i, [j, k], []])), want,
         "a list of indices gives the list of items, keeping its shape")
    same(ctx, val("a@[b]", v, i), [xs[i % 3]], "a one-element index list")


def lr_list(ctx, kind):
    v, xs = make(ctx, kind, 3)
    i = int(ctx.int("i", -4, 4))
    j = int(ctx.int("j", -4, 4))
    for op, side in (("@<", 0), ("@>", 1)):
        got = run("a" + op + "b", [v, pip([i, [j]])])
        ctx.check(isinstance(got, W.ptypes.List) and len(got) == 2,
                  op + " by a list gives a list")
        w = [expected(xs, x if side else None, None if side else x)
             for x in (i, j)]
        g = list(got)
        seq(ctx, g[0], kind, w[0], op + " by a list, first")
        seq(ctx, list(g[1])[0], kind, w[1], op + " by a list, nested")


def deep(ctx):
    s = ctx.string("s", 2)
    t = ctx.string("t", 3)
    i = ctx.int("i")
    j = ctx.int("j")
    k = ctx.int("k")
    v = pip([[s, t], [t]])
    form = ctx.choice("form", ("a@b@c@d", "({a}a)@b@c@d",
                               "x:a@b y:x@c y@d", "(a@b)@c@d"))
    row = [[s, t], [t]][i % 2]
    cell = row[j % len(row)]
    same(ctx, val(form, v, i, j, k), cell[k % len(cell)],
         "indexing repeats, each level cyclic")
    same(ctx, val("a@b@c@d", v, i, j, pip([k])), [cell[k % len(cell)]],
         "indexing repeats up to an index list")


def deep_slice(ctx):
    xs = [ctx.int(f"x{k}") for k in range(4)]
    v = pip(xs)
    lo = int(ctx.int("lo", -4, 3))
    i = ctx.int("i")
    part = expected([str(x) for x in xs], lo, None)
    n = len(part)
    for code in ("a@>b@c", "({a}a)@>b@c", "(a@>b)@c"):
        same(ctx, val(code, v, lo, i), part[i % n],
             "an item of a slice: " + code)
    same(ctx, items(run("a@>b@<c", [v, lo, 1])), part[:1],
         "a slice of a slice")


def lval_list(ctx):
    xs = [ctx.int(f"x{k}") for k in range(3)]
    i = ctx.int("i")
    lo = int(ctx.int("lo", 0, 3))
    hi = int(ctx.int("hi", 0, 3))
    same(ctx, val("[a b c]@d", *xs, i), str(xs[i % 3]),
         "indexing a list display")
    same(ctx, items(run("[a b c]@d", [*xs, R(lo, hi)])),
         [str(x) for x in xs[lo:hi]], "slicing a list display")


def bad(ctx):
    i = ctx.int("i")
    same(ctx, val("a@b", None, i), None, "nil cannot be indexed")
    same(ctx, val("a@b", P("x"), i), None, "a pattern cannot be indexed")
    same(ctx, val("a@b", "abc", None), None, "nil is no index")
    same(ctx, val("({a}a)@b", None, i), None, "nil cannot be indexed")
