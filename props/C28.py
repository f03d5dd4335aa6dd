"""Random operators: every outcome they may give, no other, and the same
again after the same seed."""

BOUNDS = {
    "quick": "every outcome of the random source; bounds of RR any integers "
             "and texts starting with 1 to 2 characters; RC and SH of "
             "lists, ranges and texts of up to 4 items (texts over all of "
             "Unicode), RR over lists of up to 3 bounds; up to 3 draws after "
             "each of two seeds; which outcomes are possible for up to 4 "
             "items",
    "thorough": "RC and SH of up to 5 items, up to 4 draws",
}

ASSUMPTIONS = [
    "random.random gives one of the multiples of 1/8 from 0 to below 1, "
    "random.randrange any integer of its range, random.shuffle any order; "
    "after seeding they depend only on the seed and the draws made since"]


def units(tier):
    t = tier == "thorough"
    us = []
    m = 5 if t else 4
    for how in ("RRa", "0RRa", "uRRa", "bRRa"):
        us.append((f"{how}", "rr", {"how": how}))
    for s in ("1", "01", "10"):
        us.append((f"RR text {s}", "rrtext", {"s": s}))
    for n in range(4):
        us.append((f"RR list {n}", "rrlist", {"n": n}, {"weight": n}))
        us.append((f"RR nested {n}", "rrnest", {"n": n}))
    us.append(("RR odd", "rrodd", {}))
    for k in ("list", "range", "text", "mixed"):
        for n in range(m + 1):
            us.append((f"RC {k} {n}", "rc", {"k": k, "n": n}))
            us.append((f"SH {k} {n}", "sh", {"k": k, "n": n},
                       {"weight": 2 ** n}))
    us.append(("RC odd", "odd", {}))
    us.append(("RC long text", "rclong", {"s": 10}))
    us.append(("r", "unit_r", {}))
    for k in range(6):
        for n in range(1, 3 if t else 2):
            us.append((f"seed {n} {k}", "seed", {"n": n, "k": k, "s": None},
                       {"weight": 9}))
        us.append((f"seed 2 {k}, given", "seed", {"n": 2, "k": k, "s": "12"},
                   {"weight": 9}))
    us.append(("seed numbers", "seeds", {}))
    # outcomes that must be possible
    for n in range(1, m + 1):
        for i in range(n):
            for how in ("RRa", "aRRb", "RRt", "-aRRb"):
                us.append((f"{how} of {n} gives {i}", "can_rr",
                           {"how": how, "n": n, "i": i},
                           {"must": f"{i} for {how} of {n}"}))
            for k in ("list", "range", "text"):
                us.append((f"RC {k} of {n} gives {i}", "can_rc",
                           {"k": k, "n": n, "i": i},
                           {"must": f"item {i} of {n} for RC"}))
    for n in range(1, 5):
        for p in perms(n):
            for k in ("list", "range", "text"):
                if n < 4 or k == "list":
                    us.append((f"SH {k} gives {p}", "can_sh",
                               {"k": k, "p": p},
                               {"must": f"the order {p} for SH"}))
    for a in range(2):
        for b in range(3):
            us.append((f"RR [2;3] gives [{a};{b}]", "can_list",
                       {"a": a, "b": b}, {"must": f"[{a};{b}]"}))
    us.append(("r may differ", "can_differ", {"code": "[r;r]"},
               {"must": "two different values of r"}))
    us.append(("seeds may differ", "can_differ",
               {"code": "r:1 x:RR9 r:2 [x;RR9]"},
               {"must": "different numbers after different seeds"}))
    us.append(("text seeds may differ", "can_differ",
               {"code": "r:\"ab\" x:RR9 r:\"ac\" [x;RR9]"},
               {"must": "different numbers after different seeds"}))
    for a, b in ((120, 129), (10, -10), (1, "1.5"), ("abc", "abd"),
                 ("a longer text 1", "a longer text 2"), ("x", "X"),
                 ("ab", "ba"), (123456789012, 123456789013), ("5a", "5b"),
                 ("5", "5a"), ("1.5", "1.25"), ("0", ""), ("ab", "ab "),
                 ([1], [2]), ([1, [2]], [1, [3]]), (None, 7)):
        us.append((f"seeds {a} and {b} may differ", "can_differ2",
                   {"a": a, "b": b},
                   {"must": "different numbers after different seeds"}))
    us.append(("draws differ", "can_differ", {"code": "r:1 [RR9;RR9]"},
               {"must": "different numbers one after another"}))
    us.append(("r small", "can_r", {"lo": 0, "hi": 1},
               {"must": "a value of r below 1/4"}))
    us.append(("r large", "can_r", {"lo": 3, "hi": 4},
               {"must": "a value of r of 3/4 or more"}))
    return us


def perms(n):
    if n == 0:
        return [[]]
    out = []
    for p in perms(n - 1):
        for i in range(n):
            out.append(p[:i] + [n - 1] + p[i:])
    return out


def whole(ctx, x, label):
    """The int a Scalar's text spells, checked to be one."""
    ctx.check(isinstance(x, str), label + " is a Scalar")
    v = int(x)
    ctx.check(str(v) == x, label + " is an integer")
    return v


def rr(ctx, how):
    a = ctx.int("a")
    b = ctx.int("b")
    st = state(True)
    lo = b if how[0] == "b" else 0
    got = py(run(how, [a, b], st))
    err = ctx.errors()
    if lo < a:
        ctx.check(got is not None, "a nonempty range gives a number",
                  lambda: f"{how} {a} {b}")
        v = whole(ctx, got, "RR")
        ctx.check(lo <= v, "RR is no less than the lower bound")
        ctx.check(v < a, "RR is less than the upper bound")
        ctx.check(err == "", "without a warning")
    else:
        ctx.check(got is None, "an empty range gives nil")
        ctx.check(err != "", "an empty range warns")


def rrtext(ctx, s):
    """Bounds given as texts: the integer part of the number they start."""
    d = [ctx.int(f"d{i}", 0, 9) for i in range(len(s))]
    t = "".join("." + str(x) if k == "0" and i else str(x)
                for i, (k, x) in enumerate(zip(s, d)))
    n = d[0] if s[-1] == "0" or len(s) == 1 else d[0] * 10 + d[1]
    got = py(run("RRa", [t + "q"]))
    if n > 0:
        v = whole(ctx, got, "RR")
        ctx.check(v >= 0, "no less than 0")
        ctx.check(v < n, "less than the number")
    else:
        ctx.check(got is None, "nil for an empty range")


def rrlist(ctx, n):
    xs = [ctx.int(f"x{i}", -1) for i in range(n)]
    for how, lo in (("RRa", 0), ("2RRa", 2)):
        got = py(run(how, [xs]))
        ctx.check(isinstance(got, list) and len(got) == n,
                  how + " of a list is a list")
        for g, x in zip(got, xs):
            if lo < x:
                v = whole(ctx, g, "an item")
                ctx.check(v >= lo and v < x, "an item is in its range")
            else:
                ctx.check(g is None, "an item of no range is nil")


def rrnest(ctx, n):
    x = ctx.int("x", 1)
    got = py(run("RRa", [[[x] * n, x]]))
    ctx.check(isinstance(got, list) and len(got) == 2
              and isinstance(got[0], list) and len(got[0]) == n, "shape")
    for g in got[0] + [got[1]]:
        v = whole(ctx, g, "an item")
        ctx.check(v >= 0 and v < x, "in its range")
    # over a range, item by item
    m = ctx.int("m", 1, 3)
    got = py(run("RR(1,a+1)", [m]))
    ctx.check(isinstance(got, list) and len(got) == m, "range in, list out")
    for i in range(len(got)):
        v = whole(ctx, got[i], "an item")
        ctx.check(v >= 0 and v <= i, "in its range")


def rrodd(ctx):
    a = ctx.choice("a", [None, ("pattern", "x")])
    for how in ("RRa", "0RRa"):
        st = state(True)
        if a is not None or how == "RRa" or how == "0RRa":
            same(ctx, py(run(how, [a], st)), None, f"{how} of {a}")
            ctx.check(ctx.errors() != "", "warns")


def things(ctx, k, n):
    """An iterable of n items, and its items as Python values."""
    if k == "list":
        xs = [ctx.int(f"x{i}") for i in range(n)]
        return xs, [str(x) for x in xs]
    if k == "mixed":
        c = [ctx.choice(f"c{i}", ["t", None, ["1", "t"]]) for i in range(n)]
        return c, c
    if k == "range":
        lo = ctx.int("lo")
        return ("range", lo, lo + n), [str(lo + i) for i in range(n)]
    t = ctx.string("t", n, FULL)
    return t, [t[i] for i in range(n)]


def rc(ctx, k, n):
    v, xs = things(ctx, k, n)
    st = state(True)
    got = py(run("x:RCa xALa", [v], st))
    ctx.errors()
    st = state(True)
    a = pip(v)
    got = py(run("RCa", [a], st))
    err = ctx.errors()
    if n == 0:
        ctx.check(got is None and err != "", "nil with a warning")
        return
    ctx.check(err == "", "no warning")
    if k == "mixed":
        ctx.check(got in xs, "RC gives an item")
    else:
        ctx.check(isinstance(got, str), "a Scalar")
        hit = False
        for x in xs:
            hit = hit | (got == x)
        ctx.check(hit, "RC gives an item", lambda: f"{got} of {xs}")
    same(ctx, items(a), xs if k != "text" else v, "its operand is kept")


def sh(ctx, k, n):
    v, xs = things(ctx, k, n)
    st = state(True)
    a = pip(v)
    got = py(run("SHa", [a], st))
    ctx.check(ctx.errors() == "", "no warning")
    ctx.check(isinstance(got, str if k == "text" else list),
              "text for text, list otherwise")
    ctx.check(len(got) == n, "as many items")
    got = [got[i] for i in range(len(got))]
    # distinct items (for numbers and characters): each one occurs
    if k == "mixed":
        for x in xs:
            ctx.check(len([1 for y in xs if y == x])
                      == len([1 for y in got if y == x]), "as often")
    else:
        for i in range(n):
            for j in range(i):
                ctx.assume(xs[i] != xs[j])
        for x in xs:
            hit = False
            for g in got:
                hit = hit | (g == x)
            ctx.check(hit, "each item occurs", lambda: f"{got} of {xs}")
    same(ctx, items(a), xs if k != "text" else v, "its operand is kept")


def odd(ctx):
    a = ctx.choice("a", [None, ("pattern", "x"), "", []])
    st = state(True)
    same(ctx, py(run("RCa", [a], st)), None, f"RC of {a}")
    ctx.check(ctx.errors() != "", "RC warns")
    st = state(True)
    w = a if a in ("", []) else None
    same(ctx, py(run("SHa", [a], st)), w, f"SH of {a}")
    if w is None:
        ctx.check(ctx.errors() != "", "SH warns")


def rclong(ctx, s):
    t = "abcdefghij"[:s - 1] + ctx.string("c", 1, FULL)
    got = py(run("RCa", [t]))
    ctx.check(len(got) == 1, "a character")
    hit = False
    for c in t:
        hit = hit | (got == c)
    ctx.check(hit, "of the text")


def unit_r(ctx):
    same(ctx, val("x:r;y:r;[x>=0;x<1;y>=0;y<1]"), ["1"] * 4, "0 <= r < 1")


SEEDS = ["5", "a", "12"]
DRAWS = ["RRb", "RC[1;2;3;4]", "3RRb+3", "r", "SH\"abc\"", "RR[b;b]"]


def seeds(ctx):
    """An arbitrary integer as the seed."""
    s = ctx.int("s")
    b = ctx.int("b", 1)
    got = py(run("r:a;x:[RRb;RRb;5RR9];r:a;y:[RRb;RRb;5RR9];[x;y]", [s, b]))
    same(ctx, got[0], got[1], "the same draws")
    t = ctx.string("t", 2, FULL)
    got = py(run("r:a;x:[RRb;RRb;5RR9];r:a;y:[RRb;RRb;5RR9];[x;y]", [t, b]))
    same(ctx, got[0], got[1], "the same draws")


def seed(ctx, n, k, s):
    """The same draws after the same seed give the same."""
    s = s or ctx.choice("s", SEEDS)
    b = ctx.int("b", 1)
    draws = ";".join(DRAWS[(k + i) % len(DRAWS)] for i in range(n))
    other = ctx.choice("o", ["", "r:7;RRb;", "RRb;RC\"xyz\";"][:n + 1])
    got = py(run(f"r:a;x:[{draws}];{other}r:a;y:[{draws}];[x;y]",
                 [s, b]))
    same(ctx, got[0], got[1], "the same draws")


def can_rr(ctx, how, n, i):
    if how == "RRa":
        got = py(run("RRa", [n]))
    elif how == "RRt":
        got = py(run("RRa", [f"{n}.7x"]))
    elif how == "-aRRb":
        got = py(run("(aRRb)-a", [-2, n - 2]))
    else:
        got = py(run("(aRRb)-a", [3, 3 + n]))
    ctx.assume(got == str(i))
    ctx.check(got == str(i), "possible")


def thing(k, n):
    if k == "list":
        return [10 + i for i in range(n)], [str(10 + i) for i in range(n)]
    if k == "range":
        return ("range", 10, 10 + n), [str(10 + i) for i in range(n)]
    return "abcdef"[:n], list("abcdef"[:n])


def can_rc(ctx, k, n, i):
    v, xs = thing(k, n)
    got = py(run("RCa", [v]))
    ctx.assume(got == xs[i])
    ctx.check(got == xs[i], "possible")


def can_sh(ctx, k, p):
    v, xs = thing(k, len(p))
    got = py(run("SHa", [v]))
    want = [xs[i] for i in p]
    if k == "text":
        want = "".join(want)
    ctx.assume(got == want)
    ctx.check(got == want, "possible")


def can_list(ctx, a, b):
    got = py(run("RR[2;3]"))
    ctx.assume(got == [str(a), str(b)])
    ctx.check(got == [str(a), str(b)], "possible")


def can_differ(ctx, code):
    got = py(run(code))
    ctx.assume(got[0] != got[1])
    ctx.check(got[0] != got[1], "possible")


def can_differ2(ctx, a, b):
    got = py(run("r:a;x:RR9;r:b;[x;RR9]", [a, b]))
    ctx.assume(got[0] != got[1])
    ctx.check(got[0] != got[1], "possible")


def can_r(ctx, lo, hi):
    got = val("[r*4>=a;r*4<b]", lo, hi)
    ctx.assume(got == ["1", "1"])
    ctx.check(got == ["1", "1"], "possible")
