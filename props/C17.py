"""Higher-order operators: map, filter and call functions over items."""

BOUNDS = {
    "quick": "lists of up to 3 texts of 1 character over all of Unicode, "
             "texts of up to 3 characters, ranges of up to 3 items at any "
             "place, nested lists to depth 3; every truth value a predicate "
             "can give; grids of up to 3 by 3; recursion to depth 5",
    "thorough": "lists, texts and ranges of up to 5 items",
}
BOUNDS["quick"] += ("; maps and zips over 9 items with one arbitrary item")

SHAPES = ((), (1,), (0, 2), (2, 1, 0))
TRUTHS = ("0", "1", "", "00", "0.0", "x", "-1", "nil", "[]", "[0]")
KIND = ("list", "text", "range")


def units(tier):
    m = 5 if tier == "thorough" else 3
    us = []
    for k in KIND:
        for n in range(m + 1):
            for f in ("maps", "filters", "order", "swapped", "constants",
                      "unary"):
                us.append((f"{f} {k} {n}", f, {"k": k, "n": n}))
            for j in range(m + 1):
                us.append((f"zip {k} {n},{j}", "zips",
                           {"k": k, "n": n, "j": j}))
    for k in KIND:
        us.append((f"long maps {k}", "maps", {"k": k, "n": 8}))
        us.append((f"long zip {k}", "zips", {"k": k, "n": 8, "j": 6}))
        us.append((f"long zip {k} 2", "zips", {"k": k, "n": 6, "j": 9}))
    for s in SHAPES:
        us.append((f"nested {s}", "nested", {"s": s}))
    for n in range(3):
        us.append((f"predicates {n}", "predicates", {"n": n}))
    for n in range(4):
        us.append((f"items that are texts {n}", "text_items", {"n": n}))
    us.append(("grid", "grid", {}))
    us.append(("calls", "calls", {}))
    us.append(("text evaluation", "texts", {}))
    us.append(("recursion", "recursion", {}))
    us.append(("scope", "scope", {}))
    us.append(("no function", "nothing", {}))
    us.append(("lists of functions", "functions", {}))
    return us


def things(ctx, k, n, p="x"):
    """(the value, its items as texts)"""
    if k == "list":
        xs = [ctx.string(f"{p}{i}", 1, FULL) for i in range(n)]
        return xs, xs
    if k == "text":
        s = ctx.string(p, n, FULL)
        return s, [c for c in s]
    lo = ctx.int(p, -99, 99)
    return R(lo, lo + n), [str(lo + i) for i in range(n)]


def maps(ctx, k, n):
    v, xs = things(ctx, k, n)
    same(ctx, val("{g}M a", v), [[x] for x in xs], "M")
    same(ctx, val("{a}M a", v), xs, "M with the identity")
    same(ctx, val("{a.'!}M a", v), [x + "!" for x in xs], "M")
    same(ctx, val("{g}ME a", v), [[str(i), x] for i, x in enumerate(xs)],
         "ME")
    same(ctx, val("{g}MP a", v), [[x, y] for x, y in zip(xs, xs[1:])], "MP")
    same(ctx, val("{a.'-}MJ a", v), "".join([x + "-" for x in xs]), "MJ")
    same(ctx, val("{[a;'-]}MJ a", v), "".join([x + "-" for x in xs]),
         "MJ of lists")
    same(ctx, val("{[a;'-]}MF a", v),
         [y for x in xs for y in (x, "-")], "MF")
    same(ctx, val("{[[a]]}MF a", v), [[x] for x in xs],
         "MF flattens one level")
    same(ctx, val("{a}MF a", v), xs, "MF of plain results")
    if k == "range":
        lo = v.getLower()
        same(ctx, val("{2*a}MS a", v), sum([2 * (lo + i) for i in range(n)]),
             "MS")
        same(ctx, val("{[a;1]}MS a", v),
             [str(sum([lo + i for i in range(n)])), str(n)] if n else 0,
             "MS of lists")
    else:
        same(ctx, val("{#a}MS a", v), n, "MS")
    same(ctx, val("{[]}M a", v), [[] for x in xs], "M with a constant")
    same(ctx, val("{}M a", v), [None for x in xs], "M with no result")


def filters(ctx, k, n):
    v, xs = things(ctx, k, n)
    t = xs[0] if n else "q"
    c = ctx.choice("t", ("first", "5"))
    t = t if c == "first" else c
    y = [x for x in xs if x == t]
    z = [x for x in xs if not x == t]
    same(ctx, val("x:b;{aQx}FI a", v, t), y, "FI")
    same(ctx, val("x:b;{aQx}FN a", v, t), z, "FN")
    same(ctx, val("x:b;{bQx}FE a", v, t), y, "FE")
    same(ctx, val("{a<2}FE a", v), xs[:2], "FE by place")
    same(ctx, val("x:b;{bQx}FX a", v, t),
         [str(i) for i, x in enumerate(xs) if x == t], "FX")
    same(ctx, val("{a%2}FX a", v),
         [str(i) for i in range(n) if i % 2], "FX by place")
    same(ctx, val("x:b;{aQx}FJ a", v, t), "".join(y), "FJ")
    same(ctx, val("{1}FI a", v), xs, "FI keeps all")
    same(ctx, val("{0}FI a", v), [], "FI keeps none")


def unary(ctx, k, n):
    """Without a function, items are kept for being true themselves."""
    v, xs = things(ctx, k, n)
    t = [i for i, x in enumerate(xs) if not (x == "0" or x == "." and
                                             k != "range")]
    if k == "list":
        for x in xs:
            ctx.assume(not x == ".")
    if k == "text":
        ctx.assume(not "." in v)
    same(ctx, val("FI a", v), [xs[i] for i in t], "FI")
    same(ctx, val("FN a", v), [xs[i] for i in range(n) if i not in t], "FN")
    same(ctx, val("FX a", v), [str(i) for i in t], "FX")
    same(ctx, val("FJ a", v), "".join([xs[i] for i in t]), "FJ")
    same(ctx, val("FU a", [[x, "0"] for x in xs]),
         [[xs[i], "0"] for i in t], "FU")
    same(ctx, val("FU a", [y for x in xs for y in ([], [x, "0"], "")]),
         [[xs[i], "0"] for i in t], "FU passes over what is empty")


def order(ctx, k, n):
    """The function is called once for each item, from first to last."""
    v, xs = things(ctx, k, n)
    for op, w in (("M", xs), ("FI", xs), ("FN", xs), ("MJ", xs),
                  ("MF", xs), ("FJ", xs), ("SK", xs), ("DK", xs)):
        same(ctx, val(f"x:{{l AL:[a];a}} {op} a;l", v), w, f"calls of {op}")
    ks = [str(i) for i in range(n)]
    for op, w in (("ME", ks), ("FE", ks), ("FX", ks), ("MP", xs[:-1])):
        same(ctx, val(f"x:{{l AL:[a];a}} {op} a;l", v), w, f"calls of {op}")
    same(ctx, val("x:a;y:{x:9;a}M x;y", v), xs,
         "changing the variable mapped over")
    same(ctx, val("x:a;y:{a:9;1}M x;x" if k == "list" else
                  "x:a;y:{a:9;1}M x;{a}M x", v), xs,
         "changing the parameter")


def swapped(ctx, k, n):
    """The function may come second."""
    v, xs = things(ctx, k, n)
    for op in ("M", "ME", "MJ", "MF", "MP", "FI", "FN", "FE", "FX", "FJ",
               "MM", "SK", "DK"):
        p = "{a.'!}" if op != "MM" else "{a}"
        if op in ("SK", "DK"):
            p = "{A a}"
        same(ctx, items(run(f"a {op} {p}", [v])),
             items(run(f"{p} {op} a", [v])), f"{op} the other way round")
    same(ctx, items(run("a MS {#[a]}", [v])), str(n), "MS")


def constants(ctx, k, n):
    """A value in place of the function replaces every item."""
    v, xs = things(ctx, k, n)
    c = ctx.string("c", 1, FULL)
    if k != "text":
        same(ctx, val("b M a", v, c), [c] * n, "M of a text")
    same(ctx, val("a MJ b", c, v) if k != "text" else c * n, c * n,
         "MJ of a text")


def zips(ctx, k, n, j):
    v, xs = things(ctx, k, n)
    w, ys = things(ctx, "list" if k == "text" else "text", j, "y")
    want = [[x, y] for x, y in zip(xs, ys)]
    same(ctx, val("{g}MZ a b", v, w), want, "MZ")
    same(ctx, val("a MZ {g} b", v, w), want, "MZ, function second")
    same(ctx, val("{b.a}MZ b a", v, w), [x + y for x, y in want],
         "MZ the other way round")
    same(ctx, val("{g}MU(aZb)", v, w), want, "MU of zipped lists")


def nested(ctx, s):
    xs = [[ctx.string(f"x{i}_{j}", 1, FULL) for j in range(n)]
          for i, n in enumerate(s)]
    same(ctx, val("{g}MM a", xs), [[[y] for y in x] for x in xs], "MM")
    same(ctx, val("a MM{g}", xs), [[[y] for y in x] for x in xs], "MM")
    same(ctx, val("{a}MM a", ["".join(x) for x in xs]), xs, "MM of texts")
    same(ctx, val("{g}MU a", xs), xs, "MU: items become arguments")
    same(ctx, val("a MU{g}", xs), xs, "MU")
    same(ctx, val("{[b;a]}MU a", xs),
         [[x[1] if len(x) > 1 else None, x[0] if x else None] for x in xs],
         "MU: arguments by name")
    same(ctx, val("{#g>1}FU a", xs), [x for x in xs if len(x) > 1], "FU")
    h = [x + ["1", "0"] for x in xs]
    same(ctx, val("a FU{bQ1}", h), [x for x in h if x[1] == "1"],
         "FU by the second")
    same(ctx, val("{a}MF a", xs), [y for x in xs for y in x], "MF")
    same(ctx, val("{a}MJ a", xs), "".join([y for x in xs for y in x]),
         "MJ joins at every depth")
    same(ctx, val("{{g}M a}M a", xs), [[[y] for y in x] for x in xs],
         "M in M")
    same(ctx, val("{{g}MM a}M a", [xs]), [[[[y] for y in x] for x in xs]],
         "MM in M")
    same(ctx, val("{a}FI a", xs), [x for x in xs if x], "FI of lists")
    same(ctx, val("{b}FX a", xs),
         [str(i) for i, x in enumerate(xs) if x], "FX of lists")


def text_items(ctx, n):
    """Texts are unpacked by their characters."""
    s = ctx.string("s", n, FULL)
    t = ctx.choice("t", ("", "-1", "ab"))
    same(ctx, val("{g}MU[a;b]", s, t), [[c for c in s], [c for c in t]],
         "MU of texts")
    same(ctx, val("{g}MU a", [t, "-", s]),
         [[c for c in t], ["-"], [c for c in s]], "MU of texts")
    same(ctx, val("{a}MM a", [s, t]), [[c for c in s], [c for c in t]],
         "MM of texts")
    same(ctx, val("{a}MF a", [s, t]), [s, t], "MF of texts")
    d = ctx.int("d", -99, 99)
    same(ctx, val("{g}MU[a]", d), [[c for c in str(d)]], "MU of numbers")
    same(ctx, val("{g}M a", d), [[c] for c in str(d)], "M of a number")
    same(ctx, val("{g}MP a", d),
         [[x, y] for x, y in zip(str(d), str(d)[1:])], "MP of a number")


def predicates(ctx, n):
    """Whatever a predicate gives counts by its truth."""
    ts = [ctx.choice(f"t{i}", TRUTHS) for i in range(n)]
    good = [i for i, t in enumerate(ts) if t in ("1", "x", "-1", "[0]")]
    vs = [None if t == "nil" else [] if t == "[]" else ["0"] if t == "[0]"
          else t for t in ts]
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
    y = [xs[i] for i in good]
    same(ctx, val("x:b;{x@a}FX a", xs, vs), [str(i) for i in good], "FX")
    same(ctx, val("x:b;{x@a}FE a", xs, vs), y, "FE")
    same(ctx, val("x:b;{x@a}FI ,#a", xs, vs), [str(i) for i in good], "FI")
    same(ctx, val("x:b;{x@a}FN ,#a", xs, vs),
         [str(i) for i in range(n) if i not in good], "FN")
    same(ctx, val("x:b;{x@a}FU {[a]}M,#a", xs, vs),
         [[str(i)] for i in good], "FU")
    same(ctx, val("FX a", vs), [str(i) for i in good], "unary FX")
    same(ctx, val("#FI a", vs), len(good), "unary FI")
    same(ctx, val("#FN a", vs), n - len(good), "unary FN")
    same(ctx, val("#FU({[a]}M a)", vs), len(good), "unary FU")


def grid(ctx):
    r = ctx.choice("r", (0, 1, 2, 3))
    c = ctx.choice("c", (0, 1, 2, 3))
    want = [[[str(i), str(j)] for j in range(c)] for i in range(r)]
    same(ctx, val("{g}MC a", [r, c]), want, "MC of a list")
    same(ctx, val("{g}MC a", R(r, c)) if c > r + 1 else want, want
         if c <= r + 1 else [[[str(i), str(j)] for j in range(r + 1)]
                             for i in range(r)], "MC of a range")
    sq = [[[str(i), str(j)] for j in range(r)] for i in range(r)]
    same(ctx, val("{g}MC a", r), sq, "MC of a number")
    same(ctx, val("{g}MC a", [r]), sq, "MC of a list of one")
    x = ctx.string("x", 1, FULL)
    same(ctx, val("a MC b", x, [r, c]), [[x] * c for i in range(r)],
         "MC of a value")
    same(ctx, val("{a*10+b}MC a", [r, c, 5]),
         [[str(10 * i + j) for j in range(c)] for i in range(r)],
         "MC, more numbers than two")
    same(ctx, val("{g}MC a", []), None, "MC of nothing")


def calls(ctx):
    n = ctx.choice("n", (0, 1, 2, 3))
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
    same(ctx, val("{g}V a", xs), xs, "V of a function and a list")
    same(ctx, val("a V{g}", xs), xs, "V of a list and a function")
    same(ctx, val("{g}V a", "".join(xs)) if n else [], xs,
         "V of a function and a text")
    same(ctx, val("{b}V a", xs), xs[1] if n > 1 else None,
         "V: second argument")
    same(ctx, val("x:{#g};(x a)", xs), 1, "a list is one argument")
    if n:
        same(ctx, val("x:{g};(x " + " ".join("abc"[:n]) + ")", *xs), xs,
             "call")
        same(ctx, val("({g} " + " ".join("abc"[:n]) + ")", *xs), xs,
             "call at once")


def texts(ctx):
    x, y = ctx.int("x", -99999, 99999), ctx.int("y")
    same(ctx, val('V"a+b"', x, y), x + y, "V of a text, in this scope")
    same(ctx, val('V"a:5";a', x), 5, "V changes variables of this scope")
    same(ctx, val('"a-b"V[b;a]', x, y), y - x, "V of a text with arguments")
    same(ctx, val('"a:5"V[b];a', x, y), x, "in its own scope")
    same(ctx, val("{V'a}M[a;b]", x, y), [str(x), str(y)],
         "V in a function")
    same(ctx, val('x:a;V"x:x+1;x*2"', x), 2 * (x + 1), "statements")
    same(ctx, val('V"I a>0 {y:1}EL{y:2}";y', x), 1 if x > 0 else 2,
         "commands")
    same(ctx, val('V""', x), None, "nothing")
    same(ctx, val("V RP a", x), x, "V of the repr of a number")
    same(ctx, val("V{a}", x), x, "V of a function runs it here")
    same(ctx, val('(V"{a+1}" a)', x), x + 1, "a function from a text")
    same(ctx, val('f:V"_*2";(f a)', x), 2 * x, "a function from a text")


def recursion(ctx):
    n = ctx.choice("n", (0, 1, 2, 3, 4, 5))
    x = ctx.int("x", -9, 9)
    fact = 1
    for i in range(n):
        fact *= i + 1
    same(ctx, val("x:{a?a*RE(a-1)1};(x a)", n), fact, "RE in an expression")
    same(ctx, val("x:{a?a*(f a-1)1};(x a)", n), fact, "f calls the same")
    fib = [0, 1, 1, 2, 3, 5][n]
    same(ctx, val("x:{a<2?a(RE(a-1))+RE(a-2)};(x a)", n), fib, "twice")
    same(ctx, val("x:{b?(f a+1b-1)a};(x a b)", x, n), x + n,
         "with two arguments")
    same(ctx, val("x:{a?(y a-1).'x\"\"};y:{a?(x a-1).'y\"\"};(x a)", n),
         ("".join(["xy"[i % 2] for i in range(n)]))[::-1], "mutual")
    same(ctx, val("x:{b:a;a?RE(a-1)0;b};(x a)",
                  n), n, "locals of each call are its own")


def scope(ctx):
    """Functions have their own a-g; the other variables are shared."""
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("{a:9;b:8}M[1;2];[a;b]", x, y), [str(x), str(y)],
         "the caller's variables stay")
    same(ctx, val("{h:a}M[1;a];h", x), x, "globals change")
    same(ctx, val("{b}M[a;b]", x, y), [None, None],
         "no argument: nil, not the caller's")
    same(ctx, val("{c}M[a;b]", x, y), [None, None], "neither third")
    same(ctx, val("{b:a;{b}M[1]}M[a]", x), [[None]], "functions in functions")
    same(ctx, val("h:a;{h+a}M[b]", x, y), [str(x + y)], "globals are seen")
    same(ctx, val("{#g}M[a;b]", x, y),
         ["1", "1"], "g is the list of arguments")
    same(ctx, val("{g@0:9;a}M[a;b]", x, y), [str(x), str(y)],
         "g is its own list")
    same(ctx, val("{c:a+b;c}MU[[a;b];[b;a]]", x, y), [str(x + y)] * 2,
         "locals")


def nothing(ctx):
    """What is no function or no list gives nil."""
    x = ctx.string("x", 1, FULL)
    bad = ctx.choice("bad", ("{a+1}", "`a`"))
    for op in ("M", "ME", "MJ", "MM", "MP", "MU", "FI", "FN", "FE", "FU",
               "FX", "SK", "DK"):
        if op == "MJ":
            continue
        same(ctx, val(f"{{a}} {op} {bad}", x), None, f"{op} of no list")
    for op in ("ME", "MP", "MU", "FI", "FN", "FE", "FU", "FX", "SK", "DK"):
        same(ctx, val(f"a {op} [a;1]", x), None, f"{op} of no function")
    same(ctx, val(f"{{a}}MZ[a]{bad}", x), None, "MZ of no list")
    same(ctx, val("aMZ[a][a]", x), None, "MZ of no function")
    for op in ("FI", "FN", "FX", "FU"):
        same(ctx, val(f"{op} {bad}", x), None, f"unary {op} of no list")


def functions(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("[{a+1};{2*a}]M[a;b]", x, y),
         [[str(x + 1), str(y + 1)], [str(2 * x), str(2 * y)]],
         "every function mapped over the list")
    same(ctx, val("h:[{a+1};{2*a}];{(a 3)}M h", x), ["4", "6"],
         "mapping over functions")
    same(ctx, val("h:[{a+1};{2*a}];[(h@0 a);(h@1 a)]", x),
         [str(x + 1), str(2 * x)], "calling items")
    same(ctx, val("{(a 1)}M({_+a}M[5;6])"), ["6", "7"], "functions mapped to")
