"""Sorting: a stable rearrangement by number, by text or by key."""

BOUNDS = {
    "quick": "lists of up to 4 integers of any size or decimals, texts "
             "starting with integers -2 to 9, up to 3 texts of up to 2 "
             "characters over all of Unicode, texts of up to 4 characters, "
             "ranges of up to 4 items at any place, lists of up to 3 lists "
             "of up to 2 items, keys that are numbers, texts, lists or "
             "anything else",
    "thorough": "lists of up to 5 integers, 4 texts and texts of 5 "
                "characters",
}
BOUNDS["quick"] += ("; one arbitrary integer or text at any place among nine; keys that"
                    " are ranges, nil, patterns or functions")


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(6 if t else 5):
        us.append((f"integers {n}", "integers", {"n": n}))
        us.append((f"ties {n}", "ties", {"n": n}, {"weight": n}))
        us.append((f"characters {n}", "characters", {"n": n}))
        us.append((f"digits {n}", "digits", {"n": n}))
        us.append((f"range {n}", "ranges", {"n": n}))
    for n in range(5 if t else 4):
        for s in ("1", "2", "01"):
            us.append((f"texts {n}, {s}", "texts", {"n": n, "s": s},
                       {"weight": n}))
        for c in range(len(KEYS)):
            if c not in (1, 3, 7, 8, 9) or n < 3 or c == 3 or t:
                us.append((f"keys {n}, {c}", "keys", {"n": n, "c": c},
                           {"weight": 2 * n}))
        us.append((f"kinds {n}", "kinds", {"n": n}, {"weight": n}))
        us.append((f"decimals {n}", "decimals", {"n": n}))
        for s in (1, 2):
            us.append((f"lists {n} of {s}", "lists", {"n": n, "s": s},
                       {"weight": n}))
    us.append(("one among nine", "among", {}, {"weight": 9}))
    us.append(("one text among nine", "among_texts", {}, {"weight": 9}))
    us.append(("no order", "bad", {}))
    us.append(("inputs kept", "kept", {}))
    return us


def order(keys, less, down=False):
    """The places of the keys in sorted order, equal ones as they come."""
    out = []
    for i, k in enumerate(keys):
        j = len(out)
        while j > 0 and (less(keys[out[j - 1]], k) if down else
                         less(k, keys[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


def lt(a, b):
    return a < b


def pick(xs, ps):
    return [xs[p] for p in ps]


def integers(ctx, n):
    xs = [ctx.int(f"x{i}") for i in range(n)]
    up, down = order(xs, lt), order(xs, lt, True)
    s = [str(x) for x in xs]
    same(ctx, val("SNa", xs), pick(s, up), "SN")
    same(ctx, val("DNa", xs), pick(s, down), "DN")
    same(ctx, val("_SKa", xs), pick(s, up), "SK")
    same(ctx, val("_DKa", xs), pick(s, down), "DK")
    same(ctx, val("-_SKa", xs), pick(s, down), "SK by the negative")
    same(ctx, val("$<=SNa", xs), 1, "SN gives an ascending list")
    same(ctx, val("(MNa)Q(SNa)@0", xs) if n else "1", 1, "least first")
    same(ctx, val("SNSNa", xs), pick(s, up), "SN of SN")


def among(ctx):
    """An arbitrary integer at any place among eight others."""
    i = int(ctx.int("i", 0, 8))
    ks = [3, -7, 3, 12, 0, 12, 100, -7]
    ks[i:i] = [ctx.int("x")]
    xs = [str(k) + "abcdefghi"[j] for j, k in enumerate(ks)]
    up, down = order(ks, lt), order(ks, lt, True)
    same(ctx, val("SNa", xs), pick(xs, up), "SN of nine")
    same(ctx, val("DNa", xs), pick(xs, down), "DN of nine")
    same(ctx, val("{a+1}SKa", xs), pick(xs, up), "SK of nine")
    same(ctx, val("_DKa", xs), pick(xs, down), "DK of nine")


def among_texts(ctx):
    i = int(ctx.int("i", 0, 8))
    xs = ["b", "", "ab", "B", "10", "9", "b", "aa"]
    xs[i:i] = [ctx.string("x", 1, FULL)]
    less = lambda x, y: (len(x) < len(y) if not (x and y) else
                         ord(x[0]) < ord(y[0]) if x[0] != y[0] else
                         less(x[1:], y[1:]))
    up, down = order(xs, less), order(xs, less, True)
    same(ctx, val("SSa", xs), pick(xs, up), "SS of nine")
    same(ctx, val("DSa", xs), pick(xs, down), "DS of nine")


def ties(ctx, n):
    """Items that count as the same number keep their order."""
    ks = [ctx.int(f"x{i}", -2, 9) for i in range(n)]
    xs = [str(k) + "abcde"[i] for i, k in enumerate(ks)]
    up, down = order(ks, lt), order(ks, lt, True)
    same(ctx, val("SNa", xs), pick(xs, up), "SN")
    same(ctx, val("DNa", xs), pick(xs, down), "DN")
    same(ctx, val("{a}SKa", xs), pick(xs, up), "SK")
    same(ctx, val("{[a;0]}DKa", xs), pick(xs, down), "DK")


def characters(ctx, n):
    s = ctx.string("s", n, FULL)
    xs = [c for c in s]
    cs = [ord(c) for c in xs]
    up, down = order(cs, lt), order(cs, lt, True)
    same(ctx, val("SSa", s), "".join(pick(xs, up)), "SS of a text")
    same(ctx, val("DSa", s), "".join(pick(xs, down)), "DS of a text")
    if n < 4:
        same(ctx, val("SS^a", s), pick(xs, up), "SS of characters")
        same(ctx, val("A_SKa", s), pick(xs, up), "SK by code")


def digits(ctx, n):
    s = ctx.string("s", n, alpha("0129a. "))
    xs = [c for c in s]
    ks = [int(c) if c in "0129" else 0 for c in xs]
    same(ctx, val("SNa", s), pick(xs, order(ks, lt)),
         "SN of a text lists its characters")
    same(ctx, val("DNa", s), pick(xs, order(ks, lt, True)),
         "DN of a text lists its characters")


def ranges(ctx, n):
    lo = ctx.int("lo", -12, 99)
    xs = [lo + i for i in range(n)]
    s = [str(x) for x in xs]
    r = R(lo, lo + n)
    same(ctx, val("SNa", r), s, "SN of a range")
    same(ctx, val("DNa", r), s[::-1], "DN of a range")
    same(ctx, val("SSa", r), pick(s, order(s, lt)), "SS of a range")
    same(ctx, val("DSa", r), pick(s, order(s, lt, True)), "DS of a range")
    same(ctx, val("{a*a}SKa", r),
         pick(s, order([x * x for x in xs], lt)), "SK of a range")


def texts(ctx, n, s):
    xs = [ctx.string(f"x{i}", int(s) if s != "01" else
                     ctx.choice(f"n{i}", (0, 1)), FULL) for i in range(n)]
    same(ctx, val("SSa", xs), pick(xs, order(xs, lt)), "SS")
    same(ctx, val("DSa", xs), pick(xs, order(xs, lt, True)), "DS")


KEYS = (("{a%3}", lambda x: x % 3), ("{aBA4}", lambda x: x & 4),
        ("{0-a}", lambda x: -x),
        ("{[a//5;0-a]}", lambda x: (x // 5) * 1000 - x),
        ("{a>0}", lambda x: 1 if x > 0 else 0),
        ("{a.\"z\"}", lambda x: x), ("{7}", lambda x: 7),
        # a range counts as the list of its numbers, an endless one as [],
        # nil, patterns and functions as 0
        ("{,a}", lambda x: x if x > 0 else 0),
        ("{(3,a)}", lambda x: x if x > 3 else 0),
        ("{a<0?,u(0,a)}", lambda x: x if x > 0 else 0),
        ("{(0-a,u)}", lambda x: 0),
        ("{a>2?u a}", lambda x: 0 if x > 2 else x),
        ("{a<2?`9`a}", lambda x: 0 if x < 2 else x),
        ("{a<2?_a}", lambda x: 0 if x < 2 else x))


def keys(ctx, n, c):
    xs = [ctx.int(f"x{i}", 0 if c == 3 else -9, 9) for i in range(n)]
    s = [str(x) for x in xs]
    code, f = KEYS[c]
    ks = [f(x) for x in xs]
    same(ctx, val(f"{code}SKa", xs), pick(s, order(ks, lt)),
         f"SK by {code}")
    same(ctx, val(f"a DK{code}", xs), pick(s, order(ks, lt, True)),
         f"DK by {code}")


def kinds(ctx, n):
    """What is no number counts as 0."""
    ks = [ctx.choice(f"k{i}", ("nil", "x", "pattern", "", "int"))
          for i in range(n)]
    xs, num = [], []
    for i, k in enumerate(ks):
        v = 0
        if k == "int":
            v = ctx.int(f"x{i}", -1, 1)
        xs.append(NIL() if k == "nil" else P("5") if k == "pattern" else
                  S(v) if k == "int" else S(k))
        num.append(v)
    w = [py(x) for x in xs]
    same(ctx, val("SNa", xs), pick(w, order(num, lt)), "SN")
    same(ctx, val("DNa", xs), pick(w, order(num, lt, True)), "DN")
    same(ctx, val("{a}SKa", xs),
         pick(w, order(num, lt)), "SK")
    same(ctx, val("{a}DKa", xs), pick(w, order(num, lt, True)), "DK")


def decimals(ctx, n):
    ks = [ctx.choice(f"k{i}", (("0.5", 5), ("-1.5", -15), ("1e1x", 10),
                               (".5a", 5), ("10", 100), ("+3", 0),
                               ("-0.25", -2.5))) for i in range(n)]
    xs = [k[0] for k in ks]
    num = [k[1] for k in ks]
    same(ctx, val("SNa", xs), pick(xs, order(num, lt)), "SN")
    same(ctx, val("DNa", xs), pick(xs, order(num, lt, True)), "DN")


def lists(ctx, n, s):
    """Lists go by their first item, then the next; then the shorter."""
    xs = []
    for i in range(n):
        k = s if s == 1 else ctx.choice(f"n{i}", (1, 2))
        xs.append([ctx.int(f"x{i}{j}", -1, 1) if s == 2 and n == 3 else
                   ctx.int(f"x{i}{j}") for j in range(k)])

    def less(a, b):
        for x, y in zip(a, b):
            if x < y:
                return True
            if y < x:
                return False
        return len(a) < len(b)

    w = [[str(y) for y in x] for x in xs]
    up = pick(w, order(xs, less))
    down = pick(w, order(xs, less, True))
    same(ctx, val("SNa", xs), up, "SN")
    same(ctx, val("DNa", xs), down, "DN")
    same(ctx, val("{a}SKa", xs), up, "SK")
    same(ctx, val("{a}DKa", xs), down, "DK")
    same(ctx, val("{a@0}SKa", xs),
         pick(w, order([x[0] for x in xs], lt)), "SK by the first item")


def bad(ctx):
    x = ctx.int("x")
    for op in ("SN", "DN", "{a}SK", "{a}DK"):
        same(ctx, val(f"{op}a", [x, [x]]), None, f"{op}: number and list")
        same(ctx, val(f"{op}a", P("x")), None, f"{op} of a pattern")
    for op in ("SS", "DS"):
        same(ctx, val(f"{op}a", P("x")), None, f"{op} of a pattern")
    same(ctx, val("aSKb", [x], [x]), None, "SK without a function")
    same(ctx, val("aDKb", [x], [x]), None, "DK without a function")


def kept(ctx):
    x, y = ctx.int("x", -99, 99), ctx.int("y", -99, 99)
    for op in ("SN", "DN", "SS", "DS", "{a}SK", "{a}DK"):
        same(ctx, val(f"x:[a;b;3];y:{op}x;x", x, y),
             [str(x), str(y), "3"], f"{op} leaves its operand alone")
        same(ctx, val(f"x:[a;b];x:{op}x;x", x, y),
             val(f"{op}[a;b]", x, y), f"{op} back into the variable")
