"""Text operators: joining, cutting, replacing, finding, changing case."""

BOUNDS = {
    "quick": "texts of up to 4 characters (up to 3 over all of Unicode) and "
             "searched, separating or replaced texts of up to 2; case "
             "changes over ASCII, up to 3 characters; lists of up to 3 "
             "texts; repetitions and cuts -1 to 4",
    "thorough": "texts of up to 5 characters (4 over all of Unicode)",
}
BOUNDS["quick"] += ("; texts of 7 characters with one arbitrary character")

AB = "ab "


def units(tier):
    t = 1 if tier == "thorough" else 0
    us = []
    for n in range(4 + t):
        for k in range(3):
            us.append((f"join {n},{k}", "joined", {"n": n, "k": k}))
        for f in ("cases", "whitespace", "repeat", "codes", "trim"):
            us.append((f"{f} {n}", f, {"n": n}))
    for n in range(5 + t):
        for k in range(3):
            for f in ("find", "replace", "split", "remove", "strip",
                      "transliterate"):
                us.append((f"{f} {n},{k}", f, {"n": n, "k": k},
                           {"weight": n}))
    for n in range(4 + t):
        for f in ("join_list", "replace_lists", "remove_items"):
            us.append((f"{f} {n}", f, {"n": n}))
    for f in ("find", "replace", "split"):
        for k in (1, 2, 3):
            us.append((f"long {f} {k}", f, {"n": 7, "k": k},
                       {"weight": 9}))
    us.append(("kinds", "kinds", {}))
    us.append(("numbers", "numbers", {}))
    us.append(("ranges", "ranges", {}))
    return us


def joined(ctx, n, k):
    s = ctx.string("s", n, FULL)
    t = ctx.string("t", k, FULL)
    same(ctx, val("a.b", s, t), s + t, ".")
    same(ctx, val("aWRb", s, t), t + s + t, "WR")
    same(ctx, val("#(a.b)", s, t), n + k, "length")
    same(ctx, val("RV(a.b)", s, t), (t[::-1] if k else "") +
         (s[::-1] if n else ""), "RV")
    same(ctx, val("J[a;b]", s, t), s + t, "J")
    same(ctx, val("(a.b)@<#a", s, t), s, "the start")
    same(ctx, val("x:a;x.:b;x", s, t), s + t, ".:")
    same(ctx, val("a.b.a", s, t), s + t + s, "twice")


def upper(c):
    o = ord(c)
    return chr(o - 32) if 97 <= o <= 122 else c


def lower(c):
    o = ord(c)
    return chr(o + 32) if 65 <= o <= 90 else c


def letter(c):
    o = ord(c)
    return 97 <= o <= 122 or 65 <= o <= 90


def cases(ctx, n):
    s = ctx.string("s", n, alpha("".join([chr(i) for i in range(128)]))
                   if n < 3 else alpha("aZ .'9"))
    same(ctx, val("LCa", s), "".join([lower(c) for c in s]), "LC")
    same(ctx, val("UCa", s), "".join([upper(c) for c in s]), "UC")
    same(ctx, val("SCa", s),
         "".join([upper(c) if 97 <= ord(c) <= 122 else lower(c)
                  for c in s]), "SC")
    same(ctx, val("ICa", s),
         "".join([lower(c) if i else upper(c) for i, c in enumerate(s)]),
         "IC")
    out = ""
    inside = False
    for c in s:
        out += lower(c) if inside else upper(c)
        inside = letter(c)
    same(ctx, val("TCa", s), out, "TC")


def isspace(c):
    return c in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def ends(s, f, left, right):
    i, j = 0, len(s)
    while left and i < j and f(s[i]):
        i += 1
    while right and j > i and f(s[j - 1]):
        j -= 1
    return s[i:j]


def whitespace(ctx, n):
    s = ctx.string("s", n, alpha("a \t\n\x85\xa0\u3000.\u200b"))
    f = lambda c: c != "a" and c != "." and c != "\u200b"
    same(ctx, val("||a", s), ends(s, f, 1, 1), "||")
    same(ctx, val("|>a", s), ends(s, f, 1, 0), "|>")
    same(ctx, val("<|a", s), ends(s, f, 0, 1), "<|")


def strip(ctx, n, k):
    s = ctx.string("s", n, alpha(AB))
    t = ctx.string("t", k, alpha(AB))
    f = lambda c: c in t if k else False
    same(ctx, val("a||b", s, t), ends(s, f, 1, 1), "|| of characters")
    same(ctx, val("a|>b", s, t), ends(s, f, 1, 0), "|> of characters")
    same(ctx, val("a<|b", s, t), ends(s, f, 0, 1), "<| of characters")
    same(ctx, val("a||b", s, [t, "b"]),
         [ends(s, f, 1, 1), ends(s, lambda c: c == "b", 1, 1)],
         "|| of each")
    same(ctx, val("a||b", s, None), s, "|| of nil")


def repeat(ctx, n):
    s = ctx.string("s", n, FULL)
    m = ctx.choice("m", (-2, -1, 0, 1, 2, 3))
    w = "".join([s for i in range(m)])
    same(ctx, val("aXb", s, m), w, "X")
    same(ctx, val("aXb", s, str(m) + "x"), w, "X a text with a number")
    same(ctx, val("aRLb", s, m), [s] * m if m > 0 else [], "RL")
    same(ctx, val("aXb", s, [m, 1]), [w, s], "X a list")
    same(ctx, val("x:a;xX:b;x", s, m), w, "X:")


def codes(ctx, n):
    s = ctx.string("s", n, FULL)
    cs = [str(ord(c)) for c in s]
    same(ctx, val("A*a", s), cs, "A of each")
    same(ctx, val("A^a", s), cs, "A of the characters")
    same(ctx, val("J C A^a", s), s, "C of the codes")
    same(ctx, val("Aa", s), cs[0] if n else None, "A is of the first")
    same(ctx, val("^a", s), [c for c in s], "^ lists the characters")
    same(ctx, val("RVa", s), s[::-1] if n else "", "RV")
    same(ctx, val("J^a", s), s, "J of the characters")
    same(ctx, val("a^\"\"", s), [c for c in s], "^ by nothing")
    same(ctx, val("RV^a", s), [c for c in s][::-1], "RV of a list")


def trim(ctx, n):
    s = ctx.string("s", n, FULL)
    m = ctx.choice("m", (-1, 0, 1, 2, 3))
    k = ctx.choice("k", (-1, 0, 1, 2, 5))

    def cut(i, j):
        i = max(i, 0)
        j = max(j, 0)
        return s[i:n - j] if i < n - j else ""

    same(ctx, val("TMa", s), cut(1, 1), "TM")
    same(ctx, val("aTMb", s, m), cut(m, m), "TM by a number")
    same(ctx, val("aTMb", s, R(m, k)), cut(m, k), "TM by two numbers")
    same(ctx, val("aTMb", s, None), s, "TM by nil")
    same(ctx, val("aTM(bTMc)", s, "y3y", 1), cut(3, 3), "TM by a text")


def places(s, t):
    return [i for i in range(len(s) - len(t) + 1) if s[i:i + len(t)] == t]


def find(ctx, n, k):
    s = ctx.string("s", n, FULL if n < 4 else alpha("ab"))
    t = ctx.string("t", k, FULL if n < 4 else alpha("ab"))
    ps = places(s, t)
    same(ctx, val("a@?b", s, t), ps[0] if ps else None, "@?")
    same(ctx, val("a@*b", s, t), [str(p) for p in ps], "@*")
    cnt = 0
    i = 0
    while i <= n - k:
        if s[i:i + k] == t:
            cnt += 1
            i += k if k else 1
        else:
            i += 1
    same(ctx, val("bNa", s, t), cnt, "N counts")
    same(ctx, val("bNIa", s, t), 0 if ps else 1, "NI")
    same(ctx, val("[b;a]Na", s, t),
         [str(cnt), "1" if n else "1"], "N of each")
    same(ctx, val("a@?[b;\"~~~~~\"]", s, t),
         [str(ps[0]) if ps else None, None], "@? of each")
    same(ctx, val("b@?b", s, t), 0, "a text in itself")


def swap(s, t, u):
    """s with u in place of every t, from the left"""
    out = ""
    i = 0
    n, k = len(s), len(t)
    if k == 0:
        return u + "".join([c + u for c in s])
    while i < n:
        if i + k <= n and s[i:i + k] == t:
            out = out + u
            i += k
        else:
            out = out + s[i]
            i += 1
    return out


def replace(ctx, n, k):
    s = ctx.string("s", n, FULL if n < 3 else alpha(AB))
    t = ctx.string("t", k, FULL if n < 3 else alpha(AB))
    u = ctx.string("u", ctx.choice("m", (0, 1, 2)),
                   FULL if n < 3 else alpha("a\\1"))
    same(ctx, val("aRbc", s, t, u), swap(s, t, u), "R")
    same(ctx, val("aRbc", s, t, None), swap(s, t, ""), "R by nil")
    same(ctx, val("[a;b]Rbc", s, t, u), [swap(s, t, u), swap(t, t, u)],
         "R in each")
    if k:
        same(ctx, val("(aRb\"\")", s, t), swap(s, t, ""), "R by nothing")


def replace_lists(ctx, n):
    s = ctx.string("s", 3, alpha("ab"))
    xs = [ctx.string(f"x{i}", 1, alpha("ab")) for i in range(n)]
    ys = [ctx.string(f"y{i}", 1, alpha("abc"))
          for i in range(ctx.choice("m", (0, 1, 2)))][:n]
    w = s
    for x, y in zip(xs, ys + [""] * 9):
        w = swap(w, x, y)
    same(ctx, val("aRbc", s, xs, ys), w, "R of a list by a list")
    w = s
    for x in xs:
        w = swap(w, x, "c")
    same(ctx, val("aRbc", s, xs, "c"), w, "R of a list by a text")
    w = s
    for x in xs:
        w = swap(w, x, "")
    same(ctx, val("aRMb", s, xs), w, "RM of a list")
    same(ctx, val("aRbc", s, xs, None), w, "R of a list by nil")


def remove(ctx, n, k):
    s = ctx.string("s", n, FULL if n < 4 else alpha(AB))
    t = ctx.string("t", k, FULL if n < 4 else alpha(AB))
    if k:
        same(ctx, val("aRMb", s, t), swap(s, t, ""), "RM")
    same(ctx, val("aDCb", s, t), "".join([c for c in s if not c in t]),
         "DC")
    same(ctx, val("aRMb", s, None), s, "RM of nil")
    same(ctx, val("#(aDCa)", s), 0, "DC of all its characters")


def remove_items(ctx, n):
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
    t = ctx.string("t", 1, FULL)
    same(ctx, val("aRMb", xs, t), [x for x in xs if not x == t],
         "RM of an item")
    same(ctx, val("aRMb", [[x] for x in xs], [t]),
         [[x] for x in xs if not x == t], "RM of an item that is a list")
    same(ctx, val("aRMb", xs + [None], None), xs, "RM of nil")
    same(ctx, val("x:a;y:xRMb;x", xs, t), xs, "RM leaves its operand")


def pieces(s, t):
    out = []
    i = j = 0
    n, k = len(s), len(t)
    while i < n:
        if i + k <= n and s[i:i + k] == t:
            out.append(s[j:i])
            i += k
            j = i
        else:
            i += 1
    return out + [s[j:]]


def split(ctx, n, k):
    s = ctx.string("s", n, FULL if n < 4 else alpha(AB))
    t = ctx.string("t", k, FULL if n < 4 else alpha(AB))
    if not k:
        return same(ctx, val("a^b", s, t), [c for c in s], "^ by nothing")
    ps = pieces(s, t)
    same(ctx, val("a^b", s, t), ps, "^")
    same(ctx, val("(a^b)Jb", s, t), s, "^, then J")
    same(ctx, val("#(a^b)", s, t), len(ps), "number of pieces")


def join_list(ctx, n):
    xs = [ctx.string(f"x{i}", ctx.choice(f"n{i}", (0, 1)), FULL)
          for i in range(n)]
    t = ctx.string("t", ctx.choice("k", (0, 1, 2)), FULL)
    same(ctx, val("Ja", xs), "".join(xs), "J")
    same(ctx, val("aJb", xs, t), t.join(xs), "J with a separator")
    same(ctx, val("aJWb", xs, t), t + "".join([x + t for x in xs]), "JW")
    same(ctx, val("aJb", xs, [t, "-"]), [t.join(xs), "-".join(xs)],
         "J with each separator")
    same(ctx, val("Ja", [xs, [[t]], "q"]), "".join(xs) + t + "q",
         "J at every depth")
    same(ctx, val("aJb", [xs, [[t]], "q"], "-"),
         "-".join(["-".join(xs), t, "q"]), "J at every depth")
    same(ctx, val("aJb", "".join(xs), t),
         t.join([c for c in "".join(xs)]), "J of a text")


def transliterate(ctx, n, k):
    s = ctx.string("s", n, FULL if n < 3 else alpha("abc"))
    t = ctx.string("t", k, FULL if n < 3 else alpha("abc"))
    u = ctx.string("u", ctx.choice("m", (0, 1, 2, 3)), alpha("bxy"))
    out = ""
    for c in s:
        for x, y in zip(t, u):
            if x == c:
                d = y
        if k and len(u) and c in t[:len(u)]:
            e = [y for x, y in zip(t, u) if x == c]
            c = e[-1]
        out = out + c
    same(ctx, val("aTRbc", s, t, u), out, "TR")
    same(ctx, val("[a;[a]]TRbc", s, t, u), [out, [out]], "TR in each")
    if n < 3:
        same(ctx, val("aTR(A*b)(A*c)", s, t, u), out, "TR by codes")
        same(ctx, val("aTRbc", s, t, [None] * k),
             "".join([c for c in s if not c in t]), "TR to nil")


def kinds(ctx):
    """Values that are no texts."""
    s = ctx.string("s", 1, FULL)
    f = run("{a}")
    for op in (".", "WR", "X", "DC"):
        same(ctx, val(f"a{op}b", None, s), None, f"{op} of nil")
    for op in (".", "WR", "X"):
        same(ctx, val(f"a{op}b", s, None), None, f"{op} nil")
    for op in ("LC", "UC", "SC", "TC", "IC"):
        same(ctx, val(f"{op}a", None), None, f"{op} of nil")
    for op in ("^", "J", "JW"):
        same(ctx, val(f"a{op}b", [s] if op != "^" else s, None), None,
             f"{op} nil")
    same(ctx, val("^a", None), None, "^ of nil")
    same(ctx, val("bNa", None, s), 0, "no text in nil")
    same(ctx, val("Aa", None), None, "A of nil")
    same(ctx, val("Ca", None), None, "C of nil")


def numbers(ctx):
    """Numbers are texts."""
    x = ctx.int("x", -99, 999)
    y = ctx.int("y", 0, 99)
    s, t = str(x), str(y)
    same(ctx, val("a.b", x, y), s + t, ".")
    same(ctx, val("aWRb", x, y), t + s + t, "WR")
    same(ctx, val("#a", x), len(s), "#")
    same(ctx, val("aRb0", x, y), swap(s, t, "0"), "R")
    same(ctx, val("a^b", x, y), pieces(s, t), "^")
    same(ctx, val("bNa", x, y), len(pieces(s, t)) - 1, "N")
    same(ctx, val("(a.0)/10", x), x, "as a number again")
    same(ctx, val("RVa", x), s[::-1], "RV")


def ranges(ctx):
    lo = ctx.int("lo", -9, 99)
    n = ctx.choice("n", (0, 1, 2))
    xs = [str(lo + i) for i in range(n)]
    r = R(lo, lo + n)
    t = ctx.string("t", 1, FULL)
    same(ctx, val("Ja", r), "".join(xs), "J of a range")
    same(ctx, val("aJb", r, t), t.join(xs), "J of a range")
    same(ctx, val("aJWb", r, t), t + "".join([x + t for x in xs]),
         "JW of a range")
    same(ctx, val("a.b", r, t), [x + t for x in xs], ". of a range")
    same(ctx, val("aXb", r, 2), [x + x for x in xs], "X of a range")
    same(ctx, val("bRac", r, "5," + "".join(xs), t),
         swap_all("5," + "".join(xs), xs, t), "R of a range")


def swap_all(s, xs, t):
    for x in xs:
        s = swap(s, x, t)
    return s
