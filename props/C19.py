"""Base conversion: to digits and back."""

BOUNDS = {
    "quick": "every base 2 to 36: integers up to twice the base, for bases 2 to "
             "5 of 3 digits, for 6, 7, 8, 10 and 16 of 2 digits, either sign; lists of up to 3 digits in bases "
             "2 to 1000, digits of any size; texts of up to 3 characters "
             "over 012 9 a Z z _ - and space in 5 bases",
    "thorough": "one more digit",
}
BOUNDS["quick"] += ("; integers around 2^53 to 2^70")


def units(tier):
    t = 1 if tier == "thorough" else 0
    us = []
    for b in range(2, 37):
        n = (3 if b < 6 else 2) + (t if b < 17 else 0)
        lim = b ** n - 1 if t or b in (2, 3, 4, 5, 6, 7, 8, 10, 16) \
            else 2 * b
        us.append((f"text base {b}", "text_base", {"b": b, "lim": lim}))
        for n in range(3 + t + (1 if b < 6 else 0)):
            us.append((f"digits to number base {b}, {n}", "from_text",
                       {"b": b, "n": n}))
    for b in (2, 3, 7, 10, 16, 36, 37, 100, 1000):
        for n in range(4 + t):
            us.append((f"list base {b}, {n}", "lists", {"b": b, "n": n}))
    for n in range(3):
        us.append((f"any digits {n}", "any_digits", {"n": n}))
    for b in (2, 8, 10, 16, 36):
        for n in range(1, 4):
            us.append((f"texts base {b}, {n}", "junk", {"b": b, "n": n}))
    us.append(("default base", "default", {}))
    us.append(("bad bases", "bad", {}))
    us.append(("other values", "others", {}))
    us.append(("binary", "binary", {}))
    for b in (2, 3, 7, 10, 16, 36, 1000):
        us.append((f"big integers base {b}", "big", {"b": b}))
    return us


DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def text_base(ctx, b, lim):
    x = ctx.int("x", -lim, lim)
    t = ""
    y = -x if x < 0 else x
    while y > 0:
        t = DIGITS[y % b] + t
        y = y // b
    t = ("-" if x < 0 else "") + (t if t else "0")
    same(ctx, val(f"aTB{b}", x), t, "TB")
    same(ctx, val(f"(aTB{b})FB{b}", x), x, "TB, then FB")
    same(ctx, val(f"aFB{b}", t), x, "FB")
    same(ctx, val(f"(aTD{b})FD{b}", x), x, "TD, then FD")


def from_text(ctx, b, n):
    t = ctx.string("t", n, alpha(DIGITS[:b]))
    neg = ctx.bool("neg")
    v = 0
    for c in t:
        o = ord(c)
        v = v * b + (o - 48 if o < 58 else o - 55)
    same(ctx, val(f"aFB{b}", t), v, "FB")
    if n:
        same(ctx, val(f"aFB{b}", "-" + t), -v, "FB of a negative")
    same(ctx, val(f"aFB{b}", t.lower()), v, "FB in lower case")


def lists(ctx, b, n):
    ds = [ctx.int(f"d{i}", 0, b - 1) for i in range(n)]
    neg = ctx.bool("neg")
    if neg:
        ds = [-d for d in ds]
    v = 0
    for d in ds:
        v = v * b + d
    same(ctx, val(f"aFD{b}", ds), v, "FD")
    w = [str(d) for d in ds]
    if n:
        ctx.assume(ds[0] != 0)
    same(ctx, val(f"aTD{b}", v), w, "TD")
    same(ctx, val(f"(aFD{b})TD{b}", ds), w, "FD, then TD")
    same(ctx, val(f"[a;[0;a]]TD{b}", v), [w, [[], w]], "TD of lists")


def any_digits(ctx, n):
    """FD adds up any digits, whatever the base."""
    ds = [ctx.int(f"d{i}") for i in range(n)]
    b = ctx.choice("b", (-10, -2, 0, 1, 2, 1000))
    v = 0
    for d in ds:
        v = v * b + d
    same(ctx, val("aFDb", ds, b), v, "FD")
    same(ctx, val("aFDb", [str(d) + "x" for d in ds], b), v,
         "FD of texts that start with numbers")
    s = ctx.string("s", n, alpha("0123456789"))
    v = 0
    for c in s:
        v = v * 12 + (ord(c) - 48)
    same(ctx, val("aFD12", s), v, "FD of a text")


def junk(ctx, b, n):
    """What is not written in the base gives nil."""
    t = ctx.string("t", n, alpha("0129aZz.-"))
    ok = True
    v = 0
    for i, c in enumerate(t):
        if c == "-" and i == 0 and n > 1:
            continue
        d = 99
        for j in range(b):
            if c == DIGITS[j] or c == DIGITS[j].lower():
                d = j
        ok = ok and d < 99
        v = v * b + d
    if t[0] == "-":
        v = -v
    elif n == 2:
        same(ctx, val(f"aFB{b}", t[0] + "_" + t[1]), None, "FB: a _ inside")
    same(ctx, val(f"aFB{b}", t), v if ok else None, "FB")


def default(ctx):
    x = ctx.int("x", -20, 20)
    same(ctx, val("TBa", x), val("aTB2", x), "TB is binary")
    same(ctx, val("FBTBa", x), x, "FB is binary")
    same(ctx, val("TDa", x), val("aTD2", x), "TD is binary")
    same(ctx, val("FDTDa", x), x, "FD is binary")
    same(ctx, val("FDa", []), 0, "FD of nothing")
    same(ctx, val("FBa", ""), 0, "FB of nothing")
    same(ctx, val("TDa", 0), [], "TD of 0")
    same(ctx, val("TBa", 0), 0, "TB of 0")
    same(ctx, val("TBb", 0, str(x) + "x"), val("aTB2", x),
         "TB of a text that starts with a number")
    same(ctx, val("aTBb", x, "16 "), val("aTB16", x), "a base in text")


def bad(ctx):
    x = ctx.int("x", 0, 9)
    b = ctx.int("b", -60, 60)
    ctx.assume(b < 2 or b > 36)
    same(ctx, val("aTBb", x, b), None, "TB")
    same(ctx, val("aFBb", x, b), None, "FB")
    if b < 2:
        same(ctx, val("aTDb", x, b), None, "TD")
    same(ctx, val("aFDb", [x], P("a")), None, "FD")
    same(ctx, val("aTBb", x, None), None, "TB to base nil")
    same(ctx, val("aFBb", x, None), None, "FB from base nil")
    same(ctx, val("aTDb", x, None), None, "TD to base nil")
    same(ctx, val("aFDb", [x], None), None, "FD from base nil")


def others(ctx):
    x = ctx.int("x", 0, 9)
    for v in (None, P("1")):
        for op in ("TB", "FB", "TD"):
            same(ctx, val(f"a{op}b", v, 2), None, f"{op} of no number")
    same(ctx, val("aFDb", P("1"), 2), None, "FD of no list")
    same(ctx, val("aFDb", [x, None], 2), None, "FD of a list with nil")
    same(ctx, val("aFDb", [x, [x]], 2), None, "FD of nested lists")
    same(ctx, val("aTBb", R(x, x + 2), 3),
         [val("aTB3", x), val("aTB3", x + 1)], "TB of a range")
    same(ctx, val("aTDb", R(x, x + 2), 3),
         [val("aTD3", x), val("aTD3", x + 1)], "TD of a range")
    same(ctx, val("aFDb", R(x, x + 2), 10), 11 * x + 1, "FD of a range")
    same(ctx, val("aTBb", x, [2, 3]), [val("aTB2", x), val("aTB3", x)],
         "TB to each of several bases")


def big(ctx, b):
    """Around the integers at which floats and machine words end."""
    x = ctx.choice("x", (2 ** 53, 2 ** 63, 2 ** 64, 10 ** 22, b ** 40,
                         3 ** 60)) + ctx.choice("d", (-1, 0, 1))
    neg = ctx.bool("neg")
    ds = []
    y = x
    while y > 0:
        ds.append(y % b)
        y //= b
    ds.reverse()
    s = -1 if neg else 1
    same(ctx, val(f"aTD{b}", s * x), [str(s * d) for d in ds], "TD")
    same(ctx, val(f"aFD{b}", [s * d for d in ds]), s * x, "FD")
    if b <= 36:
        t = ("-" if neg else "") + "".join([DIGITS[d] for d in ds])
        same(ctx, val(f"aTB{b}", s * x), t, "TB")
        same(ctx, val(f"aFB{b}", t), s * x, "FB")


def binary(ctx):
    x = ctx.int("x", -40, 40)
    same(ctx, val("$+TDa", x), val("(1N TDa)-(-1N TDa)", x),
         "as many ones as the sum says")
    same(ctx, val("BLa", x), len(val("TDa", x)), "BL is the number of digits")
