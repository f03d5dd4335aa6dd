"""Texts as numbers and as truth values."""

BOUNDS = {
    "quick": "texts of 0-4 characters over 0 1 7 - + . e space and a letter, "
             "texts of up to 3 arbitrary characters for truth; every "
             "integer; lists of up to 2 items, every range",
    "thorough": "texts of up to 6 characters",
}

NUM = "017-+.e xE\n"


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(0, 6 if t else 4):
        us.append((f"integer part n={n}", "intpart", {"n": n},
                   {"weight": 5 ** n}))
    for c in NUM:
        us.append((f"integer part n={6 if t else 4} {c!r}", "intpart",
                   {"n": 6 if t else 4, "first": c}, {"weight": 300}))
    for n in range(1, 6 if t else 5):
        us.append((f"digits n={n}", "digits", {"n": n}))
    for n in range(1, 4 if t else 3):
        for m in range(1, 4 if t else 3):
            us.append((f"decimal {n}.{m}", "decimal", {"n": n, "m": m},
                       {"weight": 5}))
    us.append(("exponent", "exponent", {}))
    us.append(("huge exponent", "huge", {}))
    for n in range(0, 4 if t else 3):
        us.append((f"any text n={n}", "anytext", {"n": n}))
    us.append(("integer", "integer", {}))
    for n in range(0, 6 if t else 4):
        us.append((f"zero texts n={n}", "zero", {"n": n, "voc": "0.1- a\n"},
                   {"weight": 4 ** n}))
    for n in range(0, 3):
        us.append((f"any text truth n={n}", "zero", {"n": n, "voc": None},
                   {"weight": 3 ** n}))
    us.append(("truth of other values", "truths", {}))
    for k in range(len(TRUTH)):
        us.append((f"one truth everywhere {TRUTH[k]}", "everywhere",
                   {"k": k}, {"weight": 3}))
    us.append(("repr and string", "strings", {}))
    return us


def number_of(t):
    """The integer a text starts with (after white space), how it goes on,
    and whether a decimal number follows instead."""
    t = t.lstrip()
    neg = t[:1] == "-"
    if neg:
        t = t[1:]
    k = 0
    n = 0
    for c in t:
        if not ("0" <= c and c <= "9"):
            break
        k = k * 10 + int(c)
        n += 1
    rest = t[n:]
    if n == 0:
        # nothing but a point can start a number now
        dec = (rest[:1] == "." and len(rest) > 1
               and "0" <= rest[1] and rest[1] <= "9")
        return 0, neg, dec
    dec = rest[:1] == "."
    if (len(rest) >= 3 and rest[0] == "e" and (rest[1] in "+-")
            and "0" <= rest[2] and rest[2] <= "9"):
        dec = True
    return (-k if neg else k), neg, dec


def intpart(ctx, n, first=None):
    voc = alpha(NUM)
    if first is None:
        t = ctx.string("t", n, voc)
    else:
        t = first + ctx.string("t", n - 1, voc)
    k, neg, dec = number_of(t)
    # using a text where an integer is wanted takes the integer it starts
    # with (lists are indexed by integers)
    same(ctx, val("[a]@a", t), t,
         "indexing a one-item list by any text gives the item")
    same(ctx, val("#(,a)", t), max(k, 0) if not t_point(t) else 0,
         "a text counts as the integer it starts with")
    if not dec:
        same(ctx, val("a+0", t), k, "its number in arithmetic")
        same(ctx, val("a+b*2", t, t), 3 * k, "its number in arithmetic")
        same(ctx, val("a=b", t, k), 1, "it equals that number")
        same(ctx, val("+a", t), k, "unary + gives its number")
    else:
        ctx.record(1)


def t_point(t):
    t = t.lstrip()
    return t[:1] == "." or t[:2] == "-."


def digits(ctx, n):
    d = ctx.string("d", n, alpha("0123456789"))
    k = 0
    for c in d:
        k = k * 10 + int(c)
    same(ctx, val("a+0", d), k, "digits are a decimal integer")
    same(ctx, val("a+0", "-" + d), -k, "with a minus sign")
    same(ctx, val("a+0", " \t\n" + d + "x9"), k,
         "white space before and other text after are ignored")
    same(ctx, val("a+0", "x" + d), 0, "other text before makes it 0")
    same(ctx, val("a.b", d, d), d + d, "the text itself keeps its digits")


def decimal(ctx, n, m):
    d = ctx.string("d", n, alpha("019"))
    f = ctx.string("f", m, alpha("059"))
    k = int(d)
    frac = any([c != "0" for c in f])
    t = d + "." + f
    same(ctx, val("|<a", t), k, "the floor of a decimal number")
    same(ctx, val(">|a", t), k + 1 if frac else k, "its ceiling")
    same(ctx, val("|<a", "-" + t), -k - 1 if frac else -k,
         "the floor of a negative decimal number")
    same(ctx, val("a=b", t, k), 0 if frac else 1,
         "it equals an integer only without a fraction")
    same(ctx, val("a>b", t, k), 1 if frac else 0, "it is greater otherwise")
    same(ctx, val("|<a", " " + t + "z"), k, "text around it is ignored")
    same(ctx, val("a.b", t, "!"), t + "!", "the text itself is kept")


def exponent(ctx):
    d = ctx.choice("d", ("1", "25", "3.5", ".5", "4."))
    e = ctx.int("e", 0, 3)
    s = ctx.choice("s", ("+", "-"))
    x = {"1": 10, "25": 250, "3.5": 35, ".5": 5, "4.": 40}[d]
    want = x * 10 ** int(e) if s == "+" else x
    c = 10 ** int(e)
    same(ctx, val("|<(a*10*c+0.5)", d + "e" + s + str(e),
                  None, c if s == "-" else 1), want,
         "an exponent scales the number")


def huge(ctx):
    """Texts of numbers too large or too small for a decimal number."""
    d = ctx.choice("d", ("1", "25", "3.5", ".5", "4."))
    e = ctx.choice("e", (400, 999, 5000))
    k = ctx.choice("k", (1, 7))
    t = d + "e+" + str(e)
    for code, w in (("a+b", "inf"), ("a*b", "inf"), ("-a", "-inf"),
                    ("a>b", 1), ("a<b", 0), ("b/a", 0), ("b-a", "-inf"),
                    ("a.b", t + str(k)), ("a?1 2", 1)):
        same(ctx, val(code, t, k), w, code)
    t = d + "e-" + str(e)
    for code, w in (("|<(a+b)", k), ("|<(a*b)", 0), ("a<b", 1), ("a>b", 0),
                    ("a+b=b", 1), ("b-a=b", 1), ("a?1 2", 1), ("a=0", 1)):
        same(ctx, val(code, t, k), w, code)


def anytext(ctx, n):
    t = ctx.string("t", n)
    same(ctx, val("a.b", t, ""), t, "a text keeps all its characters")
    same(ctx, val("#a", t), n, "and its length")
    if n > 0 and not ("0" <= t[0] and t[0] <= "9") \
            and t[0] not in "-." and t[0].strip() != "" and t[0] < "\x7f":
        same(ctx, val("a+0", t), 0, "a text that is no number counts as 0")


def integer(ctx):
    i = ctx.int("i")
    same(ctx, val("a+0", i), i, "an integer of any size is its own number")
    same(ctx, val("a.b", i, ""), str(i), "its text is its decimal form")
    same(ctx, val("a?1 0", i), 0 if i == 0 else 1, "only 0 is false")
    same(ctx, val("(a.b)+0", i, "x"), i, "the number a text starts with")


def is_zero(t):
    """Whether the text is digits 0 with at most one point, and some 0."""
    if len(t) == 0:
        return False
    points = 0
    zeros = 0
    for c in t:
        if c == ".":
            points += 1
        elif c == "0":
            zeros += 1
        else:
            return False
    return points <= 1 and zeros > 0


def zero(ctx, n, voc):
    t = ctx.string("t", n, alpha(voc) if voc else None)
    if n > 1:
        ctx.assume(t[-1] != "\n")
    false = n == 0 or is_zero(t)
    same(ctx, val("a?1 0", t), 0 if false else 1,
         "a text is false if empty or a form of 0, else true")
    same(ctx, val("!a", t), 1 if false else 0, "! negates it")


def truths(ctx):
    i = ctx.int("i")
    j = ctx.int("j")
    q = "a?1 0"
    same(ctx, val(q, None), 0, "nil is false")
    same(ctx, val(q, []), 0, "the empty list is false")
    same(ctx, val(q, [i]), 1, "other lists are true")
    same(ctx, val(q, [[]]), 1, "other lists are true")
    same(ctx, val(q, [None, j]), 1, "other lists are true")
    same(ctx, val(q, R(i, j)), 1 if i < j else 0, "an empty range is false")
    same(ctx, val(q, R(None, j)), 1 if 0 < j else 0, "an empty range is "
         "false")
    same(ctx, val(q, R(i, None)), 1, "an infinite range is true")
    same(ctx, val(q, R(None, None)), 1, "an infinite range is true")
    same(ctx, val(q, P("")), 0, "the empty pattern is false")
    same(ctx, val(q, P(ctx.string("p", 1))), 1, "other patterns are true")
    same(ctx, val("{}?1 0"), 0, "the empty function is false")
    same(ctx, val("{0}?1 0"), 1, "other functions are true")
    same(ctx, val("_?1 0"), 1, "other functions are true")


# every construct that asks for a truth value; each gives T or F
TRUTH = ("a?'T'F", "(!a)?'F'T", "!a?'F'T", "a&'T|'F", "(a|b)?'T'F",
         "(a&1)?'T'F", r"a\?'T'F", r"(a\|b)?'T'F", r"(a\&1)?'T'F",
         r"(\!a)?'F'T", "x:'F Iaz:x:'Tx", "I a{x:'T}EL{x:'F}x",
         "x:'T T a{x:'F a:1}x", "x:'F W a{x:'T a:0}x",
         "#({a}FI[a])?'T'F", "#({a}FN[a])?'F'T",
         "#(_FI[a])?'T'F", "#({b}FX[a])?'T'F", "#(FI[a])?'T'F",
         "#({b}FE[a])?'T'F")


def everywhere(ctx, k):
    kind = int(ctx.int("kind", 0, 3))
    if kind == 0:
        v = ctx.string("t", 2, alpha("0.1 -"))
        false = is_zero(v)
    elif kind == 1:
        v = ctx.int("i")
        false = v == 0
    elif kind == 2:
        lo = ctx.int("lo")
        hi = ctx.int("hi")
        v = R(lo, hi)
        false = hi <= lo
    else:
        v, false = ctx.choice("v", ((None, True), ("", True), ([], True),
                                    ([0], False), ([None], False)))
    same(ctx, val(TRUTH[k], v), "F" if false else "T",
         "the same values are true in " + TRUTH[k])


def strings(ctx):
    i = ctx.int("i")
    t = ctx.string("t", 2)
    same(ctx, val("ST a", i), str(i), "ST of a number is its text")
    same(ctx, val("ST a", t), t, "ST of a text is the text")
    same(ctx, val("ST a", [t, [i]]), t + str(i), "ST of a list joins it")
