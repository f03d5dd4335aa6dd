"""Integer arithmetic is exact, at any size; rounding; bits; extremes."""

BOUNDS = {
    "quick": "every integer for + - * AD AB SG - SQ DB HV HU U D // % and "
             "rounding (divisors: every integer and 14 given ones), powers "
             "up to 5, bitwise on 23-bit integers (and masks and complement "
             "on every integer), division with operands below 2^26, decimal "
             "texts of up to 2+2 digits, MX MN of up to 3 items",
    "thorough": "powers up to 9, decimal texts of up to 3+3 digits, MX MN of "
                "up to 5 items",
}
BOUNDS["quick"] += ("; integers around 2^53 to 2^70 for every operator, sums, products "
                    "and extremes of 9 operands, integer roots, logarithms and powers "
                    "of 0 and 10")

DIVISORS = (1, 2, 3, 5, 7, 10, 16, 60, 100, -1, -2, -3, -7, -10)


def units(tier):
    t = tier == "thorough"
    us = [("sums", "sums", {}), ("one operand", "unary", {}),
          ("steps", "steps", {}), ("products", "products", {}),
          ("zero divisors", "zero", {}), ("bits", "bits", {}),
          ("masks", "masks", {}), ("division", "division", {}),
          ("order and sign", "order", {}),
          ("texts as operands", "texts", {}),
          ("big integers", "big", {}, {"weight": 3}),
          ("many operands", "many", {}), ("roots", "roots", {}),
          ("logarithms", "logs", {}), ("powers of zero", "zeros", {}),
          ("powers of ten", "tens", {})]
    for op in ("BA", "BO", "BX"):
        us.append((f"bitwise {op}", "bitwise", {"op": op}, {"weight": 5}))
    for d in DIVISORS:
        us.append((f"divide by {d}", "divide", {"d": d}))
    us.append(("divide by anything", "divide_any", {}))
    for n in range(0, 10 if t else 6):
        us.append((f"power {n}", "power", {"n": n}))
    us.append(("power of given", "power_of", {}))
    for s in (0, 1, 2, 3, 5, 10, 60, -4):
        us.append((f"round to {s}", "rounding", {"s": s}))
    us.append(("round nothing", "round_int", {}))
    for n in range(1, 4 if t else 3):
        for m in range(1, 4 if t else 3):
            us.append((f"round decimal {n}.{m}", "decimal",
                       {"n": n, "m": m}, {"weight": 4}))
    for n in range(0, 6 if t else 4):
        us.append((f"extremes n={n}", "extremes", {"n": n}))
        us.append((f"extremes of range n={n}", "extremes_range", {"n": n}))
    return us


def ints(ctx, *names):
    return [ctx.int(n) for n in names]


def sums(ctx):
    a, b, c = ints(ctx, "a", "b", "c")
    same(ctx, val("a+b", a, b), a + b, "sum")
    same(ctx, val("a-b", a, b), a - b, "difference")
    same(ctx, val("a+b-c", a, b, c), a + b - c, "sum of three")
    same(ctx, val("a-(b-c)", a, b, c), a - b + c, "nested difference")
    same(ctx, val("a-b+b=a", a, b), 1, "subtracting undoes adding")
    same(ctx, val("aADb", a, b), abs(a - b), "absolute difference")
    same(ctx, val("a+bADb", a, b), abs(a), "AD is the distance")


def unary(ctx):
    a = ctx.int("a")
    for code, w in (("-a", -a), ("+a", a), ("ABa", abs(a)),
                    ("SGa", 0 if a == 0 else -1 if a < 0 else 1),
                    ("DBa", 2 * a), ("SQa", a * a), ("HVa", a // 2),
                    ("HUa", -(-a // 2)), ("BNa", -a - 1), ("%a", a % 2),
                    ("HVa+HUa", a), ("HV DBa", a), ("-(-a)", a),
                    ("a-HVa-HVa", a % 2)):
        same(ctx, val(code, a), w, code)


def roots(ctx):
    """Roots and logarithms whose value is an integer."""
    k = int(ctx.int("k", 0, 16))
    for code in ("RT a", "a**0.5", "2RTa", "a**(1/2)"):
        same(ctx, val(code, k * k), k, f"{code} of {k * k}")
    same(ctx, val("RT SQa", k), k, "RT of SQ")
    if k:
        same(ctx, val("RT-SQa", k), None, "RT of a negative number")
        same(ctx, val("2RT-SQa", k), None, "square root of a negative number")
        same(ctx, val("(-a)**0.5", k), None, "** .5 of a negative number")
        same(ctx, val("(-a)**-0.5", k), None, "** -.5 of a negative number")
        same(ctx, val("(-a)**2.0", k), k * k, "** 2.0 of a negative number")
        same(ctx, val("1RTa", k), k, "first root")
        same(ctx, val("1RT-a", k), -k, "first root of a negative number")
        same(ctx, val("(-1)RT(1/a)", k if k & (k - 1) == 0 else 1),
             k if k & (k - 1) == 0 else 1, "root of exponent -1")
        same(ctx, val("0RTa", k), None, "zeroth root")
    same(ctx, val("(1/3)RTa", 2 * k), 8 * k ** 3, "cube as a root")


def logs(ctx):
    k = int(ctx.int("k", 0, 44))
    same(ctx, val("LB(Ea)", k), k, "LB")
    same(ctx, val("LB(a)", "." + str(5 ** k).zfill(k) if k else "1"), -k,
         "LB of a negative power of two")
    same(ctx, val("LN(a)", 1), 0, "LN 1")
    same(ctx, val("EX(a)", 0), 1, "EX 0")
    n = ctx.int("n", None, 0)
    same(ctx, val("LBa", n), None, "LB of no positive number")
    same(ctx, val("LNa", n), None, "LN of no positive number")


def zeros(ctx):
    x = ctx.choice("x", ["1", "2", ".5", "1.5", "7.25", "20"])
    z = ctx.choice("z", ["0", ".0", "00", "-0", "x"])
    same(ctx, val("a**b", z, x), 0, "0 to a positive power")
    same(ctx, val("aRTb", x, z), 0, "root of 0")
    same(ctx, val("a**-b", z, x), None, "0 to a negative power")
    same(ctx, val("(-a)RTb", x, z), None, "negative root of 0")
    same(ctx, val("a**b", x, z), 1, "to the power 0")
    same(ctx, val("(-a)**b", x, z), 1, "to the power 0")
    same(ctx, val("a**b", z, z), 1, "0**0")


def tens(ctx):
    a = ctx.int("a")
    k = int(ctx.int("k", 0, 25))
    same(ctx, val("aEEb", a, k), a * 10 ** k, "EE is exact")
    same(ctx, val("EEb", a, k), 10 ** k, "unary EE")
    same(ctx, val("Eb", a, k), 2 ** k, "unary E")
    same(ctx, val("b**(-1)*b", a, 2 ** k), 1, "negative power")


def steps(ctx):
    a = ctx.int("a")
    same(ctx, val("x:a;y:Ux;[x y]", a), [str(a + 1)] * 2, "U adds one")
    same(ctx, val("x:a;y:Dx;[x y]", a), [str(a - 1)] * 2, "D takes one away")
    same(ctx, val("x:a;U(U(Dx));x", a), a + 1, "nested steps")
    same(ctx, val("x:[a;a];Ux;x", a), [str(a + 1)] * 2, "each of a list")
    same(ctx, val("x:[a;a];D(x@1);x", a), [str(a), str(a - 1)], "one item")


def products(ctx):
    a, b = ints(ctx, "a", "b")
    same(ctx, val("a*b", a, b), a * b, "product")
    k = ctx.choice("k", (0, 1, -1, 2, 7, -13, 10 ** 12, 10 ** 30 + 1))
    same(ctx, val("a*b", a, k), a * k, "product")
    same(ctx, val("b*a", a, k), a * k, "product")
    if k != 0:
        same(ctx, val("a*b//b", a, k), a, "division undoes multiplication")
        same(ctx, val("a*b%b", a, k), 0, "no rest")


def divide(ctx, d):
    a = ctx.int("a")
    same(ctx, val("a//b", a, d), a // d, "quotient rounded down")
    same(ctx, val("a%b", a, d), a % d, "rest, of the divisor's sign")
    same(ctx, val("a//b*b+a%b", a, d), a, "quotient and rest")


def divide_any(ctx):
    a, b = ints(ctx, "a", "b")
    ctx.assume(b != 0)
    q = int(run("a//b", [a, b]))
    r = int(run("a%b", [a, b]))
    ctx.check(q * b + r == a, "quotient and rest make the dividend")
    ctx.check((0 <= r and r < b) if b > 0 else (b < r and r <= 0),
              "the rest is between 0 and the divisor")


def zero(ctx):
    a = ctx.int("a")
    z = ctx.choice("z", (0, "", "x", "0.0", "-0"))
    for op in ("/", "//", "%"):
        same(ctx, val(f"a{op}b", a, z), None, f"nothing {op} zero is nil")
    same(ctx, val("/a", z), None, "1/0 is nil")
    n = ctx.choice("n", (-1, -3))
    same(ctx, val("a**b", z, n), None, "zero to a negative power is nil")


def power(ctx, n):
    a = ctx.int("a")
    w = 1
    for i in range(n):
        w = a * w
    same(ctx, val("a**b", a, n), w, "power")
    same(ctx, val("aEb", a, n), w, "E is also power")
    same(ctx, val("**a", n), 2 ** n, "power of two")
    same(ctx, val("Ea", n), 2 ** n, "power of two")
    same(ctx, val("aEEb", a, n), a * 10 ** n, "E notation")
    same(ctx, val("EEa", n), 10 ** n, "power of ten")


def power_of(ctx):
    k = ctx.choice("k", (0, 1, -1, 2, -2, 3, 10, -7))
    n = ctx.int("n", 0, 45)
    n = int(n)
    same(ctx, val("a**b", k, n), k ** n, "power")
    same(ctx, val("a**b**c", 2, k * k % 5, 2), 2 ** ((k * k % 5) ** 2),
         "powers group from the right")


def bitwise(ctx, op):
    a = ctx.int("a", -2000, 2000)
    b = ctx.int("b", -2000, 2000)
    f = {"BA": lambda x, y: x & y, "BO": lambda x, y: x | y,
         "BX": lambda x, y: x ^ y}[op]
    same(ctx, val(f"a{op}b", a, b), f(a, b), "bitwise operator")
    same(ctx, val(f"a{op}b{op}b", a, b), f(f(a, b), b), "twice")


def masks(ctx):
    a = ctx.int("a")
    for k in (0, 1, 4, 8, 40):
        same(ctx, val("aBAb", a, 2 ** k - 1), a % 2 ** k, "mask")
        same(ctx, val("bBAa", a, 2 ** k - 1), a % 2 ** k, "mask")
    same(ctx, val("aBAb", a, -1), a, "mask of all bits")
    same(ctx, val("BNBNa", a), a, "complement twice")


def bits(ctx):
    n = int(ctx.int("n", 0, 45))
    same(ctx, val("BLa", 2 ** n), n + 1, "length in bits")
    same(ctx, val("BLa", 2 ** n - 1), n, "length in bits")
    same(ctx, val("BLa", -2 ** n), n + 1, "length in bits")


BIG = (2 ** 53, 2 ** 54, 2 ** 63, 2 ** 64, 10 ** 22, 2 ** 100, 3 ** 70,
       2 ** 1024)


def big(ctx):
    """Around the integers at which floats and machine words end."""
    a = ctx.choice("a", BIG) + ctx.choice("d", (-1, 0, 1))
    if ctx.bool("negative"):
        a = -a
    b = ctx.choice("b", (1, 2, 3, -7, 10, 2 ** 31, 2 ** 53 + 1, 10 ** 17))
    for code, w in (("BLa", len(bin(abs(a))) - 2), ("BNa", -a - 1),
                    ("aBAb", a & b), ("aBOb", a | b), ("aBXb", a ^ b),
                    ("bBAa", a & b), ("bBOa", a | b), ("bBXa", a ^ b),
                    ("a//b", a // b), ("a%b", a % b), ("b//a", b // a),
                    ("b%a", b % a), ("a*b", a * b), ("HVa", a // 2),
                    ("HUa", -(-a // 2)), ("a|<b", a // b * b),
                    ("a>|b", -(-a // b) * b), ("DBa", 2 * a), ("%a", a % 2),
                    ("a**3", a ** 3), ("SGa", 1 if a > 0 else -1),
                    ("ABa", abs(a)), ("aCMb", (a > b) - (a < b)),
                    ("aADb", abs(a - b)), ("MX[a;b;a-1]", max(a, b)),
                    ("MN[a;b;a-1]", min(a - 1, b))):
        if ("|<" in code or ">|" in code) and b < 0:
            continue
        same(ctx, val(code, a, b), w, f"{code} of big integers")


def many(ctx):
    x = ctx.int("x")
    i = int(ctx.int("i", 0, 8))
    ys = [3, 9, 4, 4, -2, 0, 8, 7, 1]
    r = ys[:i] + ys[i + 1:]
    ys[i] = x
    same(ctx, val("$+a", ys), sum(ys), "sum of nine")
    same(ctx, val("$-a", ys), ys[0] - sum(ys[1:]), "difference of nine")
    same(ctx, val("MXa", ys), x if x > max(r) else max(r), "MX of nine")
    same(ctx, val("MNa", ys), x if x < min(r) else min(r), "MN of nine")


def division(ctx):
    k = ctx.choice("k", (1, 2, 3, 7, 10, -1, -4, 1000))
    a = ctx.int("a", -60000, 60000)
    same(ctx, val("a*b/b", a, k), a, "an exact quotient is an integer")
    same(ctx, val("|<(a/b)", a, k), a // k, "floor of a quotient")
    same(ctx, val(">|(a/b)", a, k), -(-a // k), "ceiling of a quotient")
    same(ctx, val("a/b=a//b", a, k), 1 if a % k == 0 else 0,
         "a quotient is whole when there is no rest")


def order(ctx):
    a, b = ints(ctx, "a", "b")
    for code, w in (("aCMb", (a > b) - (a < b)),
                    ("SG(a-b)", (a > b) - (a < b)),
                    ("MX[a;b]", max(a, b)), ("MN[a;b]", min(a, b)),
                    ("M[b;a]", max(a, b)), ("N[b;a]", min(a, b)),
                    ("MX[a;b]+MN[a;b]", a + b),
                    ("MX[a;b]-MN[a;b]", abs(a - b))):
        same(ctx, val(code, a, b), w, code)


def texts(ctx):
    """Operands are the numbers their texts start with."""
    i = ctx.int("i")
    j = ctx.int("j")
    a, b = str(i) + "x", " " + str(j)
    for code, w in (("a+b", i + j), ("a-b", i - j), ("aADb", abs(i - j)),
                    ("-a", -i), ("ABb", abs(j)), ("DBa", 2 * i),
                    ("HVb", j // 2), ("a*c", 3 * i), ("b%c", j % 3),
                    ("b//c", j // 3), ("BNb", -1 - j), ("|<a", i),
                    ("RNb", j), ("aRZc", (abs(i) // 3 * 3)
                                 * (1 if i > 0 else -1))):
        same(ctx, val(code, a, b, "3.x"[:1]), w, code + " of texts")


def rounding(ctx, s):
    a = ctx.int("a")
    m = abs(s)
    if m == 0:
        for op in ("|<", ">|", "RZ", "RN"):
            same(ctx, val(f"a{op}b", a, s), a, "rounding to 0 does nothing")
        return
    down = a // m * m
    up = -(-a // m) * m
    same(ctx, val("a|<b", a, s), down, "rounding down")
    same(ctx, val("a>|b", a, s), up, "rounding up")
    same(ctx, val("aRZb", a, s), down if a >= 0 else up,
         "rounding to zero")
    n = int(run("aRNb", [a, s]))
    if a - down < up - a:
        same(ctx, n, down, "rounding to the nearest")
    elif a - down > up - a:
        same(ctx, n, up, "rounding to the nearest")
    else:
        same(ctx, n, down if down // m % 2 == 0 else up,
             "rounding a half to even")


def round_int(ctx):
    a = ctx.int("a")
    for op in ("|<", ">|", "RZ", "RN"):
        same(ctx, val(f"{op}a", a), a, "rounding an integer")
    b = ctx.int("b", -10 ** 9, 10 ** 9)
    for op in ("|<", ">|", "RZ", "RN"):
        same(ctx, val(f"{op}a", str(b) + ".0"), b, "rounding a whole number")


def decimal(ctx, n, m):
    d = ctx.string("d", n, alpha("01459"))
    f = ctx.string("f", m, alpha("0569"))
    neg = ctx.bool("negative")
    k = int(d)
    p = int(f)
    t = ("-" if neg else "") + d + "." + f
    half = 5 * 10 ** (m - 1)
    near = k + 1 if p > half or (p == half and k % 2 == 1) else k
    up = k + 1 if p > 0 else k
    if neg:
        want = (-up, -k, -k, -near)
    else:
        want = (k, up, k, near)
    for op, w in zip(("|<", ">|", "RZ", "RN"), want):
        same(ctx, val(f"{op}a", t), w, f"{op} of a decimal number")
    same(ctx, val("SGa", t), (-1 if neg else 1) if k or p else 0, "sign")
    same(ctx, val("ABa=b", t, d + "." + f), 1, "absolute value")
    same(ctx, val("-a=b", t, ("" if neg else "-") + d + "." + f), 1,
         "negative")


def extremes(ctx, n):
    xs = [ctx.int(f"x{i}") for i in range(n)]
    v = pip(xs)
    if n == 0:
        for op in ("MX", "MN", "M", "N"):
            same(ctx, val(f"{op}a", v), None, "of nothing: nil")
        return
    hi = lo = xs[0]
    for x in xs[1:]:
        hi = x if x > hi else hi
        lo = x if x < lo else lo
    for op, w in (("MX", hi), ("MN", lo), ("M", hi), ("N", lo)):
        same(ctx, val(f"{op}a", v), w, f"{op} of a list of integers")
    ts = [str(x) + "e" for x in xs]
    same(ctx, val("MXa", pip(ts)), str(hi) + "e",
         "the item with the greatest number")
    same(ctx, val("MNa", pip(ts)), str(lo) + "e",
         "the item with the least number")


def extremes_range(ctx, n):
    lo = ctx.int("lo")
    r = R(lo, lo + n)
    same(ctx, val("MXa", r), lo + n - 1 if n else None, "MX of a range")
    same(ctx, val("MNa", r), lo if n else None, "MN of a range")
    s = ctx.string("s", n, alpha("0369"))
    same(ctx, val("MXa", s), max([int(c) for c in s]) if n else None,
         "MX of the digits of a text")
    same(ctx, val("MNa", s), min([int(c) for c in s]) if n else None,
         "MN of the digits of a text")
