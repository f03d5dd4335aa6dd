"""repr: what RP and -p show evaluates back to the same value."""

BOUNDS = {
    "quick": "strings of up to 4 arbitrary characters (tab, LF, CR, "
             "printable ASCII, two non-ASCII), every integer, ranges with "
             "any integer ends, patterns of up to 2 arbitrary characters "
             "and all flags, lists of these nested to depth 2; functions "
             "of up to 3 representative tokens, and every one-operator "
             "function",
    "thorough": "strings up to 5 characters, patterns up to 3, functions of "
                "up to 4 tokens",
}

VOC = "ab1(){}[];:$!+-*?<FIWLO&@_"


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(0, 3):
        us.append((f"string n={n}", "string", {"n": n}, {"weight": 4 ** n}))
    for n in range(3, 6 if t else 5):
        us.append((f"string few n={n}", "string",
                   {"n": n, "voc": '"\\-0.7aA_\n\u0663'}, {"weight": 5 ** n}))
    us.append(("integer", "integer", {}))
    us.append(("range", "range_", {}))
    for n in range(0, 3 if t else 2):
        us.append((f"pattern n={n}", "pattern", {"n": n}, {"weight": 5 ** n}))
    us.append(("pattern few", "pattern", {"n": 3 if t else 2,
                                          "voc": "\\`a.\n"}, {"weight": 30}))
    us.append(("nested list", "nested", {}, {"weight": 20}))
    us.append(("nested string list", "nested_str", {"n": 2}, {"weight": 20}))
    us.append(("regex of string", "regex_of", {"n": 2}, {"weight": 9}))
    for c in VOC:
        us.append((f"function {c}", "function",
                   {"n": 2 + (1 if t else 0), "first": c}, {"weight": 15}))
    us.append(("function literal", "fliteral", {"n": 2}, {"weight": 15}))
    us.append(("function char", "fchar", {}, {"weight": 5}))
    us.append(("function interpolation", "finterp", {"n": 4}, {"weight": 5}))
    for k in range(8):
        us.append((f"function metaops binary {k}", "fmeta", {"part": k},
                   {"weight": 15}))
        us.append((f"function metaops unary {k}", "fmeta1", {"part": k},
                   {"weight": 8}))
    us.append(("function statements", "fstmt", {}, {"weight": 15}))
    for k in range(5):
        us.append((f"lambda constants {k}", "lambdas", {"k": k},
                   {"weight": 15}))
    for k in range(len(BUILT)):
        us.append((f"built lambdas {BUILT[k]}", "built", {"k": k}))
    us.append(("lambda strings", "lambda_str", {"n": 2}, {"weight": 15}))
    return us


def back(v):
    """Evaluate the repr of a value in a fresh state."""
    return run(repr(v))


def equal(ctx, got, want, label):
    ctx.record(repr(want))
    same(ctx, py(got), py(want), label)


def string(ctx, n, voc=None):
    v = S(ctx.string("s", n, alpha(voc) if voc else None))
    equal(ctx, back(v), v, "the repr of a string evaluates to it")


def integer(ctx):
    v = S(ctx.int("i"))
    equal(ctx, back(v), v, "the repr of an integer evaluates to it")
    equal(ctx, back(L([v, v])), L([v, v]), "also in a list")


def range_(ctx):
    lo = ctx.int("lo")
    hi = ctx.int("hi")
    k = int(ctx.int("kind", 0, 2))
    v = R(*[(lo, hi), (lo, None), (None, None)][k])
    equal(ctx, back(v), v, "the repr of a range evaluates to it")
    w = L([v, S(lo)])
    equal(ctx, back(w), w, "also in a list")


def even_slashes(s):
    """Only escaped backticks, no dangling backslash: what pattern literals
    can hold."""
    k = 0
    ok = True
    for c in s + "`":
        if c == "\\":
            k += 1
        else:
            if c == "`" and k % 2 == 1:
                return False
            k = 0
    return ok


def pattern(ctx, n, voc=None):
    s = ctx.string("s", n, alpha(voc) if voc else None)
    ctx.assume(even_slashes(s))
    import re
    flags = 0
    for f in (re.ASCII, re.IGNORECASE, re.MULTILINE, re.DOTALL):
        if ctx.bool(f"flag{int(f)}"):
            flags |= f
    v = P(s, flags)
    equal(ctx, back(v), v, "the repr of a pattern evaluates to it")
    equal(ctx, back(L([v, v])), L([v, v]), "also in a list")


def regex_of(ctx, n):
    s = ctx.string("s", n)
    v = run("Xa", [s])
    equal(ctx, back(v), v, "the repr of a pattern made from a string "
          "evaluates to it")


def nested(ctx):
    kinds = [int(ctx.int(f"k{i}", 0, 5)) for i in range(2)]
    i = ctx.int("i")

    def leaf(k, c):
        return [S(i), S("a" + c), NIL(), R(i, None), P(".*" + ("\\" + c)), L([])][k]
    c = ctx.string("c", 1, alpha('"\\ ;]a'))
    v = L([leaf(kinds[0], c), L([leaf(kinds[1], c), L([S(c)])])])
    equal(ctx, back(v), v, "the repr of a list evaluates to it")


def nested_str(ctx, n):
    a = S(ctx.string("a", n, alpha('"\\a;]')))
    b = S(ctx.string("b", n, alpha('"\\a;]')))
    v = L([a, L([b, a])])
    equal(ctx, back(v), v, "the repr of a list evaluates to it")


def plain(tree):
    """The parse tree without its parenthesis nodes, as nested tuples."""
    if isinstance(tree, list):
        if len(tree) == 2 and str(tree[0]) == "PAREN" \
                and not isinstance(tree[0], str):
            return plain(tree[1])
        return tuple(plain(x) for x in tree)
    if isinstance(tree, W.ptypes.Block):
        return ("fn", plain(tree.getStatements()),
                plain(tree.getReturnExpr()))
    if tree is NIL():
        return ("Nil", "()")
    return (type(tree).__name__, str(tree))


def same_fn(ctx, code):
    st = state()
    v = st.BLOCK(parse(code))
    text = repr(v)
    ctx.record(text)
    w = run(text)
    ctx.check(isinstance(w, W.ptypes.Block), "a function shows as a function",
              lambda: text)
    same(ctx, repr(w), text, "the repr of a function is stable")
    same(ctx, plain(w), plain(v),
         "the repr of a function is that function")


def function(ctx, n, first):
    parts = [first]
    for i in range(n):
        parts.append(ctx.string(f"t{i}", 1, alpha(VOC)))
    code = " ".join(parts)
    try:
        toks = scan(code)
        W.parsing.parse(toks)
    except (W.errors.BadSyntax, W.errors.IncompleteSyntax):
        ctx.check(True, "not a program")
        return
    if toks[0] is not None:
        return
    same_fn(ctx, code)


def fliteral(ctx, n):
    s = ctx.string("s", n, alpha('"\\ ;}`a\n'))
    q = ['"', "`", '\\"'][int(ctx.int("q", 0, 2))]
    code = q + s + q + "."
    code = code + q + s + q
    try:
        toks = scan(code)
        W.parsing.parse(toks)
    except (W.errors.BadSyntax, W.errors.IncompleteSyntax):
        ctx.check(True, "not a program")
        return
    if toks[0] is not None:
        return
    same_fn(ctx, code)


def fchar(ctx):
    c = ctx.string("c", 1)
    same_fn(ctx, "'" + c)
    same_fn(ctx, "a.'" + c)
    same_fn(ctx, "'" + c + ";P'" + c)
    same_fn(ctx, "{'" + c + "}")
    same_fn(ctx, "I a{'" + c + "}EL 5")


def finterp(ctx, n):
    s = ctx.string("s", n, alpha('\\aB"'))
    code = '\\"' + s + '\\"'
    try:
        toks = scan(code)
    except W.errors.IncompleteSyntax:
        ctx.check(True, "unterminated")
        return
    ctx.assume(len(toks) == 2)
    same_fn(ctx, code)


def fmeta(ctx, part):
    names = list(W.operators.opsByArity[2])[part::8]
    op = names[int(ctx.int("op", 0, len(names) - 1))]
    m = int(ctx.int("form", 0, 6))
    code = ["$ %s a", "\\$ %s a", "$ %s * a", "a %s : b", "$ %s : a",
            "\\$ %s * : a", "a %s b"][m] % op
    same_fn(ctx, code)


def fmeta1(ctx, part):
    names = list(W.operators.opsByArity[1])[part::8]
    op = names[int(ctx.int("op", 0, len(names) - 1))]
    m = int(ctx.int("form", 0, 3))
    code = ["%s * a", "%s * : a", "%s : a", "%s a"][m] % op
    same_fn(ctx, code)


STMTS = ["I a b EL c", "I a{b c}EL{d}", "I a{I b c EL d}", "F i a P i",
         "F[i;[m;k]]a{i+m k}", "L 5 P a", "LR`x`a{b}", "T a b", "W a{b;c}",
         "WG", "I a b EI c d EL e", "{a{b}}", "(f a b)", "(a)", "()",
         "[a;[b]]", "a?b;c?d;e", "a MZ b c", "a;b", "a<b<c", "(a<b)<c",
         "a:b:c", "(a:b):c", "{}", "I a{}", "a R b c", "a+(b-c)*d"]


def fstmt(ctx):
    a = STMTS[int(ctx.int("a", 0, len(STMTS) - 1))]
    b = STMTS[int(ctx.int("b", 0, len(STMTS) - 1))]
    same_fn(ctx, a + "; " + b)


LAMBDAS = ["_+a", "a**_", "_@a", "a.(-_)", "_MN a", "a\\?_b", "a<_<b",
           "(_+a)*b", "_ RA a b", "$+_+a", "_@a@b", "a AE _", "_J a"]


def lambdas(ctx, k):
    i = ctx.int("i", -12, 12)
    a = [S(i), R(i, i + 2), L([S(i), S("x")]), P("x", 2), NIL()][k]
    code = LAMBDAS[int(ctx.int("form", 0, len(LAMBDAS) - 1))]
    v = run(code, [a, 3])
    ctx.assume(isinstance(v, W.ptypes.Block))
    w = back(v)
    ctx.check(isinstance(w, W.ptypes.Block), "a lambda shows as a lambda")
    x = ctx.int("x", -3, 3)
    try:
        want = run("(a b)", [v, x])
    except Exception:
        return
    same(ctx, py(run("(a b)", [w, x])), py(want),
         "the repr of a lambda is that lambda")


# what may be inside a lambda, and what may be applied to it
BUILT = ["_<b", "_+b", "-_", "[_ b]", "(_@b)", "{a+\\b}", "_b",
         "b<_<c", "_~=`1`", "$+[_;b]", "_=b", "_.\"x\"", "b-_", "_ RA b c", "_|b", "_\\|b", "_MNb", "I_", "{x:a a<3}", "{P a}",
         "_RLb", "_#<b", "\\!_", "_NIb", "_X b", "{a:5 -a}"]
OUTER = ["h*5", "h-b", "b-h", "-h", "h<b", "b<h", "h=h", "h<1<c", "h@b",
         "[h]", "h\\?b c", "b\\?h c", "h MN b", "h.h", "#h", "h**2", "2**h",
         "h&b", "h\\&b", "!h", "\\!h", "h RA b c", "h J b", "$+h", "h+:b",
         "h Q b", "h ~= `1`", "AB h", "h AE b", "hRLb", "+*h", "h NI b"]


def built(ctx, k):
    """Lambdas made at run time by applying operators to lambdas."""
    op = ctx.choice("outer", OUTER)
    code = f"h:{BUILT[k]};{op}"
    args = [pip(x) for x in (4, 2, 3)]
    try:
        v = run(code, args)
    except Exception:
        ctx.check(True, "not a program")
        return
    ctx.assume(isinstance(v, W.ptypes.Block))
    w = back(v)
    ctx.check(isinstance(w, W.ptypes.Block), "a lambda shows as a lambda",
              lambda: repr(v))
    same(ctx, plain(w.getReturnExpr()), plain(run(repr(w)).getReturnExpr()),
         "the repr of a lambda is stable")
    x = ctx.choice("x", (1, 2, 3, "1", [1, 2]))
    y = ctx.int("y", 0, 3)
    try:
        want = run("(a b c)", [v, pip(x), y])
    except Exception:
        ctx.check(True, "the lambda cannot be called")
        return
    same(ctx, py(run("(a b c)", [w, pip(x), y])), py(want),
         f"the repr of a lambda is that lambda")


def lambda_str(ctx, n):
    s = ctx.string("s", n, alpha('"\\a;}-0'))
    v = run("_.a", [s])
    w = back(v)
    ctx.check(isinstance(w, W.ptypes.Block), "a lambda shows as a lambda")
    same(ctx, py(run("(a b)", [w, "x"])), "x" + s,
         "the repr of a lambda is that lambda")
