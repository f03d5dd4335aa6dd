"""Grouping of operators: precedence, associativity, chains, meta-operators.
The precedences of the operators are themselves symbolic integers."""

BOUNDS = {
    "quick": "expressions of up to 4 binary operators and up to 3 unary "
             "operators with every assignment of integer precedences and of "
             "associativities; every operator of the language against one "
             "operator of every precedence level",
    "thorough": "as quick with up to 5 binary operators",
}

BIN = ["+", "*", "-", "/", "%"]
UN = ["!", "UC", "LC"]

# The language's binary operators, loosest level first.
LEVELS = [
    ("R", ": ::"),
    ("L", "|"),
    ("L", "&"),
    ("L", "=="),
    ("R", "M MC ME MJ MM MP MS MU MF FI FN FE FU FX FJ SK DK V"),
    ("L", "\\|"),
    ("L", "\\&"),
    ("C", "< > = <= >= != LT GT Q LE GE NE #= #< #> ~="),
    ("L", "N NI"),
    ("L", "CB"),
    ("L", "AE AL PE PU PB PK"),
    ("L", "^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP CG ZG OG TD FD"),
    ("L", "WR ~"),
    ("L", "."),
    ("L", "RM DC"),
    ("L", "X"),
    ("L", "|| |> <| TM"),
    ("L", ", \\, RR TB"),
    ("L", "BA BO BX AT CM |< >| RZ RN"),
    ("L", "+ - AD"),
    ("L", "* / % //"),
    ("R", "** E EE RT"),
    ("L", "FB"),
    ("L", "@ @< @>"),
]
# Unary operators, with the number of binary levels that bind looser
UNLEVELS = [
    (0, "O P Y YO YP"),
    (3, "!"),
    (4, "V FI FN FU FX FJ RE"),
    (7, "\\!"),
    (9, "RP ST"),
    (10, "MX M MN N RC SH SN SS DN DS UQ EN PM FL FA"),
    (11, "PO DQ"),
    (12, "^ <> CH J RV R RF PZ QR QP Z ZD ZJ H S WV UW CP CG ZG OG EY TD FD"),
    (14, "X . K"),
    (17, "|| |> <| TM LC UC SC TC IC"),
    (18, ", \\, RR TB"),
    (19, "BN SI CO TA SE CS CT AT RD DG BL |< >| RZ RN"),
    (21, "+ - / % HV HU DB SQ ** E EE RT EX LN LB LD"),
    (23, "U D # A C AB SG FB"),
    (24, "@ @< @> ++ --"),
]
REPS = [":", "|", "&", "==", "M", "\\|", "\\&", "<", "N", "CB", "AE", "J",
        "WR", ".", "RM", "X", "TM", ",", "BA", "+", "*", "**", "FB", "@"]
TERNARY = [("?", 1), ("MZ", 5), ("MR", 5), ("\\?", 5), ("TR", 12), ("RA", 12),
           ("R", 12)]


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(1, 6 if t else 5):
        us.append((f"binary n={n}", "binary", {"n": n}, {"weight": 4 ** n}))
    for n, pos in [(1, [0]), (1, [1]), (1, [0, 1]), (2, [0]), (2, [1]),
                   (2, [2]), (2, [0, 1]), (2, [1, 2])] + (
                       [(2, [0, 1, 2]), (3, [0]), (3, [1]), (3, [2])] +
                       ([(3, [0, 1]), (3, [1, 2]), (3, [0, 2])]
                        if t else [])):
        us.append((f"unary n={n} at {pos}", "unary", {"n": n, "pos": pos},
                   {"weight": 10 ** n}))
    us.append(("chains", "chains", {"n": 4 if not t else 5}, {"weight": 20}))
    us.append(("compute-assign", "compute", {}, {"weight": 10}))
    us.append(("ternary", "ternary", {"n": 1}, {"weight": 9}))
    us.append(("brackets", "brackets", {}))
    for lev in range(len(LEVELS)):
        us.append((f"table level {lev}", "table", {"lev": lev},
                   {"weight": 20 * len(LEVELS[lev][1].split())}))
    for k in range(len(UNLEVELS)):
        us.append((f"unary table {k}", "untable", {"k": k},
                   {"weight": 10 * len(UNLEVELS[k][1].split())}))
    us.append(("ternary table", "tertable", {}, {"weight": 30}))
    return us


def show(code):
    return W.parsing.unparse(parse(code))


def bare(tree):
    return tree if isinstance(tree, str) else "(" + text_of(tree) + ")"


def text_of(tree):
    """The fully parenthesised text of a reference tree."""
    if isinstance(tree, str):
        return tree
    op = tree[0]
    if op == "chain":
        out = bare(tree[1])
        for i in range(2, len(tree), 2):
            out = out + " " + tree[i] + " " + bare(tree[i + 1])
        return out
    if len(tree) == 2:
        return op + " " + bare(tree[1])
    if len(tree) == 4:
        return bare(tree[1]) + " " + op + " " + bare(tree[2]) + "; " \
            + bare(tree[3])
    return bare(tree[1]) + " " + op + " " + bare(tree[2])


def climb(toks, prec, assoc, low, pos=0, unprec=None):
    """Precedence climbing on a list of names and operator texts."""
    t = toks[pos]
    if unprec is not None and t in unprec:
        arg, pos = climb(toks, prec, assoc, unprec[t] + 1, pos + 1, unprec)
        left = (t, arg)
    else:
        left = t
        pos += 1
    while pos < len(toks):
        op = toks[pos]
        p = prec[op]
        if low is not None and p < low:
            break
        a = assoc[op]
        right, pos = climb(toks, prec, assoc, p if a == "R" else p + 1,
                           pos + 1, unprec)
        if a == "C":
            if isinstance(left, tuple) and left[0] == "chain":
                left = left + (op, right)
            else:
                left = ("chain", left, op, right)
        else:
            left = (op, left, right)
    return left, pos


def install(ctx, ops):
    """Give these operators symbolic precedences and associativities."""
    table = W.operators.opsByArity[2]
    prec, assoc = {}, {}
    for k, o in enumerate(ops):
        p = ctx.int(f"prec{k}", 1, 60)
        right = ctx.bool(f"right{k}")
        for j in range(k):
            # operators of one level associate alike
            ctx.assume(implies(p == prec[ops[j]], right == assoc[ops[j]]))
        prec[o] = p
        assoc[o] = right
    for o in ops:
        assoc[o] = "R" if assoc[o] else "L"
        op = table[o].copy()
        op.precedence = prec[o]
        op.associativity = assoc[o]
        table[o] = op
    return prec, assoc


def implies(a, b):
    return (not a) or b


def check(ctx, code, tree, label):
    got = show(code)
    want = text_of(tree)
    ctx.check(got == want, label,
              lambda: f"{code!r} groups as {got!r}, expected {want!r}")


def binary(ctx, n):
    ops = BIN[:n]
    prec, assoc = install(ctx, ops)
    toks = ["a"]
    for o, x in zip(ops, "bcdef"):
        toks += [o, x]
    tree, _ = climb(toks, prec, assoc, None)
    check(ctx, " ".join(toks), tree,
          "binary operators group by precedence and associativity")


def unary(ctx, n, pos):
    ops = BIN[:n]
    prec, assoc = install(ctx, ops)
    unprec = {}
    table = W.operators.opsByArity[1]
    toks = []
    for i in range(n + 1):
        if i in pos:
            u = UN[len(unprec)]
            q = ctx.int("unprec" + u, 1, 60)
            for o in ops:
                ctx.assume(q != prec[o])
            op = table[u].copy()
            op.precedence = q
            table[u] = op
            unprec[u] = q
            toks.append(u)
        toks.append("abcdef"[i])
        if i < n:
            toks.append(ops[i])
    tree, _ = climb(toks, prec, assoc, None, 0, unprec)
    check(ctx, " ".join(toks), tree,
          "a unary operator takes everything that binds tighter than it")


def chains(ctx, n):
    """Comparisons chain; other operators around them have any precedence."""
    chain = W.operators.chain
    base = chain.precedence
    kinds = [ctx.choice(f"k{i}", ["<", "Q", "+"]) for i in range(n)]
    prec = {"<": base, "Q": base}
    assoc = {"<": "C", "Q": "C"}
    p = ctx.int("prec", 1, 60)
    ctx.assume(p != base)
    right = ctx.bool("right")
    table = W.operators.opsByArity[2]
    op = table["+"].copy()
    op.precedence = p
    op.associativity = assoc["+"] = "R" if right else "L"
    table["+"] = op
    prec["+"] = p
    toks = ["a"]
    for k, x in zip(kinds, "bcdef"):
        toks += [k, x]
    tree, _ = climb(toks, prec, assoc, None)
    check(ctx, " ".join(toks), tree,
          "comparisons at one level form one chain")


def compute(ctx):
    """Any operator with : groups like an assignment, right to left."""
    prec, assoc = install(ctx, BIN[:2])
    low = W.operators.opsByArity[2][":"].precedence
    ctx.assume(prec["+"] > low)
    ctx.assume(prec["*"] > low)
    prec["+:"] = prec["*:"] = prec[":"] = low
    assoc["+:"] = assoc["*:"] = assoc[":"] = "R"
    toks = ["a"]
    for i in range(3):
        toks += [ctx.choice(f"op{i}", ["+", "+:", "*:", ":"]), "bcd"[i]]
    tree, _ = climb(toks, prec, assoc, None)
    check(ctx, " ".join(toks), tree,
          "compute-and-assign binds like assignment")


def ternary(ctx, n):
    prec, assoc = install(ctx, BIN[:2])
    t = ctx.int("tprec", 1, 60)
    ctx.assume(t != prec["+"])
    ctx.assume(t != prec["*"])
    tright = ctx.bool("tright")
    table = W.operators.opsByArity[3]
    op = table["?"].copy()
    op.precedence = t
    op.associativity = "R" if tright else "L"
    table["?"] = op
    # a + b ? c * d; e * f: the middle is a whole expression
    left = ("+", "a", "b")
    mid = ("*", "c", "d")
    if prec["+"] > t:
        want = ("?", left, mid, ("*", "e", "f")) if prec["*"] > t \
            else ("*", ("?", left, mid, "e"), "f")
    else:
        if prec["*"] > t:
            want = ("+", "a", ("?", "b", mid, ("*", "e", "f")))
        elif prec["*"] > prec["+"] or (prec["*"] == prec["+"]
                                       and assoc["+"] == "R"):
            want = ("+", "a", ("*", ("?", "b", mid, "e"), "f"))
        else:
            want = ("*", ("+", "a", ("?", "b", mid, "e")), "f")
    check(ctx, "a + b ? c * d; e * f", want,
          "the middle of a ternary is a whole expression")


def brackets(ctx):
    """Brackets group whatever the precedences."""
    prec, assoc = install(ctx, BIN[:2])
    k = ctx.int("k", 0, 3)
    code, want = [("(a + b) * c", "(a + b) * c"),
                  ("a + (b * c)", "a + (b * c)"),
                  ("a * (b + c)", "a * (b + c)"),
                  ("[a + b] * c", "[a + b] * c")][int(k)]
    got = show(code)
    ctx.check(got == want, "brackets group first",
              lambda: f"{code!r} groups as {got!r}")


def pairwise(ctx, op, lev, rep, rl):
    a = LEVELS[lev][0]
    if lev == rl:
        if a == "C":
            w1 = ("chain", "a", op, "b", rep, "c")
            w2 = ("chain", "a", rep, "b", op, "c")
        elif a == "L":
            w1 = (rep, (op, "a", "b"), "c")
            w2 = (op, (rep, "a", "b"), "c")
        else:
            w1 = (op, "a", (rep, "b", "c"))
            w2 = (rep, "a", (op, "b", "c"))
    elif lev > rl:
        w1 = (rep, (op, "a", "b"), "c")
        w2 = (rep, "a", (op, "b", "c"))
    else:
        w1 = (op, "a", (rep, "b", "c"))
        w2 = (op, (rep, "a", "b"), "c")

    def one(t):
        # a lone comparison is written as a chain too
        return t
    check(ctx, f"a {op} b {rep} c", one(w1), "documented precedence")
    check(ctx, f"a {rep} b {op} c", one(w2), "documented precedence")


def table(ctx, lev):
    names = LEVELS[lev][1].split()
    op = names[int(ctx.int("op", 0, len(names) - 1))]
    ks = list(range(len(LEVELS)))
    for rl in ks:
        pairwise(ctx, op, lev, REPS[rl], rl)


def untable(ctx, k):
    looser, names = UNLEVELS[k]
    names = names.split()
    u = names[int(ctx.int("op", 0, len(names) - 1))]
    for rl, rep in enumerate(REPS):
        if rl >= looser:
            want = (u, (rep, "a", "b"))
        else:
            want = (rep, (u, "a"), "b")
        check(ctx, f"{u} a {rep} b", want, "documented precedence (unary)")


def tertable(ctx):
    t, looser = TERNARY[int(ctx.int("op", 0, len(TERNARY) - 1))]
    for rl, rep in enumerate(REPS):
        if rl >= looser:
            w1 = (t, (rep, "a", "b"), "c", "d")
            w2 = (t, "a", "b", (rep, "c", "d"))
        else:
            w1 = (rep, "a", (t, "b", "c", "d"))
            w2 = (rep, (t, "a", "b", "c"), "d")
        check(ctx, f"a {rep} b {t} c; d", w1, "documented precedence "
              "(ternary)")
        check(ctx, f"a {t} b; c {rep} d", w2, "documented precedence "
              "(ternary)")
