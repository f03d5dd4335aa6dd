"""Every operator gives a Pip value for every argument."""

BOUNDS = {
    "quick": "every unary and binary operator of the table (RE and the "
             "evaluation of text by V apart) on all 12 kinds of values in "
             "each place, ternary ones on 8 kinds: integers -3 to 4, given "
             "decimals, texts of up to 2 characters of 01-.a and space, "
             "lists of up to 3 items nested to depth 2, finite ranges of up "
             "to 3 items, infinite ranges (for operators that do not visit "
             "every item), nil, 4 patterns, functions",
    "thorough": "the same with texts of up to 3 characters and lists of up "
                "to 3 such texts",
}

KINDS = ("int", "dec", "text", "[]", "[int]", "[text]", "[[]]", "odd",
         "range", "nil", "pattern", "function")
TERNARY = ("int", "text", "[int]", "[text]", "range", "nil", "pattern",
           "function")

UNARY = ('O P Y YO YP ! V FI FN FU FX FJ \\! RP ST MX M MN N RC SH SN '
    'SS DN DS UQ EN PM FL FA PO DQ ^ <> CH J RV R RF PZ QR QP Z '
    'ZD ZJ H S WV UW CP CG ZG OG EY TD FD X . K || |> <| TM LC UC '
    'SC TC IC , \\, RR TB BN SI CO TA SE CS CT AT RD DG BL |< >| '
    'RZ RN + - / % HV HU DB SQ ** E EE RT EX LN LB LD U D # A C '
    'AB SG FB @ @< @> ++ -- ').split()
BINARY = ('| & == M MC ME MJ MM MP MS MU MF FI FN FE FU FX FJ SK DK V '
    '\\| \\& < > = <= >= != LT GT Q LE GE NE #= #< #> ~= N NI CB AE '
    'AL PE PU PB PK ^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP '
    'CG ZG OG TD FD WR ~ . RM DC X || |> <| TM , \\, RR TB BA BO '
    'BX AT CM |< >| RZ RN + - AD * / % // ** E EE RT FB @ @< @> ').split()
# operators that do not visit every item of an endless range
ENDLESS = ('O P Y YO YP ! V \\! RP ST RC SH SN SS DN DS UQ EN PM PO DQ <> '
    'CH RV R RF PZ QR QP H S WV UW FD . LC UC SC TC IC + U D # @ @< @> ++ '
    '--').split()
TERNARYOPS = ('? MR MZ \\? RA TR R ').split()


# what an operator does not apply to: kinds of operand by operators, written
# with a letter for each of KINDS and endless (for binary ones left:right)
LETTER = dict(zip(KINDS + ("endless",), "idt0nsmorupfe"))
NIL1 = {
    "O P Y YO YP FL FA X . K + - A C":
        "u",
    "V":
        "0nsmorupe",
    "FI FN FU FX FJ":
        "upf",
    "MX M MN N PO @":
        "0up",
    "RC DQ":
        "0upe",
    "SH SN SS DN DS EN PM <> CH RV R RF PZ QR QP H WV UW # @<":
        "upe",
    "UQ ^ J Z ZD ZJ S CP CG ZG OG EY TD || |> <| TM LC UC SC TC IC RR "
    "TB BN SI CO TA SE CS CT AT RD DG BL |< >| RZ RN / % HV HU DB SQ ** "
    "E EE RT EX LN LB LD U D AB SG @> ++ --":
        "up",
    "FD":
        "moupe",
    "\\,":
        "p",
    "FB":
        "dup",
}

NIL2 = {
    "| \\|":
        "0u:u",
    "&":
        "dnsmof:u u:idt0nsmorupf",
    "M MM MF":
        "idt0nsmor:up upf:upf",
    "MC":
        "idt0nsmorupf:0moupf",
    "ME MP MU FI FN FE FU FX FJ SK DK":
        "idt0nsmor:idt0nsmorup up:idt0nsmorupf f:upf",
    "MJ":
        "idt0nsmor:up u:idnsmoupf pf:upf",
    "\\&":
        "dnsmo:u u:idt0nsmorup",
    "#= #< #> Z CP":
        "idt0nsmor:up up:idt0nsmorup",
    "N":
        "u:idtr",
    "CB UW":
        "idt0nsmor:0nsmorup up:idt0nsmorup",
    "PK":
        "idtnsmor:0nsmorup 0up:idt0nsmorup",
    "^":
        "idt:u up:idtup",
    "^@":
        "idt0nsmor:moup up:idt0nsmorup",
    "@? @*":
        "idt:u r:up up:idt0nsmorup",
    "<> CH H S @< @>":
        "idt0nsmor:up up:idtup",
    "J JW":
        "idt0nsmor:u up:idtup",
    "RL":
        "idt0nsmorup:0nsmorup",
    "ZD RM":
        "up:idt0nsmorup",
    "WV":
        "idt0nsmoru:p p:idt0nsmorup",
    "CG ZG OG TB BA BO BX AT |< >| RZ RN AD / % // ** E EE RT":
        "idt:up up:idtup",
    "TD":
        "idt:0nsmorup up:idt0nsmorup",
    "FD":
        "idt0nsr:0nsmorup moup:idt0nsmorup",
    "WR .":
        "idtp:u u:idtup",
    "~":
        "it:du d:u u:idtup p:up",
    "DC":
        "u:idtup",
    "X":
        "idtp:up u:idtup",
    "|| |> <|":
        "u:idtrup p:idtrp",
    "TM":
        "idt:p u:idtrup p:idtrp",
    ",":
        "idtu:p p:idtu",
    "\\,":
        "idtu:p p:idtup",
    "RR":
        "idtu:up p:idtup",
    "+":
        "idt:up r:rup u:idtrup p:idtru",
    "-":
        "idt:up r:rup up:idtrup",
    "*":
        "idt:u u:idtup p:up",
    "FB":
        "it:up dup:idtup",
    "@":
        "idtnsmor:u 0:idtu up:idt0nsmorup",
}


def inapplicable(op, k, m=None):
    """Whether the operator has no meaning for these kinds of operands."""
    for ops, kinds in (NIL1 if m is None else NIL2).items():
        if op in ops.split():
            if m is None:
                return LETTER[k] in kinds
            for row in kinds.split():
                left, right = row.split(":")
                if LETTER[k] in left and LETTER[m] in right:
                    return True
    return False


def units(tier):
    t = tier == "thorough"
    us = []
    for op in UNARY:
        for k in KINDS:
            us.append((f"{op} {k}", "unary", {"op": op, "k": k, "t": t}))
    for op in ENDLESS:
        us.append((f"{op} endless", "unary", {"op": op, "k": "endless",
                                              "t": t}))
    for op in BINARY:
        for k in KINDS:
            us.append((f"{k} {op}", "binary", {"op": op, "k": k, "t": t},
                       {"weight": 3}))
    for op in TERNARYOPS:
        for k in TERNARY:
            us.append((f"{k} {op}", "ternary", {"op": op, "k": k, "t": t},
                       {"weight": 9}))
    for op in FOLDS:
        us.append((f"fold {op}", "folded", {"op": op}))
    return us


FOLDS = ("+", "-", "*", "/", "%", "//", "**", "<", "=", "Q", "?", ".", "@",
         "J", "CM", "AL", "Z", "RL", "&", "|", "==", ",", "TB", "WV")


def value(ctx, kind, n, t=False, few=False):
    if kind == "int":
        return ctx.choice(n, (-1, 0, 2)) if few else ctx.int(n, -1, 3)
    if kind == "dec":
        return "2.5" if few else ctx.choice(n, ("2.5", "-0.5", "1e+999"))
    if kind == "text":
        k = ctx.choice(n + "n", (0, 1, 2, 3) if t else (0, 1))
        return ctx.string(n, k, alpha("0 a") if few else alpha("0-a ."))
    if kind == "[]":
        return []
    if kind == "[int]":
        if few:
            return [2, -1]
        return [ctx.int(n, -1, 3)] + [1] * ctx.choice(n + "n", (0, 2))
    if kind == "[text]":
        return ["a", ""] if few else [ctx.string(n, 1, alpha("0-a ")), "ab"]
    if kind == "[[]]":
        if few:
            return [[2, "b"], []]
        return ctx.choice(n, ([[1, "b"], []], [["2", "3"], ["x", "-1"]],
                              [[]]))
    if kind == "odd":
        if few:
            return L([NIL()])
        k = ctx.choice(n, (0, 1, 2, 3) if t else (0, 2))
        return L([(NIL(), P("a"), run("{a}"), R(0, 2))[k]])
    if kind == "range":
        return R(*ctx.choice(n, ((-1, 2), (1, 0)) if few else
                             ((-2, 0), (0, 2), (1, -1))))
    if kind == "nil":
        return None
    if kind == "pattern":
        return P(ctx.choice(n, ("a", "") if few else ("", "a", "(a)|b")))
    if kind == "endless":
        return R(ctx.choice(n, (-1, 2)), None)
    return run("{a}" if few else ("{a}", "_+1")[ctx.choice(n, (0, 1))])


def is_value(ctx, v, label):
    ctx.check(isinstance(v, W.ptypes.PipType), label,
              lambda: f"got a {type(v).__name__}")
    # printing it is possible as well
    r = repr(v)
    ctx.check(isinstance(r, str) and isinstance(str(v), str),
              f"{label} (its texts)")


def do(ctx, code, args, label, nil=False):
    st = state(True)
    v = run(code, args, st)
    is_value(ctx, v, label)
    if nil:
        ctx.check(v is NIL(), f"{label} is nil: it does not apply",
                  lambda: f"got {v!r}")


def unary(ctx, op, k, t):
    x = value(ctx, k, "x", True)
    if op == "V" and k in ("int", "dec", "text"):
        return ctx.check(True, "V evaluates a text")
    nil = inapplicable(op, k)
    do(ctx, f"{op} a", [x], f"{op} of {k}", nil)
    if not W.operators.opsByArity[1][op].flags & W.operators.RVALS:
        do(ctx, f"x:a;{op} x", [x], f"{op} of {k} in a variable",
           nil)
        do(ctx, f"x:[a];{op}(x@0)", [x], f"{op} of {k} in a list", nil)


def binary(ctx, op, k, t):
    m = ctx.choice("kind", KINDS)
    if op == "V" and "function" not in (k, m):
        return ctx.check(True, "V evaluates a text")
    bits = op in ("BA", "BO", "BX")
    x = value(ctx, k, "x", t, bits)
    y = value(ctx, m, "y", t, bits or not t)
    nil = inapplicable(op, k, m)
    do(ctx, f"a {op} b", [x, y], f"{k} {op} {m}", nil)
    if not W.operators.opsByArity[2][op].flags & W.operators.RVALS:
        do(ctx, f"x:a;y:b;x {op} y", [x, y], f"{k} {op} {m}, variables",
           nil)


def ternary(ctx, op, k, t):
    m = ctx.choice("kind", TERNARY)
    o = ctx.choice("other", TERNARY)
    x = value(ctx, k, "x", t, not t)
    y = value(ctx, m, "y", t, not t)
    z = value(ctx, o, "z", t, not t)
    do(ctx, f"a {op} b c", [x, y, z], f"{k} {op} {m} {o}")


def folded(ctx, op):
    k = ctx.choice("kind", ("text", "[]", "[int]", "[text]", "[[]]", "odd",
                            "range", "nil", "pattern", "function"))
    x = value(ctx, k, "x")
    if op == "?":
        do(ctx, "! *a", [x], f"! mapped over {k}")
        return do(ctx, "# *a", [x], f"# mapped over {k}")
    do(ctx, f"$ {op}a", [x], f"fold of {k} with {op}")
    do(ctx, f"\\$ {op}a", [x], f"scan of {k} with {op}")
