"""Lambdas: an operator on a function works on the function's results."""

BOUNDS = {
    "quick": "96 unary, 79 binary and 3 ternary operators; arguments: "
             "integers -1 to 3, texts of up to 2 characters of 0 a and "
             "space, lists of up to 2 of these, nested lists, ranges, nil, "
             "patterns; folds, scans and maps of 60 operators; chains of 3 "
             "with every pair of 6 comparisons, integers of any size; "
             "nestings to depth 3",
    "thorough": "texts of up to 3 characters, every pair of kinds of "
                "operands",
}

UNARY = ("\\! MX M MN N SN SS DN DS UQ EN PM FL FA PO DQ ^ <> CH J RV R RF "
         "PZ QR QP Z ZD ZJ H S WV UW CP CG ZG OG EY TD FD X . K || |> <| TM "
         "LC UC SC TC IC , \\, TB BN SI CO TA SE CS CT AT RD DG BL |< >| RZ "
         "RN + - / % HV HU DB SQ ** E EE RT EX LN LB LD U D # A C AB SG FB "
         "@ @< @> ++ --").split()
BINARY = ("\\| \\& < > = <= >= != LT GT Q LE GE NE #= #< #> ~= N NI CB AE AL "
          "PE PU PB PK ^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP CG ZG "
          "OG TD FD WR ~ . RM DC X || |> <| TM , \\, TB BA BO BX AT CM |< >| "
          "RZ RN + - AD * / % // ** E EE RT FB @ @< @>").split()
TERNARY = "\\? RA TR".split()
PLACES = ("PO", "DQ", "PU", "PB", "PK", "++", "--", "U", "D", "|<")
FOLDS = ("+", "-", "*", ".", "<", "=", "Q", "#<", "CM", "J", "Z", "AL", "@",
         "|", "&", "\\|", "==", "**", "X", "PE", "TB", "N")
KINDS = ("int", "text", "list", "lists", "range", "nil", "pattern")
SECOND = ("int", "text", "list")


def units(tier):
    t = tier == "thorough"
    us = []
    for op in UNARY:
        us.append((f"{op}", "unary", {"op": op, "t": t}))
    for op in BINARY:
        for k in KINDS:
            for f in ("left", "right", "both"):
                us.append((f"{k} {op} {f}", "binary",
                           {"op": op, "k": k, "form": f, "t": t},
                           {"weight": 2}))
    for op in TERNARY:
        us.append((f"{op}", "ternary", {"op": op, "t": t}))
    for op in FOLDS:
        us.append((f"fold {op}", "meta", {"op": op}))
    for op in ("+", "-", "LC", "#", "RV", "A", "SG", "J", "FB", "\\!"):
        us.append((f"map {op}", "mapped", {"op": op}))
    for op in COMPARE:
        us.append((f"chain {op}", "chain", {"op": op}))
    us.append(("capture", "capture", {}))
    us.append(("statements", "statements", {}))
    us.append(("compose", "compose", {}))
    us.append(("assignment", "assigned", {}))
    us.append(("everywhere", "everywhere", {}))
    us.append(("arguments", "arguments", {}))
    return us


COMPARE = ("<", ">", "=", "<=", ">=", "!=")


def value(ctx, kind, n, t=False, few=False):
    if kind == "int":
        return ctx.choice(n, (2, 0)) if few else ctx.int(n, -1, 3)
    if kind == "text":
        return "a0" if few else ctx.string(
            n, ctx.choice(n + "n", (1, 3) if t else (0, 2)), alpha("0a "))
    if kind == "list":
        return [1, "a"] if few else [ctx.int(n, -1, 3), "a"]
    if kind == "lists":
        return [[1, 2], ["a", "bc"]]
    if kind == "range":
        return R(*ctx.choice(n, ((-1, 2), (1, 0))))
    if kind == "nil":
        return None
    return P("a|(b)")


def agree(ctx, code, plain, args, label, pre=""):
    """`code` builds a function which gives, for the arguments, what the
    program `plain` gives."""
    want = items(run(pre + plain, args))
    got = items(run(f"{pre}f:({code});(f " +
                    " ".join("abcde"[:len(args)]) + ")", args))
    same(ctx, got, want, label)


def unary(ctx, op, t):
    k = ctx.choice("kind", KINDS)
    x = value(ctx, k, "x", t)
    if op in ("++", "--", "PO", "DQ"):
        # the change is to the parameter
        agree(ctx, f"{op} _", f"{op} a", [x], f"{op} _")
        return
    agree(ctx, f"{op} _", f"{op} a", [x], f"{op} _")
    agree(ctx, f"{op} {{c:a;c}}", f"{op} a", [x], f"{op} of a function")
    agree(ctx, f"{op} B", f"{op} b", [1, x], f"{op} of the second argument")
    y = run(f"x:{op} _;[(x a);x M [a]]", [x])
    w = items(run(f"{op} a", [x]))
    if k != "nil":
        same(ctx, items(y), [w, [w]], f"{op} _, called and mapped")


def binary(ctx, op, k, form, t):
    m = ctx.choice("kind", KINDS if t else SECOND)
    x = value(ctx, k, "x", t)
    y = value(ctx, m, "y", t, not t)
    if op == "@*" and k == "pattern" and form != "left":
        return ctx.check(True, "a pattern is no haystack")
    if form == "left":
        agree(ctx, f"_ {op} y", f"a {op} y", [x], f"_ {op} value",
              "y:" + lit(y) + ";")
        agree(ctx, f"{{c:a;c}} {op} y", f"a {op} y", [x],
              f"function {op} value", "y:" + lit(y) + ";")
    elif form == "right":
        if op in PLACES and op != "|<":
            return ctx.check(True, "a value is no place")
        agree(ctx, f"y {op} _", f"y {op} a", [x], f"value {op} _",
              "y:" + lit(y) + ";")
    else:
        agree(ctx, f"_ {op} B", f"a {op} b", [x, y], f"_ {op} B")
        if op not in PLACES or op == "|<":
            agree(ctx, f"B {op} _", f"b {op} a", [x, y], f"B {op} _")
            agree(ctx, f"{{c:a;c}} {op} {{d:b;d}}", f"a {op} b", [x, y],
                  f"function {op} function")


def lit(v):
    """The program text of a given value."""
    return repr(pip(v))


def ternary(ctx, op, t):
    ks = [ctx.choice(f"kind{i}", SECOND) for i in range(3)]
    x, y, z = [value(ctx, k, n, t, n != "x") for k, n in zip(ks, "xyz")]
    py_ = "y:" + lit(y) + ";z:" + lit(z) + ";"
    agree(ctx, f"_ {op} y z", f"a {op} y z", [x], f"_ {op}", py_)
    agree(ctx, f"y {op} _ z", f"y {op} a z", [x], f"{op} _", py_)
    agree(ctx, f"y {op} z _", f"y {op} z a", [x], f"{op} last _", py_)
    agree(ctx, f"_ {op} B {{c}}", f"a {op} b c", [x, y, z],
          f"{op} of three functions")
    agree(ctx, f"{{d:a;d}} {op} B z", f"a {op} b z", [x, y],
          f"{op} of two functions", py_)


def meta(ctx, op):
    v = ctx.choice("v", ([1, 2], ["ab", "0"], [], [[1, 2], [3]]))
    i = ctx.int("i", 0, 3)
    x = v + [i] if op not in ("TB", "X", "**") else v
    o = op if not op[0].isalpha() else " " + op
    agree(ctx, f"${o}_", f"${o}a", [x], f"fold of _ with {op}")
    agree(ctx, f"\\${o}_", f"\\${o}a", [x], f"scan of _ with {op}")
    agree(ctx, f"1+${o}{{c:a;c}}", f"1+${o}a", [x], "in an expression")
    agree(ctx, f"${o}(_ AE [1])", f"${o}(a AE [1])", [x], "of an expression")


def mapped(ctx, op):
    v = ctx.choice("v", ([1, 2], ["aB", "0"], [], [["a", 2], [3]]))
    i = ctx.int("i", 0, 9)
    x = v + [i]
    o = op + "*"
    agree(ctx, f"{o}_", f"{o}a", [x], f"{op} mapped over _")
    agree(ctx, f"1.{o}{{c:a;c}}", f"1.{o}a", [x], "in an expression")
    agree(ctx, f"{o}{o}(_ AL [1])", f"{o}{o}(a AL [1])", [x],
          "of an expression")


def chain(ctx, op):
    x, y, z = ctx.int("x"), ctx.int("y"), ctx.int("z")
    o = ctx.choice("o", COMPARE)
    r = {"<": lambda u, v: u < v, ">": lambda u, v: u > v,
         "=": lambda u, v: u == v, "<=": lambda u, v: u <= v,
         ">=": lambda u, v: u >= v, "!=": lambda u, v: u != v}
    w = 1 if r[op](x, y) and r[o](y, z) else 0
    for code, args in ((f"f:_{op}b{o}c;(f a)", [x, y, z]),
                       (f"f:a{op}_{o}c;(f b)", [x, y, z]),
                       (f"f:a{op}b{o}_;(f c)", [x, y, z]),
                       (f"f:_{op}b{o}B;(f a c)", [x, y, z]),
                       (f"f:_{op}B{o}{{c}};(f a b c)", [x, y, z]),
                       (f"f:{{x:a;x}}{op}{{y:b;y}}{o}c;(f a b)", [x, y, z])):
        same(ctx, val(code, *args), w, code)
    same(ctx, val(f"f:_{op}b{o}b;x:f;b:0;[(x a);(f a)]", x, y),
         [str(1 if r[op](x, y) and r[o](y, y) else 0)] * 2,
         "a chain takes the values of then")


def capture(ctx):
    """The values of the other operands are those at the building."""
    x, y, z = ctx.int("x"), ctx.int("y"), ctx.int("z")
    same(ctx, val("y:b;f:_+y;y:c;(f a)", x, y, z), x + y, "variable")
    same(ctx, val("l:[b;1];f:_+l;l@0:c;(f a)", x, y, z),
         [str(x + y), str(x + 1)], "list")
    same(ctx, val("y:b;f:y-_;g:f-y;y:c;[(f a);(g a)]", x, y, z),
         [str(y - x), str(y - x - y)], "twice")
    same(ctx, val("F i,3 l AL:[_-i];[(l@0 a);(l@1 a);(l@2 a)]", x),
         [str(x), str(x - 1), str(x - 2)], "loop variable")
    same(ctx, val("f:_+(b-c);b:9;c:9;(f a)", x, y, z), x + (y - z),
         "expression")
    same(ctx, val("f:{_+a};g:(f b);(g a)", x, y), x + y, "parameter")
    same(ctx, val("y:b;f:{a+y};y:c;(f a)", x, y, z), x + z,
         "a variable inside a function is looked up when called")
    same(ctx, val("y:b;f:{a+y}-y;y:c;(f a)", x, y, z), x + z - y,
         "inside and outside")
    same(ctx, val("i:0;f:_+Ui;[(f a);(f a);i]", x),
         [str(x + 1), str(x + 1), "1"], "effects happen at the building")
    same(ctx, val("i:0;f:{Ui;a}+i;[(f a);(f a);i]", x),
         [str(x), str(x), "2"], "statements happen at every call")


def statements(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("f:{l PB 1;a}-{l PB 2;b};z:(f a b);z.l", x, y),
         [str(x - y) + "1", str(x - y) + "2"], "statements of both, in order")
    same(ctx, val("f:{c:a;c+1}*2;(f a)", x), 2 * (x + 1), "left")
    same(ctx, val("f:2*{c:a;c+1};(f a)", x), 2 * (x + 1), "right")
    same(ctx, val("f:-{c:a;c+1};(f a)", x), -(x + 1), "unary")
    same(ctx, val("f:{c:a;c}+{d:b;d}-{x:a;x};(f a b)", x, y), y, "three")
    same(ctx, val("f:{c:a;c}+{c:b;c};(f a b)", x, y), 2 * y,
         "all statements run before the results are joined")
    same(ctx, val("f:{I a>0 {c:1};c}+2;[(f 1);(f 0)]"), ["3", None],
         "commands")
    same(ctx, val("f:{}.1;(f a)", x), None, "an empty function gives nil")
    same(ctx, val("f:$+{c:a;c AL [1]};(f [a;b])", x, y), x + y + 1, "fold")
    same(ctx, val("f:{i+:a;i};g:f+f;[(g a);i]", x), [str(4 * x), str(2 * x)],
         "the statements of a function and itself")
    same(ctx, val("f:{i+:a;i};h:{i+:a;i};g:f-h;[(g b);i]", x, y),
         ["0", str(2 * y)], "the same statements twice")
    same(ctx, val("f:{i+:a;i};g:f+f*f;[(g 1);i]"), ["12", "3"],
         "and thrice")
    same(ctx, val("f:{l PB a;a};g:f<f=f;z:(g a);[z;#l]", x), ["0", "3"],
         "in a chain")
    same(ctx, val("f:{c:[a;b];c}*2;(f a b)", x, y),
         [str(2 * x), str(2 * y)], "itemwise")


def compose(ctx):
    x, y = ctx.int("x", -999, 999), ctx.int("y", -99, 99)
    for code, w in (("_+1-_", 1), ("2*_+_", 3 * x), ("-_+B", y - x),
                    ("(_+1)-(2+_)", -1), ("-(-_)", x),
                    ("_-(B-(_-B))", 2 * x - 2 * y),
                    ("3*(_+2*B)-_", 2 * x + 6 * y),
                    ("$+[1;2]+_", x + 3),
                    ("$+([1;2]+_)", 2 * x + 3), ("#(_.B)<0", 0)):
        same(ctx, val(f"f:({code});(f a b)", x, y), w, code)
    same(ctx, val("f:[_;_+1]+1;[(f@0 a);(f@1 a)]", x),
         [str(x + 1), str(x + 2)], "a list of functions, item by item")
    same(ctx, val("f:1-[_;[B]];[(f@0 a);(f@1@0 a b)]", x, y),
         [str(1 - x), str(1 - y)], "nested lists of functions")
    same(ctx, val("f:_+[1;2];(f a)", x), [str(x + 1), str(x + 2)],
         "a function and a list")
    same(ctx, val("f:_+1;g:f*2;h:g-f;(h a)", x), x + 1, "of named ones")
    same(ctx, val("f:_+1;f:f*f;(f a)", y), (y + 1) * (y + 1), "with itself")
    same(ctx, val("f:_;F i,5 f:f+_;(f a)", x), 6 * x, "in a loop")
    same(ctx, val("f:_@1;(f [a;b])", x, y), y, "index")
    same(ctx, val("f:[a;b]@_;[(f 0);(f 1)]", x, y), [str(x), str(y)],
         "as index")
    same(ctx, val("f:_@B;(f [a;b] 1)", x, y), y, "both")
    same(ctx, val("f:(_@1).2;(f [a;b])", x, y), str(y) + "2", "of an index")


def assigned(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("f:_;f+:b;(f a)", x, y), x + y, "+:")
    same(ctx, val("f:_;f-:_+1;(f a)", x), -1, "-: a function")
    same(ctx, val("f:[_;_];f+:b;(f@1 a)", x, y), x + y, "+: a list")
    same(ctx, val("f:[_;5];f@0*:2;[(f@0 a);f@1]", x), [str(2 * x), "5"],
         "*: an item")
    same(ctx, val("f:b;f-:_;(f a)", x, y), y - x, "a value becomes one")


def everywhere(ctx):
    """Built functions are functions wherever one is taken."""
    n = ctx.choice("n", (0, 1, 2, 3))
    xs = [ctx.int(f"x{i}", -9, 99) for i in range(n)]
    same(ctx, val("(2*_+1)M a", xs),
         [str(2 * x + 1) for x in xs], "M")
    same(ctx, val("(_>3)FI a", xs), [str(x) for x in xs if x > 3], "FI")
    same(ctx, val("(2<_<=50)FI a", xs),
         [str(x) for x in xs if 2 < x <= 50], "FI with a chain")
    same(ctx, val("-_SK a", xs),
         [str(x) for x in sorted(xs, key=lambda v: -v)], "SK")
    same(ctx, val("(B-_)MP a", xs),
         [str(v - u) for u, v in zip(xs, xs[1:])], "MP")
    same(ctx, val("(_+B)ME a", xs),
         [str(i + x) for i, x in enumerate(xs)], "ME")
    same(ctx, val("(_-B)MZ a RVa", xs),
         [str(u - v) for u, v in zip(xs, xs[::-1])], "MZ")


def arguments(ctx):
    """Missing arguments are nil, others are ignored; a is bound at call."""
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("f:_+B;(f a)", x), None, "a missing argument is nil")
    same(ctx, val("f:_+1;(f a b)", x, y), x + 1, "one too many")
    same(ctx, val("x:_+1;y:{(x b)+a};(y a b)", x, y), x + y + 1,
         "the caller's a is not f's")
    same(ctx, val("f:{_+a};((f b) a)", x, y), x + y, "a function that builds functions")
    same(ctx, val("((_-B) a b)", x, y), x - y, "called at once")
    same(ctx, val("f:(_-B);f:f-f;(f a b)", x, y), 0, "difference")
