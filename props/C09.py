"""Values are never shared: changing one variable changes nothing else."""

BOUNDS = {
    "quick": "lists of 3 items holding lists of 2, strings and ranges of 3; "
             "26 ways to change a variable in place, each against 30 ways "
             "in which another value could share it; every integer item "
             "and index",
    "thorough": "the same, and every pair of two changes in a row",
}

# ways to change x in place; c is an index, d a value
CHANGES = [
    "x@c:d", "x@0@c:d", "x@c@1:d", "x@(0,2):[d d]", "x@<1:[d]", "x@>1:[d]",
    "(xH2):[d]", "(xS2):[d d d]", "xPUd", "xPBd", "POx", "DQx", "xPKc",
    "PO(x@0)", "DQ(x@0)", "x@0PUd", "x@0PBd", "x@0PKc", "x@0::x@2",
    "x@0@0::x@2@1", "[x@0 x@1]:[d d]", "x@0+:d", "x+:d", "++(x@0)",
    "U(x@0@c)", "xPU:d", "xAE:d", "RV:x", "x:d",
]

# ways another value could come to share x: (set-up with a the value,
# expression observed); y must be what it was
SHARES = [
    ("x:a;y:x", "y"),
    ("y:a;x:y", "y"),
    ("x:a", "a"),
    ("x:a", "g@0"),
    ("x:a;y:[x]", "y"),
    ("x:a;y:[x x]", "y"),
    ("y:[a];x:y@0", "y"),
    ("y:[[0 a]];x:y@0@1", "y"),
    ("x:a;y:x;z:y;y:0", "z"),
    ("x:y:a", "y"),
    ("y:x:a", "y"),
    ("x:a;y:(xAE0)", "y"),
    ("x:a;y:[0];yPUx", "y"),
    ("x:a;y:[0];yPBx", "y"),
    ("x:a;y:[0 0];y@1:x", "y"),
    ("y:[a 0];x:POy;yPUx", "y"),
    ("x:a;y:{a}x", "y"),
    ("y:a;x:{a}y", "y"),
    ("x:a;y:{x}0", "y"),
    ("x:a;y:{a}M[x x]", "y"),
    ("x:a;y:x MZ:{a}x", "y"),
    ("x:a;[y z]:[x x]", "[y z]"),
    ("[x y]:[a a]", "y"),
    ("x:a;F z[x x]{y:z}", "y"),
    ("y:0;x:a;x::y;z:y;x:a;y:[x]", "y"),
    ("x:a;y:RVRVx", "y"),
    ("x:a;y:x@[0 1 2]", "y"),
    ("x:a;y:x@(0,3)", "y"),
    ("x:a;y:x|0", "y"),
    ("x:a;y:1&x", "y"),
    ("x:a;y:1?x 0", "y"),
    ("x:a;Yx", "y"),
    ("x:a;y:xRL2", "y"),
    ("x:a;y:[x]WV[x]", "y"),
    ("x:a;y:xZx", "y"),
    ("x:a;y:FI[x]", "y"),
    ("x:a;y:$AE[[] x]", "y"),
    ("x:a;y:x RA 7 0", "y"),
    ("x:a;y:_SK[x]", "y"),
]
del SHARES[20]


def units(tier):
    us = []
    for k in range(len(CHANGES)):
        us.append((f"list {CHANGES[k]}", "shared", {"k": k}, {"weight": 5}))
    for k in range(8):
        us.append((f"range or string {k}", "flat", {"part": k}))
    us.append(("function argument", "argument", {}, {"weight": 3}))
    us.append(("function argument nested", "argument2", {}))
    us.append(("loop variable", "loopvar", {}))
    us.append(("map argument", "maparg", {}))
    us.append(("literals", "literals", {}))
    us.append(("captured constants", "captured", {}))
    us.append(("captured constants arguments", "captured_arg", {}))
    us.append(("result of a function", "result", {}))
    us.append(("self containing", "selfc", {}))
    us.append(("program arguments", "progargs", {}))
    us.append(("history", "history", {}))
    us.append(("operands keep their values", "operands", {}))
    if tier == "thorough":
        for k in range(len(CHANGES)):
            us.append((f"two changes {CHANGES[k]}", "two", {"k": k},
                       {"weight": 30}))
    return us


def value(ctx):
    xs = [[ctx.int(f"x{i}{j}", 0) for j in range(2)] for i in range(3)]
    return pip(xs), [[str(v) for v in r] for r in xs]


def shared(ctx, k):
    v, _ = value(ctx)
    c = ctx.int("c", 0, 2)
    d = ctx.int("d", 0)
    sh, obs = ctx.choice("share", SHARES)
    before = items(run(f"{sh};{obs}", [v, 0, c, d]))
    ctx.record(before)
    after = items(run(f"{sh};{CHANGES[k]};{obs}", [v, 0, c, d]))
    same(ctx, after, before, f"{CHANGES[k]} changes only x, after {sh}")
    # the reverse: changing the other value does not change x
    if sh in ("x:a;y:x", "y:a;x:y", "x:a;y:[x]"):
        y = CHANGES[k].replace("x", "y@0" if sh == "x:a;y:[x]" else "y")
        same(ctx, items(run(f"{sh};{y};x", [v, 0, c, d])), items(v),
             f"{y} does not change x, after {sh}")


def two(ctx, k):
    v, _ = value(ctx)
    c = int(ctx.int("c", 0, 1))
    d = ctx.int("d", 0)
    other = ctx.choice("other", CHANGES)
    sh, obs = ctx.choice("share", SHARES)
    before = items(run(f"{sh};{obs}", [v, 0, c, d]))
    ctx.record(before)
    after = items(run(f"{sh};{CHANGES[k]};{other};{obs}", [v, 0, c, d]))
    same(ctx, after, before, f"changes only x, after {sh}")


FLAT = ["x@c:d", "x@(0,2):[d d]", "xPUd", "xPBd", "POx", "DQx", "xPKc",
        "x@0::x@2", "x+:d", "++x", "xAE:d", "RV:x", "[x@0]:[d]"]


def flat(ctx, part):
    if ctx.bool("string"):
        v = S(ctx.string("s", 3, alpha("ab")))
    else:
        lo = ctx.int("lo", 0)
        v = R(lo, lo + 3)
    c = ctx.int("c", -1, 0)
    d = ctx.int("d", 0, 9)
    ch = ctx.choice("change", FLAT)
    sh, obs = ctx.choice("share", SHARES[part::8])
    if not (("+" in ch or "RV" in ch) and "RL" in sh):
        before = items(run(f"{sh};{obs}", [v, 0, c, d]))
        after = items(run(f"{sh};{ch};{obs}", [v, 0, c, d]))
        ctx.record(before)
        same(ctx, after, before, f"{ch} changes only x, after {sh}")


def xa(code):
    return code.replace("x", "a")


def argument(ctx):
    v, want = value(ctx)
    c = ctx.int("c", 0, 2)
    d = ctx.int("d", 0)
    ch = ctx.choice("change", CHANGES)
    # c and d are not visible in the function: pass them
    code = "x:a;f:{" + xa(ch) + ";a};(f x 0 c d);x"
    same(ctx, items(run(code, [v, 0, c, d])), want,
         f"a function changing its argument ({xa(ch)}) does not change the "
         "caller's variable")
    code = "x:[a];f:{" + xa(ch) + ";a};(f x@0 0 c d);x@0"
    same(ctx, items(run(code, [v, 0, c, d])), want,
         f"a function changing its argument ({xa(ch)}) does not change the "
         "caller's list")
    code = "f:{" + xa(ch) + ";g@0};(f a 0 c d)"
    same(ctx, items(run(code, [v, 0, c, d])), want,
         "changing an argument does not change the argument list")


def argument2(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    same(ctx, items(run("x:a;f:{g@0@0@0:b;a};[(f x b) x]", [v, d])),
         [want, want], "changing the argument list does not change others")
    same(ctx, items(run("x:a;f:{g@0:b;a};[(f x b) x]", [v, d])),
         [want, want], "changing the argument list does not change others")
    same(ctx, items(run("x:a;f:{b@0:0;a};[(f x x) x]", [v, d])),
         [want, want], "the same value twice is two arguments")
    same(ctx, items(run("x:a;f:{x@0:b;a};(f x b)", [v, d])), want,
         "changing a global does not change an argument")


def loopvar(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    for code, obs in (("F z x{z@0:b}", "x"), ("F z x{zPUb}", "x"),
                      ("F z x{PO z}", "x"), ("F z x{U(z@0)}", "x"),
                      ("F[z w]x{z:b;w:b}", "x"), ("F x[x x]{x@0@0:b}", "a")):
        same(ctx, items(run(f"x:a;{code};{obs}", [v, d])), want,
             f"changing a loop variable changes only it: {code}")
    same(ctx, items(run("x:a;F z x{x@0:b};x@1", [v, d])), want[1],
         "changing what is looped over")
    same(ctx, items(run("x:a;y:[];F z x{x:b;yPBz};y", [v, d])), want,
         "a loop goes over the items it started with")
    same(ctx, items(run("x:a;y:[];F z x{x@1:b;yPBz};y", [v, d])), want,
         "a loop goes over the items it started with")


def maparg(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    for op in ("M", "MJ", "FI", "SK", "FX"):
        same(ctx, items(run("x:a;{a@0:0;1}" + op + "x;x", [v, d])), want,
             "a mapped function does not change the list: " + op)
        same(ctx, items(run("x:a;{PO a;1}" + op + "x;x", [v, d])), want,
             "a mapped function does not change the list: " + op)
        same(ctx, items(run("{a@0:0;1}" + op + "a;a", [v, d])), want,
             "a mapped function does not change the list: " + op)


def literals(ctx):
    i = ctx.int("i")
    n = int(ctx.int("n", 1, 3))
    same(ctx, val("x:[];L b{y:\"abc\";y@0:a;xPBy};x", i, n),
         [str(i) + "bc"] * n, "a string literal is the same every time")
    same(ctx, val("x:[];L b{y:[1;2;3];y@0:a;xPBy};x", i, n),
         [[str(i), "2", "3"]] * n, "a list is the same every time")
    same(ctx, val("f:{x:\"abc\";x@1:a;x};[(f a)(f 7)]", i),
         ["a" + str(i) + "c", "a7c"], "a string literal is the same every "
         "time")
    same(ctx, val("f:{x:\"abc\";z:x;x@1:a;z};[(f a)(f 7)]", i),
         ["abc", "abc"], "a string literal is the same every time")
    same(ctx, val("x:5;y:5;x@0:a;[x y 5]", i), [str(i), "5", "5"],
         "a number literal is the same every time")
    same(ctx, val("x:t;y:t;x@0:a;[x y t]", i), [str(i) + "0", "10", "10"],
         "preset variables are separate")
    same(ctx, val("x:[];y:l;xPBa;yPBa;[x y l]", i),
         [[str(i)], [str(i)], []], "preset variables are separate")
    same(ctx, val("x:w;xPBa;y:s;yPBa;[s w v]", i),
         [" ", ("pattern", "\\s+", 0), "-1"],
         "preset variables are separate")


def captured(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    c = ctx.int("c", 0, 2)
    ch = ctx.choice("change", CHANGES)
    for f in ("_AEx", "_+0*0|x", "xAE_", "_ALx"):
        lhs = items(run(f"x:a;f:({f});(f 5)", [v, 0, c, d]))
        same(ctx, items(run(f"x:a;f:({f});{ch};(f 5)", [v, 0, c, d])), lhs,
             f"a lambda keeps the value it captured: {f}, {ch}")


def captured_arg(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    ch = ctx.choice("change", CHANGES)
    same(ctx, items(run("x:a;f:x\\|_;x:(f 0);" + ch + ";(f 0)",
                        [v, 0, 0, d])), want,
         "the result of a lambda is a fresh value")
    same(ctx, items(run("x:a;f:{y:a;y@0:0;b}&_;f:x\\|_;"
                        "{" + xa(ch) + "}(f 0);(f 0)", [v, 0, 0, d])), want,
         "the result of a lambda is a fresh value")


def result(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    c = ctx.int("c", 0, 2)
    ch = ctx.choice("change", CHANGES)
    same(ctx, items(run("y:a;f:{y};x:(f 0);" + ch + ";y", [v, 0, c, d])),
         want, "the result of a function is a fresh value")
    same(ctx, items(run("y:a;f:{y};x:(f 0);" + ch + ";(f 0)",
                        [v, 0, c, d])),
         want, "the result of a function is a fresh value")


def selfc(ctx):
    v, want = value(ctx)
    same(ctx, items(run("x:a;x@0:x;x", [v])), [want] + want[1:],
         "a list put into itself is put by value")
    same(ctx, items(run("x:a;x@0@0:x;x", [v])),
         [[want, want[0][1]]] + want[1:],
         "a list put into itself is put by value")
    same(ctx, items(run("x:a;xPBx;x@0@0:9;x", [v])),
         [["9", want[0][1]]] + want[1:] + [want],
         "a list pushed onto itself is pushed by value")


def progargs(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    same(ctx, items(run("a@0:b;g@0", [v, d])), want, "the argument list")
    same(ctx, items(run("g@0@0:b;a", [v, d])), want, "the argument list")
    st = state()
    first = items(run("a@0:b;a", [v, d], st))
    same(ctx, items(v), want, "the value given as an argument")


def history(ctx):
    v, want = value(ctx)
    d = ctx.int("d", 0)
    same(ctx, items(run("x:a;x;y:$_;x@0:b;y", [v, d])), want,
         "a value kept from the history")
    same(ctx, items(run("x:a;x;x@0:b;$__", [v, d])), want,
         "the history keeps the value there was")


OPER = ("+ - * . X RL J ^ @ @< @> H S AE PE AL Z WV CP WR RM DC @? @* N NI CM "
        "CH <> UW ^@ CB ZD ZJ TD = < > #= Q == JW RA").split()


def operands(ctx):
    v, want = value(ctx)
    flat = want[0] + want[1]
    op = ctx.choice("op", [o for o in OPER if o != "RA"])
    xs = pip([ctx.int("p", 0, 3), ctx.int("q", 0, 3)])
    w = items(xs)
    m = ctx.int("m", 1, 3)
    got = run(f"x:a;y:b;(x {op} y);(y {op} x);[x y]", [xs, m])
    same(ctx, items(got), [w, str(m)],
         f"{op} leaves its operands alone")
    got = run(f"x:a;(x {op} x);x", [xs])
    same(ctx, items(got), w, f"{op} leaves its operands alone")
