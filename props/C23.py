"""Control flow: which statements run, how often, in which order."""

BOUNDS = {
    "quick": "conditions: integers of any size, texts of up to 3 characters "
             "over all of Unicode, lists, ranges, patterns, nil and "
             "functions; loops of up to 4 rounds, nested to depth 2; 140 "
             "operators for the order of operands",
    "thorough": "texts of up to 5 characters, loops of up to 6 rounds",
}
BOUNDS["quick"] += ("; loops over 9 items")

KINDS = ("int", "text", "list", "range", "nil", "pattern", "function")
BINARY = ("\\| \\& < > = <= >= != LT GT Q LE GE NE #= #< #> == ~= N NI CB AE "
          "AL PE PU PB PK ^ ^@ @? @* <> CH J JW RL Z ZD ZJ H S WV UW CP CG "
          "ZG OG TD FD WR ~ . RM DC X || |> <| TM , \\, TB BA BO BX AT CM |< "
          ">| RZ RN + - AD * / % // ** E EE RT FB @ @< @> M MM MP MU MC "
          "MJ MS MF ME FI FN FE FU FX FJ SK DK V").split()


def units(tier):
    t = tier == "thorough"
    m = 6 if t else 4
    us = []
    for k in KINDS:
        us.append((f"truth of {k}", "truth", {"k": k, "t": t}))
        for h in KINDS:
            us.append((f"{k} and {h}", "two", {"k": k, "h": h, "t": t}))
    for f in ("if_chain", "dangling", "nested_if", "ternary", "if_result",
              "assigned", "wipe"):
        us.append((f, f, {}))
    for f in ("while_loop", "till_loop", "loop", "loop_text", "count_once",
              "nested_loops", "condition_place", "search", "two_conditions"):
        us.append((f, f, {"m": m}))
    for f in ("while_loop", "till_loop", "loop"):
        us.append(("long " + f, f, {"m": 9}))
    for k in ("list", "text", "range", "number", "pattern", "nil",
              "function"):
        us.append((f"for {k}", "for_each", {"k": k, "m": m}))
    us.append(("for pairs", "for_pairs", {}))
    us.append(("for changing", "for_changing", {}))
    us.append(("endless", "endless", {}))
    for op in BINARY:
        us.append((f"order {op}", "order", {"op": op}))
    for op in ("RA", "TR", "\\?", "R", "MZ"):
        us.append((f"order of three {op}", "order3", {"op": op}))
    for op in ("<", ">=", "Q", "#<", "!="):
        us.append((f"order of a chain {op}", "chain", {"op": op}))
    us.append(("order of places", "places", {}))
    us.append(("order of lists", "lists", {}))
    us.append(("order of calls", "calls", {}))
    us.append(("order of statements", "statements", {}))
    return us


def thing(ctx, p, k, t=False):
    """(a value, whether it is true)"""
    if k == "int":
        i = ctx.int(p)
        return i, i != 0
    if k == "text":
        n = ctx.choice(p + "n", (0, 1, 2, 3, 4, 5) if t else (0, 1, 2, 3))
        s = ctx.string(p, n, FULL)
        ctx.assume(n < 2 or s[0] not in "0.")
        return s, n > 0 and (n > 1 or s != "0")
    if k == "list":
        n = ctx.choice(p + "n", (0, 1, 2))
        return [ctx.choice(f"{p}{i}", (0, "", None, 5))
                for i in range(n)], n > 0
    if k == "range":
        lo = ctx.int(p + "lo", -5, 5)
        hi = lo + ctx.choice(p + "d", (-1, 0, 2))
        f = ctx.choice(p + "f", (0, 1, 2, 3) if p == "x" else (0, 1))
        if f == 0:
            return R(lo, hi), lo < hi
        if f == 1:
            return R(lo, None), True
        if f == 2:
            return R(None, hi), hi > 0
        return R(None, None), True
    if k == "nil":
        return None, False
    if k == "pattern":
        n = ctx.choice(p + "n", (0, 1, 2))
        return P(ctx.string(p, n, FULL)), n > 0
    b = ctx.choice(p + "b", ("{}", "{0}", "{a}", "{a:1}"))
    return run(b), b != "{}"


def truth(ctx, k, t):
    v, b = thing(ctx, "x", k, t)
    w = "t" if b else "e"
    g = lambda code: items(run(code, [v]))
    same(ctx, g("I a y:'t;EL y:'e;y"), w, "I EL")
    same(ctx, g("y:'e;I a y:'t;y"), w, "I alone")
    same(ctx, g("I a {y:'t} EL {y:'e};y"), w, "I EL with blocks")
    same(ctx, g("a?'t 'e"), w, "?")
    same(ctx, g("y:'e;W a {y:'t;a:0};y"), w, "W")
    same(ctx, g("y:'t;T a {y:'e;a:1};y"), w, "T")
    same(ctx, g("!a"), int(not b), "!")
    same(ctx, g("!!a"), int(b), "!!")
    same(ctx, g("a&'t"), "t" if b else items(pip(v)), "&")
    same(ctx, g("a|'e"), items(pip(v)) if b else "e", "|")
    same(ctx, len(run("y:a;{y}FI [0]", [v])), int(b), "FI")
    same(ctx, len(run("y:a;{y}FN [0]", [v])), int(not b), "FN")
    same(ctx, g("a\\?'t 'e") if k != "function" else w, w, "\\?")
    same(ctx, g("a\\&'t") if k != "function" else 0,
         ("t" if b else items(pip(v))) if k != "function" else 0, "\\&")


def two(ctx, k, h, t):
    v, b = thing(ctx, "x", k)
    u, c = thing(ctx, "y", h)
    g = lambda code, *a: items(run(code, [v, u] + list(a)))
    x = items(pip(v))
    y = items(pip(u))
    same(ctx, g("a&b"), y if b else x, "&")
    same(ctx, g("a|b"), x if b else y, "|")
    same(ctx, g("a&b|'z"), (y if b and c else "z"), "& then |")
    same(ctx, g("a|b&'z"), x if b else ("z" if c else y), "| then &")
    same(ctx, g("!a&b"), y if not b else int(not b), "! then &")
    same(ctx, g("a?b?1 2 b?3 4"), (1 if c else 2) if b else (3 if c else 4),
         "nested ?")
    same(ctx, g("I a I b y:1 EL y:2 EL I b y:3 EL y:4;y"),
         (1 if c else 2) if b else (3 if c else 4), "nested I")
    same(ctx, g("i:a;a&(i:5);i"), 5 if b else x, "& stops early")
    same(ctx, g("i:a;a|(i:5);i"), x if b else 5, "| stops early")
    same(ctx, g("i:7;a?b(i:8);i"), 7 if b else 8, "one branch runs")
    same(ctx, g("i:7;a?(i:8)b;i"), 8 if b else 7, "one branch runs")
    same(ctx, g("a&:b;a"), y if b else x, "&:")
    same(ctx, g("a|:b;a"), x if b else y, "|:")
    if k != "function" and h != "function":
        same(ctx, g("a\\&b"), y if b else x, "\\&")
        same(ctx, g("a\\|b"), x if b else y, "\\|")
        same(ctx, g("$&[a;b]"), y if b else x, "$&")
        same(ctx, g("$|[a;b]"), x if b else y, "$|")


def if_chain(ctx):
    v = [ctx.int(c) for c in "abc"]
    w = 1 if v[0] != 0 else 2 if v[1] != 0 else 3 if v[2] != 0 else 4
    for code in ("I a y:1 EL I b y:2 EL I c y:3 EL y:4;y",
                 "I a {y:1} EL I b {y:2} EL I c {y:3} EL {y:4};y",
                 "I a {y:1} EL {I b {y:2} EL {I c {y:3} EL {y:4}}};y",
                 "a?(y:1)b?(y:2)c?(y:3)(y:4);y",
                 "y:a?1 b?2 c?3 4;y",
                 "y:4;I c y:3;I b y:2;I a y:1;y"):
        same(ctx, val(code, *v), w, code)
    same(ctx, val("y:0;I a y+:1;I b y+:2;I c y+:4;y", *v),
         (v[0] != 0) * 1 + (v[1] != 0) * 2 + (v[2] != 0) * 4, "all that hold")
    same(ctx, val("y:a|b|c;y", *v),
         v[0] if v[0] != 0 else v[1] if v[1] != 0 else v[2], "first true")
    same(ctx, val("y:a&b&c;y", *v),
         v[0] if v[0] == 0 else v[1] if v[1] == 0 else v[2], "first false")


def dangling(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    w = (1 if b != 0 else 2) if a != 0 else "0"
    same(ctx, val("y:0;I a I b y:1 EL y:2;y", a, b), w, "nearest I")
    same(ctx, val("y:0;I a {I b y:1 EL y:2};y", a, b), w, "in a block")
    same(ctx, val("y:0;I a {I b y:1} EL y:2;y", a, b),
         (1 if b != 0 else 0) if a != 0 else 2, "outer I")
    same(ctx, val("y:0;L 2 I a y+:1 EL y+:b;y", a, b),
         2 if a != 0 else 2 * b, "in a loop")


def nested_if(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    same(ctx, val("I a<b {y:'l} EL {I a>b {y:'g} EL {y:'e}};y", a, b),
         "l" if a < b else "g" if a > b else "e", "comparison")
    same(ctx, val("I a {I b {} EL {y:1}} EL {I b {y:2}};y", a, b),
         "" if (a != 0) == (b != 0) else 1 if a != 0 else 2, "empty block")
    same(ctx, val("I a<0&b<0 y:1;I a<0|b<0 y.:2;I!(a<b) y.:3;y", a, b),
         ("1" if a < 0 and b < 0 else "") + ("2" if a < 0 or b < 0 else "")
         + ("3" if a >= b else ""), "combined")


def ternary(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    same(ctx, val("a?b 5", a, b), b if a != 0 else 5, "?")
    same(ctx, val("(a?x y):b;x.',.y", a, b),
         str(b) + "," if a != 0 else "," + str(b), "? as a place")
    same(ctx, val("z:a?b+1 b-1;z", a, b), b + 1 if a != 0 else b - 1,
         "? of expressions")
    same(ctx, val("y:a?{b}{a};(y 7 8)", a, b), "8" if a != 0 else "7",
         "? of functions")
    same(ctx, val("{a?1 0}M[a;b;0]", a, b),
         [int(a != 0), int(b != 0), "0"], "? in a function")
    same(ctx, val("(_\\?1 0)M[a;b]", a, b), [int(a != 0), int(b != 0)],
         "\\? in a lambda")


def if_result(ctx):
    a = ctx.int("a")
    same(ctx, val("h:{I a 5};(h a)", a), None, "I has no result")
    same(ctx, val("h:{5;I a 6};(h a)", a), None, "I has no result")
    same(ctx, val("h:{I a {y:6};y};(h a)", a), "6" if a != 0 else "",
         "the result is the last expression")
    same(ctx, val("h:{L 2 {y:a};F x,2 {y+:x}};(h a)", a), None,
         "a loop has no result")
    same(ctx, val("a;I a {7}", a), None, "the program's result")
    same(ctx, val("", a), None, "an empty program")
    same(ctx, val("I a {7};a+1", a), a + 1, "the program's result")


def assigned(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    same(ctx, val("y:[5;6];i:0;y@(i+:1)+:b;[y;i]", a, b),
         [["5", 6 + b], "1"], "the place is computed once")
    same(ctx, val("y:[5;6;7];i:0;(y@(i+:1)):b;[y;i]", a, b),
         [["5", b, "7"], "1"], "the place is computed once")
    same(ctx, val("i:a;y:(i+:b)+(i+:b)+(i+:b);[y;i]", a, b),
         [3 * a + 6 * b, a + 3 * b], "each operand once")
    same(ctx, val("i:a;x:i+:b;[x;i]", a, b), [a + b, a + b],
         "an assignment's value")
    same(ctx, val("x:y:z:a;z+:b;[x;y;z]", a, b), [a, a, a + b],
         "assigned in a row")


def wipe(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    same(ctx, val("h:a;i:b;l:[a];WG;[h;i;l;t;a;b]", a, b),
         ["100", "0", [], "10", a, b], "WG")
    same(ctx, val("BC:a;WG;BC", a, b), None, "WG forgets new variables")
    same(ctx, val("I a {i:5;WG};i", a, b), "0", "WG")


def while_loop(ctx, m):
    a = ctx.int("a", -3, m)
    n = max(a, 0)
    out = "".join([str(i) for i in range(n)])
    for code in ("W i<a {y.:i;i+:1};y", "T i>=a {y.:i;i+:1};y",
                 "W i<a&1 {y.:i;i+:1};y"):
        same(ctx, val(code, a), out, code)
    same(ctx, val("W i<a {y.:i;i+:1};i", a), n, "counter")
    same(ctx, val("W (x.:'c)&i<a i+:1;#x", a), n + 1,
         "the condition is computed before each round, and at the end")
    same(ctx, val("W i<a {I i=2 a:0;y.:i;i+:1};y", a),
         "012" if a > 2 else out, "the condition is computed anew")
    same(ctx, val("W a>0 {y.:a;a-:1};y", a),
         "".join([str(i) for i in range(n, 0, -1)]), "counting down")


def till_loop(ctx, m):
    a = ctx.int("a", -3, m)
    n = max(a, 0)
    same(ctx, val("T a<=0 {y.:a;a-:1};y", a),
         "".join([str(i) for i in range(n, 0, -1)]), "T")
    same(ctx, val("T (x.:'c)&i>=a i+:1;#x", a), n + 1,
         "the condition is computed before each round, and at the end")
    same(ctx, val("T 1 y:5;y", a), "", "T 1")
    same(ctx, val("W 0 y:5;y", a), "", "W 0")
    same(ctx, val("T!(i<a) i+:1;i", a), n, "T of a negation")


def loop(ctx, m):
    a = ctx.int("a", -3, m)
    b = ctx.int("b")
    n = max(a, 0)
    same(ctx, val("L a y+:b;y", a, b), "" if n == 0 else n * b, "L")
    same(ctx, val("L a {y.:i;i+:1};y", a, b),
         "".join([str(i) for i in range(n)]), "L with a block")
    same(ctx, val("L [b;b;b] i+:1;i", a, b), "3", "L of a list")
    same(ctx, val("L [] i+:1;i", a, b), "0", "L of an empty list")
    same(ctx, items(run("L b i+:1;i", [a, R(b, b + a)])), n,
         "L of a range")
    same(ctx, val("L u i+:1;i", a, b), "0",
         "L of nil")
    same(ctx, val("L w i+:1;i", a, b), "0", "L of a pattern")
    same(ctx, val("L _ i+:1;i", a, b), "0", "L of a function")


def loop_text(ctx, m):
    s = ctx.string("s", 1, FULL)
    d = ctx.int("d", 0, m)
    same(ctx, val("L a i+:1;i", str(d) + "." + "9"), d,
         "a fraction is cut off")
    ctx.assume(not s in "0123456789-.+ \t\n")
    same(ctx, val("L a i+:1;i", s), "0", "L of a text that is no number")
    same(ctx, val("L a i+:1;i", ""), "0", "L of the empty text")


def count_once(ctx, m):
    a = ctx.int("a", -2, m)
    n = max(a, 0)
    same(ctx, val("L (x+:a) {y.:i;x:0;a:0};#y", a), n,
         "the count is computed once")
    same(ctx, val("L a {a+:1;i+:1};i", a), n, "the count is computed once")
    same(ctx, val("F z,(x+:a) {y.:z;a:9;x:9};y", a),
         "".join([str(i) for i in range(n)]), "the items are computed once")


def nested_loops(ctx, m):
    a = ctx.int("a", -1, 3)
    b = ctx.int("b", -1, 3)
    n = max(a, 0)
    k = max(b, 0)
    w = [[str(i), str(j)] for i in range(n) for j in range(k)]
    same(ctx, val("F i,a F x,b l AL:[[i;x]];l", a, b), w, "F in F")
    same(ctx, val("F i,a {F x,b {l AL:[[i;x]]}};l", a, b), w,
         "F in F, with blocks")
    same(ctx, val("i:0;W i<a {x:0;L b {l AL:[[i;x]];x+:1};i+:1};l", a, b),
         w, "L in W")
    same(ctx, val("L a L b y.:'x;#y", a, b), n * k, "L in L")
    same(ctx, val("F i,a {I i<b y.:i EL y.:'n};y", a, b),
         "".join([str(i) if i < b else "n" for i in range(n)]), "I in F")


def condition_place(ctx, m):
    a = ctx.int("a", 0, m)
    same(ctx, val("W (a-:1)>=0 y.:a;y", a),
         "".join([str(i) for i in range(a - 1, -1, -1)]),
         "a condition that changes the state")
    same(ctx, val("x:,a;W x {y.:x@0;x:S x};y", a),
         "".join([str(i) for i in range(a)]), "until the list is empty")
    same(ctx, val("x:J,a;W #x {y.:x@v;x:H x};y", a),
         "".join([str(i) for i in range(a - 1, -1, -1)]),
         "until the text is empty")


def search(ctx, m):
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(3)]
    t = ctx.string("t", 1, FULL)
    w = 3
    for i in range(2, -1, -1):
        if xs[i] == t:
            w = i
    same(ctx, val("T i>=#a|(a@i)Qb i+:1;i", xs, t), w, "linear search")
    same(ctx, val("i:3;F x,3 I (a@x)Qb&x<i i:x;i", xs, t), w,
         "linear search with F")


def two_conditions(ctx, m):
    a = ctx.int("a", 0, m)
    b = ctx.int("b", 0, m)
    same(ctx, val("W i<a&i<b i+:1;i", a, b), min(a, b), "W with &")
    same(ctx, val("W i<a|i<b i+:1;i", a, b), max(a, b), "W with |")
    same(ctx, val("T i>=a|i>=b i+:1;i", a, b), min(a, b), "T with |")


def for_each(ctx, k, m):
    n = ctx.choice("n", tuple(range(m + 1)) + (9,))
    if k == "list":
        xs = [ctx.string(f"x{i}", 1, FULL) for i in range(n)]
        v = xs
    elif k == "text":
        v = ctx.string("x", n, FULL)
        xs = [c for c in v]
    elif k == "number":
        i = ctx.int("x", 0, 9999)
        v = i
        xs = [c for c in str(i)]
        n = len(xs)
    elif k == "range":
        lo = ctx.int("x", -99, 99)
        v = R(lo, lo + n)
        xs = [str(lo + i) for i in range(n)]
    else:
        v = {"nil": None, "pattern": P("ab"), "function": run("{a}")}[k]
        xs = ["a", "b"] if k == "pattern" else []
        n = len(xs)
    g = lambda code: items(run(code, [v]))
    same(ctx, g("F x a l AL:[x];l"), xs, "F")
    same(ctx, g("F x a {i+:1;l AL:[x];l AL:[i]};l"),
         [y for i, x in enumerate(xs) for y in (x, str(i + 1))],
         "F with a block")
    same(ctx, g("x:'q;F x a {};x"), xs[-1] if xs else "q",
         "the variable keeps the last item")
    same(ctx, g("F x a {l AL:[x];x:5};l"), xs,
         "changing the variable does not change the loop")
    same(ctx, g("F x(i+:1)&a l AL:[x];[l;i]"), [xs, "1"],
         "the iterable is computed once")
    same(ctx, g("F b a l AL:[b];[b;l]"), [xs[-1] if xs else None, xs],
         "a local variable")
    same(ctx, g("F[x]a l AL:[x];l") if k in ("text", "number") else xs, xs,
         "a list of one variable")


def for_pairs(ctx):
    xs = [[ctx.string(f"x{i}{j}", 1, FULL) for j in range(2)]
          for i in range(2)]
    same(ctx, val("F[x;y]a l AL:[y;x];l", xs),
         [xs[0][1], xs[0][0], xs[1][1], xs[1][0]], "F of pairs")
    same(ctx, val("F[x y]a l AL:[y;x];l", xs),
         [xs[0][1], xs[0][0], xs[1][1], xs[1][0]], "F of pairs")
    same(ctx, val("F[x[y;z]]a l AL:[x;y;z];l",
                  [[xs[0][0], xs[1]], [xs[0][1], xs[0]]]),
         [xs[0][0], xs[1][0], xs[1][1], xs[0][1], xs[0][0], xs[0][1]],
         "F of nested pairs")
    same(ctx, val("F[i x]EN(a@0)l AL:[x;i];l", xs),
         [xs[0][0], "0", xs[0][1], "1"], "F of enumerated items")
    same(ctx, val("F[x;y](a@0)Z(a@1){l AL:[x];l AL:[y]};l", xs),
         [xs[0][0], xs[1][0], xs[0][1], xs[1][1]], "F of zipped lists")


def for_changing(ctx):
    xs = [ctx.string(f"x{i}", 1, FULL) for i in range(3)]
    t = ctx.string("t", 1, FULL)
    same(ctx, val("F x a {a:[];l AL:[x]};[a;l]", xs), [[], xs],
         "assigning the iterable's variable")
    same(ctx, val("y:a;F x y {y AL:[b];l AL:[x]};[#y;l]", xs, t),
         ["6", xs], "adding to the iterable's variable")
    same(ctx, val("y:a;F x y {y PB:b;l AL:[x]};[#y;l]", xs, t),
         ["6", xs], "pushing to the iterable's variable")
    same(ctx, val("y:a;F x y {PO y;l AL:[x]};[#y;l]", xs, t),
         ["0", xs], "popping from the iterable's variable")
    same(ctx, val("y:a;F x y {y@v:b;l AL:[x]};[y;l]", xs, t),
         [xs[:2] + [t], xs], "changing an item of the iterable's variable")


def endless(ctx):
    """A loop over an endless range goes on until ... it cannot: only the
    first rounds are looked at, through an error that ends the program."""
    a = ctx.int("a", 0, 4)
    k = ctx.int("k")
    st = state()
    try:
        run("F x\\,u {I #l=b {V \"(\"};l AL:[x+a]}", [k, a], st)
        ended = False
    except W.errors.FatalError:
        ended = True
    except W.errors.IncompleteSyntax:
        ended = True
    ctx.check(ended, "the loop goes on")
    same(ctx, py(st.vars["l"]), [k + i + 1 for i in range(a)], "its rounds")


TRACE = "h:{y.:a;b};"


def operand(ctx, p):
    k = ctx.choice(p + "k", ("int", "text", "list", "range", "nil"))
    if k == "int":
        return ctx.int(p, 1, 3)
    if k == "text":
        return ctx.choice(p, ("", "ab", "2"))
    if k == "list":
        return ctx.choice(p, ([], [1, 2], ["a", [1]]))
    if k == "range":
        return R(0, ctx.choice(p, (0, 2)))
    return None


def order(ctx, op):
    a = operand(ctx, "a")
    b = operand(ctx, "b")
    st = state()
    run(f"{TRACE}(h 1 a){op}(h 2 b)", [a, b], st)
    same(ctx, py(st.vars["y"]), "12", f"operands of {op}")
    st = state()
    run(f"{TRACE}x:(h 1 a){op}(h 2 b);x", [a, b], st)
    same(ctx, py(st.vars["y"]), "12", f"operands of {op}, assigned")


def order3(ctx, op):
    a = operand(ctx, "a")
    b = operand(ctx, "b")
    st = state()
    run(f"{TRACE}(h 1 a){op}(h 2 b)(h 3 a)", [a, b], st)
    same(ctx, py(st.vars["y"]), "123", f"operands of {op}")


def chain(ctx, op):
    a = ctx.int("a", 0, 99)
    b = ctx.int("b", 0, 99)
    c = ctx.int("c", 0, 99)
    f = {"<": lambda x, y: x < y, ">=": lambda x, y: x >= y,
         "Q": lambda x, y: x == y, "!=": lambda x, y: x != y,
         "#<": lambda x, y: len(str(x)) < len(str(y))}[op]
    st = state()
    r = py(run(f"{TRACE}(h 1 a){op}(h 2 b){op}(h 3 c)", [a, b, c], st))
    ok = f(a, b)
    same(ctx, r, int(ok and f(b, c)), "the chain's value")
    got = py(st.vars["y"])
    ctx.check(got == "123" or got == "12", "each operand at most once",
              lambda: f"got {got!r}")
    if ok:
        ctx.check(got == "123", "each operand once", lambda: f"got {got!r}")


def places(ctx):
    a = ctx.int("a", 0, 2)
    b = ctx.int("b")
    st = state()
    r = run(TRACE + "x:[5;6;7];(x@(h 1 a)):(h 2 b);x", [a, b], st)
    same(ctx, py(r), [b if i == a else str(5 + i) for i in range(3)],
         "assignment to an item")
    ctx.check(py(st.vars["y"]) in ("12", "21"), "each part once",
              lambda: str(py(st.vars["y"])))
    st = state()
    r = run(TRACE + "x:[5;6;7];x@(h 1 a)+:(h 2 b);x", [a, b], st)
    same(ctx, py(r), [5 + i + b if i == a else str(5 + i)
                      for i in range(3)], "+: of an item")
    ctx.check(py(st.vars["y"]) in ("12", "21"), "each part once",
              lambda: str(py(st.vars["y"])))
    st = state()
    r = run(TRACE + "x:[5;6;7];(x@(h 1 a))::(x@(h 2 0));x", [a, b], st)
    w = ["5", "6", "7"]
    w[a], w[0] = w[0], w[a]
    same(ctx, py(r), w, "swap of items")
    ctx.check(py(st.vars["y"]) in ("12", "21"), "each part once",
              lambda: str(py(st.vars["y"])))


def lists(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    st = state()
    r = run(TRACE + "[(h 1 a);[(h 2 b);(h 3 a)];(h 4 b)]", [a, b], st)
    same(ctx, py(r), [a, [b, a], b], "a list's items")
    same(ctx, py(st.vars["y"]), "1234", "their order")
    same(ctx, val("i:a;[i+0;(i+:b)+0;i+0;(i+:b)+0;i+0]", a, b),
         [a, a + b, a + b, a + 2 * b, a + 2 * b], "items as of their turn")


def calls(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    st = state()
    r = run(TRACE + "x:{[a;b]};(x (h 1 a) (h 2 b))", [a, b], st)
    same(ctx, py(r), [a, b], "a call's arguments")
    same(ctx, py(st.vars["y"]), "12", "their order")
    same(ctx, val("i:a;x:{[a;b;c]};(x i+0 (i+:b)+0 i+0)", a, b),
         [a, a + b, a + b], "arguments as of their turn")
    st = state()
    run(TRACE + "(h 1 (h 2 (h 3 a)))", [a], st)
    same(ctx, py(st.vars["y"]), "321", "nested calls")


def statements(ctx):
    a = ctx.int("a")
    b = ctx.int("b")
    same(ctx, val("x:a;y:x+b;x:y;y:x+b;[x;y]", a, b), [a + b, a + 2 * b],
         "one after another")
    same(ctx, val("x:a;h:{x+:1;x*:2;x};[(h u)+0;(h u)+0;x]", a, b),
         [2 * a + 2, 4 * a + 6, 4 * a + 6], "in a function")
    same(ctx, val("x:a;h:{x+:1;x};z:{(h u)+(h u)};[(z u);x]", a, b),
         [2 * a + 3, a + 2], "in nested functions")
