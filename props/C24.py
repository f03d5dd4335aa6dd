"""Functions: arguments, local and global variables, recursion, history."""

BOUNDS = {
    "quick": "calls with up to 7 arguments, nested up to 6 deep; integers "
             "of any size as values (0 to 6 for recursion), texts of up to "
             "2 characters over all of Unicode, lists, ranges, nil; "
             "sessions of up to 5 steps with an error at any of them",
    "thorough": "recursion to depth 9",
}


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(8):
        us.append((f"{n} arguments", "arguments", {"n": n}))
        us.append((f"program with {n} arguments", "program", {"n": n}))
    for f in ("own_locals", "own_locals_deep", "shared_globals", "itself",
              "by_value", "values", "indexing", "eval_here", "eval_with",
              "higher", "result", "loop_variable", "yank", "swap",
              "compute", "uninitialized", "reader", "reader_list",
              "whole_list", "main_function"):
        us.append((f, f, {}))
    for f in ("factorial", "fibonacci", "mutual", "sum_list", "power",
              "recurse", "depth"):
        us.append((f, f, {"m": 9 if t else 6}))
    for k in range(5):
        us.append((f"history {k}", "history", {"k": k}))
    us.append(("history in functions", "history_local", {}))
    for d in range(6):
        us.append((f"history in calls {d} deep", "history_deep", {"d": d}))
    us.append(("history in blocks", "history_blocks", {}))
    for k in range(len(FAIL)):
        us.append((f"error {FAIL[k]}", "after_error", {"k": k}))
    us.append(("many errors", "errors", {}))
    return us


def arguments(ctx, n):
    v = [ctx.int(f"x{i}") for i in range(n)]
    w = (v + [None] * 5)[:5]
    call = "(h " + (" ".join(f"g@{i}" for i in range(n)) or "u") + ")"
    got = val("h:{[a;b;c;d;e;g]};" + call, *v)
    if n:
        same(ctx, got[:5], w, "a to e")
        same(ctx, got[5], v, "g")
    same(ctx, val("h:{#g};" + call, *v), max(n, 1), "number of arguments")
    same(ctx, val("{[a;b;c;d;e;#g]}V g", *v), w + [n], "V passes a list as the arguments")
    same(ctx, val("{$+g}V g", *v), sum(v) if n else 0, "sum of g")
    same(ctx, val("h:{g};z:{(h g@1 a)};(z 7 8)", *v), ["8", "7"],
         "arguments passed on")


def program(ctx, n):
    v = [ctx.int(f"x{i}") for i in range(n)]
    w = (v + [None] * 5)[:5]
    same(ctx, val("[a;b;c;d;e;g]", *v), w + [v], "the program's arguments")
    h = "h:{a:5;b:6;g:7;[\\a;\\b;\\c;\\d;\\e;\\g]};"
    same(ctx, val(h + "(h 1 2 3)", *v), w + [v],
         "the program's arguments inside a function")
    same(ctx, val("a:5;g:6;[\\a;\\g]", *v), [w[0], v],
         "they stay as they are")


def own_locals(ctx):
    x, y, z = ctx.int("x"), ctx.int("y"), ctx.int("z")
    code = "h:{a:b;c:9;d:8;e:7;g:6;a}"
    same(ctx, val(code + ";i:(h 1 a);[i;a;b;c;d;e;g]", x, y, z),
         [x, x, y, z, None, None, [x, y, z]],
         "a function's locals are its own")
    same(ctx, val("h:{a};[(h b);a;(h c)]", x, y, z), [y, x, z],
         "a is the function's argument")
    same(ctx, val("h:{b};[(h 1);b]", x, y), [None, y],
         "the caller's b is not seen")
    same(ctx, val("h:{b:a};(h c);b", x, y, z), y,
         "assigning to b leaves the caller's b")
    same(ctx, val("h:{a+:1;b.:a;[a;b]};[(h a b);a;b]", x, y, z),
         [[x + 1, str(y) + str(x + 1)], x, y], "+: on locals")


def own_locals_deep(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("h:{c:a;(i a+1);c};i:{c:a;b:9;(k a+1);b+c};"
                  "k:{c:5;b:6;a:7};c:b;[(h a);c]", x, y), [x, y],
         "locals through three calls")
    same(ctx, val("h:{b:a;a>0?(h a-1)+b b};(h 4)", x), "10",
         "each call of a recursion has its own b")
    same(ctx, val("{b:a;c:{b:a;b}M[5;6];b.c@1}M[a;b]", x, y),
         [str(x) + "6", str(y) + "6"], "functions within functions")
    same(ctx, val("h:{a*2};{(h a)+a}M[a;b]", x, y), [3 * x, 3 * y],
         "functions within functions")


def shared_globals(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("z:a;h:{z:a;y:z};i:(h b);[z;y;i]", x, y), [y, y, y],
         "globals are shared")
    same(ctx, val("z:a;h:{z};i:{z+:a;(h u)};[(i b)+0;z]", x, y),
         [x + y, x + y], "globals through nested calls")
    same(ctx, val("x:[];h:{x AL:[a];a>0?(h a-1)0};(h 2);x", x),
         ["2", "1", "0"], "globals through a recursion")
    same(ctx, val("z:a;{z+:a}M[b;b];z", x, y), x + 2 * y,
         "globals in mapped functions")
    same(ctx, val("h:{VW:a;l@0:a};l:[1;2];(h a);[VW;l]", x),
         [x, [x, "2"]], "names of capitals are global")


def itself(ctx):
    x = ctx.int("x", 0, 5)
    same(ctx, val("{a?a+(f a-1)0}V[a]", x), x * (x + 1) // 2,
         "f is the function itself")
    same(ctx, val("h:{f};(h 1)==h", x), 1,
         "f is the function itself")
    same(ctx, val("a>1?a*(f a-1)1", x), _fact(x),
         "f is the whole program")
    same(ctx, val("h:{f:a;f};(h a)", x), x, "f can be assigned")
    same(ctx, val("h:{f:a;f};(h a);i:f;i==\\f", x), 1, "the program's f")


def _fact(n):
    r = 1
    for i in range(2, 8):
        if i <= n:
            r *= i
    return r


def main_function(ctx):
    x = ctx.int("x", 0, 4)
    same(ctx, val("a>1?a*(f a-1)1", x), _fact(x), "f is the program")
    same(ctx, val("h:{a>1?a*(\\f a-1)1};a>1?(h a)1", x), _fact(x),
         "\\f is the program")
    same(ctx, val("a?(f a-1).a'.", x), "." + "".join(
        [str(i + 1) for i in range(x)]), "its recursion")


def by_value(ctx):
    s = ctx.string("s", 2, FULL)
    x = [ctx.int("x"), s]
    same(ctx, val("h:{a@0:5;a AL:[6];g@0:7;a};[(h a);a]", x),
         [["5", s, "6"], x], "a list is passed by value")
    same(ctx, val("z:a;h:{a@0:5;z};[(h z);z]", x), [x, x],
         "a global passed by value")
    same(ctx, val("z:a;h:{z@0:5;a};[(h z);z]", x), [x, ["5", s]],
         "a global changed while passed")
    same(ctx, val("h:{l};l:a;i:(h u);i@0:5;[i;l]", x), [["5", s], x],
         "a result is a value of its own")
    same(ctx, val("h:{[a;a]};i:(h a);i@0@0:5;i", x), [["5", s], x],
         "an argument used twice")


def values(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    p = "h:{a+b};i:{a-b};"
    same(ctx, val(p + "l:[h;i];[(l@0 a b);(l@1 a b)]", x, y),
         [x + y, x - y], "functions in a list")
    same(ctx, val(p + "z:h;h:i;[(z a b);(h a b)]", x, y),
         [x + y, x - y], "functions are values")
    same(ctx, val("h:{(a b c)};(h {a*b} a 3)", x), 3 * x,
         "a function as an argument")
    same(ctx, val("h:{{a+1}};((h u) a)", x), x + 1,
         "a function as a result")
    same(ctx, val("({a+b} a b)", x, y), x + y, "a function called in place")
    same(ctx, val("({a;b} a b)", x, y), y, "the last value is the result")


def indexing(ctx):
    s = [ctx.string(f"s{i}", 1, FULL) for i in range(3)]
    i = ctx.int("i", -6, 6)
    same(ctx, val("(a b)", s, i), s[i % 3], "a call of a list is its item")
    same(ctx, val("(a b)", "".join(s), i), s[i % 3], "of a text")
    same(ctx, val("(a b c)", [s, s[::-1]], i, 1), [s, s[::-1]][i % 2][1],
         "with two arguments")
    same(ctx, val("(a b):5;a", s, i),
         ["5" if i % 3 == j else x for j, x in enumerate(s)],
         "as a place")
    same(ctx, val("(a b)", R(i, None), 3), i + 3, "of a range")
    same(ctx, val("(a b)", None, i), None, "of nil")
    same(ctx, val("(a b)", P("ab"), i), None, "of a pattern")


def eval_here(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val('z:b;V"a+z"', x, y), x + y, "V of a text, here")
    same(ctx, val('V"a:5;z:6";[a;z]', x), ["5", "6"], "V changes variables")
    same(ctx, val('h:{V"a+b"};(h b a)', x, y), x + y, "in a function")
    same(ctx, val('h:{V"a:5";a};[(h a);a]', x), ["5", x], "in a function")
    same(ctx, val('V{a+b}', x, y), x + y, "V of a function, here")
    same(ctx, val('V{a:b;a*2}', x, y), 2 * y, "V of a function, here")
    same(ctx, val('V{a:b};a', x, y), y, "V of a function, here")
    same(ctx, val('V""', x), None, "V of no code")
    same(ctx, val('V"I a {z:5}";z', x), "5" if x != 0 else
         "abcdefghijklmnopqrstuvwxyz", "V of a statement")
    same(ctx, val('h:V"{a+1}";(h a)', x), x + 1, "V gives a function")


def eval_with(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val('"a+b"V[b;a]', x, y), x + y, "V of a text with arguments")
    same(ctx, val('"a-b"V[b;a]', x, y), y - x, "V of a text with arguments")
    same(ctx, val('"a:5"V[b;a];a', x, y), x, "it has its own locals")
    same(ctx, val('"z:a"V[b;a];z', x, y), y, "it shares the globals")
    same(ctx, val('{a-b}V[b;a]', x, y), y - x, "V of a function")
    same(ctx, val('[b;a]V{a-b}', x, y), y - x, "V turned round")
    same(ctx, val('{g}V(a,b)', x, x + 2), [x, x + 1], "V with a range")
    same(ctx, val('{g}V a', "pq"), ["p", "q"], "V with a text")


def higher(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("b:5;{b:a}M[a;a];b", x, y), "5", "M")
    same(ctx, val("{a:7;a}M[a;b];[a;b]", x, y), [x, y], "M")
    same(ctx, val("h:{c:a;{a+1}M[a;b];c};[(h b);a;c]", x, y),
         [y, x, None], "M in a function")
    same(ctx, val("{g}MP[a;b;3]", x, y), [[x, y], [y, "3"]], "MP")
    same(ctx, val("{[a;f==f;g]}M[a]", x), [[x, "1", [x]]], "M")
    same(ctx, val("{c:a;c}FI[a;b];c", x, y), None, "FI")
    same(ctx, val("{c:a;c}SK[a;b];[a;c]", x, y), [x, None], "SK")
    same(ctx, val("\"p\"R`p`{c:a;c};[a;c]", x), [x, None], "R")


def result(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    for code, w in (("{}", None), ("{5}", "5"), ("{a}", x), ("{a;b}", y),
                    ("{a:5}", "5"), ("{a:b;b:a;}", y),
                    ("{F i,2 {a}}", None), ("{I a {b}}", None),
                    ("{a;I a {b}}", None), ("{W 0 a}", None),
                    ("{a b}", y), ("{[a b]}", [x, y]), ("{u}", None),
                    ("{a?b a}", y if x != 0 else x)):
        same(ctx, val(f"h:{code};(h a b)", x, y), w, f"result of {code}")
        same(ctx, val(f"h:{code};[(h a b);(h b a);a;b]", x, y)[2:], [x, y],
             "the caller's variables")


def loop_variable(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("h:{F a[1;2]{};a};[(h a);a]", x), ["2", x],
         "a loop over a local")
    same(ctx, val("h:{F i[1;a]{};i};[(h a);i]", x), [x, x],
         "a loop over a global")
    same(ctx, val("F i,3{z:{i:9;a+1}M[i]};i", x), "9", "globals in a loop")
    same(ctx, val("h:{b:0;L 2 b+:a;b};[(h a);b]", x, y), [2 * x, y],
         "a local in a loop")


def yank(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("h:{Y a;y+1};[(h a);y;Y b;y]", x, y),
         [x + 1, y, y, y], "Y assigns the global y")
    same(ctx, val("h:{Y a;y+1};i:(h a);[i;y]", x), [x + 1, x],
         "Y assigns the global y")


def swap(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("a::b;[a;b]", x, y), [y, x], "::")
    same(ctx, val("h:{a::b;[a;b]};[(h a b);a;b]", x, y),
         [[y, x], x, y], ":: of locals")
    same(ctx, val("z:a;h:{a::z;a};[(h b);z]", x, y), [x, y],
         ":: of a local and a global")


def compute(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("h:{b:0;b+:a;b};[(h a);b]", x, y), [x, y],
         "+: of a local")
    same(ctx, val("h:{a-:b;b*:a;[a;b]};(h a b)", x, y),
         [x - y, y * (x - y)], "-: and *:")
    same(ctx, val("z:a;h:{z+:b;a:z;a};[(h 0 b);z;a]", x, y),
         [x + y, x + y, x], "+: of a global")


def uninitialized(ctx):
    x = ctx.int("x")
    same(ctx, val("h:{[b;c;BC]};(h a)", x), [None, None, None],
         "unset variables are nil")
    same(ctx, val("h:{b:5};(h a);b", x), None, "still unset outside")
    same(ctx, val("h:{c@0:5;c};(h a)", x), None, "an item of an unset one")


def reader(ctx):
    n = ctx.choice("n", (0, 1, 2, 3))
    s = [ctx.string(f"s{i}", i, alpha("ab0 \"")) for i in range(n)]
    w = (s + [None] * 4)[:4]
    ctx.feed(s)
    same(ctx, val("[q;q;q;q]"), w, "each q reads a line")
    ctx.feed(s)
    same(ctx, val("x:q;y:q;[x;x;y;x]"), [w[0], w[0], w[1], w[0]],
         "assigning reads once")
    ctx.feed(s)
    same(ctx, val("h:{[a;a]};[(h q);q]"), [[w[0], w[0]], w[1]],
         "an argument is read once")
    ctx.feed(s)
    same(ctx, val("x:#q;[x;q]"), [None if n == 0 else 0, w[1]],
         "an operand is read once")
    ctx.feed(s)
    same(ctx, val("W #(x:q) l AL:[x];l"), [] if n else [], "until empty")


def reader_list(ctx):
    s = [ctx.string(f"s{i}", 1, FULL) for i in range(3)]
    for x in s:
        ctx.assume(x != "\n" and x != "\r")
    ctx.feed(s)
    same(ctx, val("L 3 l AL:[q];l"), s,
         "lines in order")
    ctx.feed(s)
    same(ctx, val("[x y]:[q q];[y;x]"), [s[1], s[0]], "lines in order")
    ctx.feed(s)
    same(ctx, val("q.q.q"), s[0] + s[1] + s[2], "lines in order")
    ctx.feed(s)
    same(ctx, val("{q}M,3"), s, "lines in order")
    ctx.feed(s)
    same(ctx, val("q@0"), s[0], "an item of a line")


def whole_list(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("h:{g@0:5;[a;g]};(h a b)", x, y), [x, ["5", y]],
         "g is a list of its own")
    same(ctx, val("h:{a:5;[a;g]};(h a b)", x, y), ["5", [x, y]],
         "g is a list of its own")
    same(ctx, val("h:{g:[7];[a;g]};(h a b)", x, y), [x, ["7"]],
         "g can be assigned")


def factorial(ctx, m):
    n = ctx.int("n", 0, m)
    w = 1
    for i in range(2, 12):
        if i <= n:
            w *= i
    for code in ("h:{a>1?a*(h a-1)1};(h a)", "{a>1?a*(f a-1)1}V[a]",
                 "h:{I a<2 {b:1} EL {b:a*(h a-1)};b};(h a)",
                 "h:{a<2?b|1(h a-1 a*(b|1))};(h a)",
                 "a>1?a*(f a-1)1", "a>1?a*RE(a-1)1"):
        same(ctx, val(code, n), w, code)


def fibonacci(ctx, m):
    n = ctx.int("n", 0, m)
    w = [0, 1]
    for i in range(12):
        w.append(w[-1] + w[-2])
    r = 0
    for i in range(12):
        if n == i:
            r = w[i]
    for code in ("h:{a<2?a(h a-1)+(h a-2)};(h a)",
                 "{a<2?a(f a-1)+(f a-2)}V[a]",
                 "h:{I a<2 {b:a} EL {b:(h a-1);b+:(h a-2)};b};(h a)"):
        same(ctx, val(code, n), r, code)


def mutual(ctx, m):
    n = ctx.int("n", 0, m)
    same(ctx, val("h:{a?(i a-1)1};i:{a?(h a-1)0};[(h a);(i a)]", n),
         [1 if n % 2 == 0 else 0, 1 if n % 2 == 1 else 0],
         "functions calling each other")


def sum_list(ctx, m):
    v = [ctx.int(f"x{i}") for i in range(4)]
    same(ctx, val("h:{#a?(a@0)+(h (S a))0};(h a)", v), sum(v), "sum of a list")
    same(ctx, val("h:{#a?(h (S a))AE a@0[]};(h a)", v), v[::-1],
         "reversed list")


def power(ctx, m):
    x = ctx.int("x", -9, 9)
    n = ctx.int("n", 0, 3)
    w = 1
    for i in range(3):
        if i < n:
            w = w * x
    same(ctx, val("h:{b?a*(h a b-1)1};(h a b)", x, n), w, "power")


def recurse(ctx, m):
    n = ctx.int("n", 0, m)
    x = ctx.int("x")
    same(ctx, val("h:{a?RE(a-1)b};(h a b)", n, x),
         x if n == 0 else None, "RE passes one argument")
    same(ctx, val("h:{a?1+RE(a-1)0};[(h a);a]", n), [n, n], "RE")
    same(ctx, val("h:{z.:a;a?RE(a-1)z};z:x;(h a)", n),
         "".join([str(n - i) for i in range(10) if i <= n]), "RE")


def depth(ctx, m):
    n = ctx.int("n", 0, m)
    st = state()
    run("h:{z:a?(h a-1)a;b:a;z};(h a)", [n], st)
    ctx.check(len(st.scopes) == 1 and st.localScope is st.scopes[-1],
              "all scopes are closed")


def st_do(st, code):
    """What the repl does with a line."""
    r = None
    for s in parse(code):
        r = st.executeStatement(s)
        if r is not None:
            st.updateHistoryVars(r)
    return r


def var(st, name):
    v = W.execution.Lval(name)
    return py(st.getRval(v))


def history(ctx, k):
    v = [ctx.int(f"x{i}") for i in range(k)]
    for i in range(k):
        if ctx.bool(f"nil{i}"):
            v[i] = None
    st = state()
    for x in v:
        st.updateHistoryVars(pip(x))
    w = (v[::-1] + [None] * 3)[:3]
    same(ctx, [var(st, "$_"), var(st, "$__"), var(st, "$___")], w,
         "the last three values, newest first")
    code = ";".join(f"g@{i}" for i in range(k)) + ";[$_;$__;$___]"
    if k:
        same(ctx, val(code, *v), w, "in a program")
        same(ctx, val("h:{" + code + "};h V g", *v), w, "in a function")


def history_local(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("a;h:{b;a;$_};b;(h 5 6);[$_;$__;$___]", x, y),
         ["5", y, ("block", "{b; a; $_}")],
         "a call does not change the caller's history")
    same(ctx, val("h:{$_};a;(h 5)", x), None,
         "a function starts without history")
    same(ctx, val("h:{a;$_+1};(h a);(h b);$_", x, y), y + 1,
         "history of results")
    same(ctx, val("a;$_+1;$_+1;$_", x), x + 2, "history of history")
    same(ctx, val("l:[a];l;$_@0:5;l", x), [x],
         "history is a value of its own")


def history_deep(ctx, d):
    """Every call has its own history, however deep."""
    v = [ctx.int(f"x{i}") for i in range(4)]
    body = "b;c;d;e;[$_;$__;$___]"
    w = [str(x) for x in v[:0:-1]]
    args = [d] + v
    same(ctx, val("h:{a>0?(h a-1 b c d e)({" + body + "} 0 b c d e)};"
                  "(h a b c d e)", *args), w, "the innermost call")
    same(ctx, val("h:{b;c;d;e;a>0?(h a-1 b b b b)u;[$__;$___]};"
                  "(h a b c d e)", *args), [str(v[3]), str(v[2])],
         "after calls")
    same(ctx, val("h:{b;c;d;e;a>0?(h a-1 b c d e)[$_;$__;$___]};"
                  "(h a b c d e)", *args), w, "at the bottom")


def history_blocks(ctx):
    x, y = ctx.int("x"), ctx.int("y")
    same(ctx, val("a;I 1 {b};F i,3 {i};$_", x, y), x,
         "statements in blocks leave no history")
    same(ctx, val("a;x:b;[$_;$__]", x, y), [y, x], "assignments do")


FAIL = ('V "("', 'V ")"', '"x"~`(`', '"x"R`(``x`', '{V "("}M,2',
        '(z 1)', '"x"R`x`{V "("}', '({V "["}1)',
        '{V "("}SK[1;2]', '{V "("}FI[1]')


def after_error(ctx, k):
    """An error ends the statement; the session goes on as it was."""
    x, y = ctx.int("x"), ctx.int("y")
    d = ctx.choice("d", (0, 1, 2))
    st = state()
    st.assign(W.execution.Lval("a"), pip(x))
    st.assign(W.execution.Lval("t"), pip(y))
    st.updateHistoryVars(pip(y))
    st_do(st, "z:{b:a;V \"(\"};i:0")
    code = FAIL[k]
    if d:
        st_do(st, "p:{c:a;a:7;i:1;" + code + "}")
        code = "(p 1)"
    if d == 2:
        st_do(st, "o:{e:a;(p a)}")
        code = "(o 1)"
    h = py(st.getRval(W.execution.Lval("$_")))
    try:
        st_do(st, code)
        failed = False
    except W.errors.FatalError:
        failed = True
    ctx.check(failed, "an error")
    same(ctx, [var(st, c) for c in "abcdeg"], [x] + [None] * 5,
         "the session's variables")
    same(ctx, var(st, "t"), y, "globals")
    same(ctx, var(st, "i"), "1" if d else "0", "what was done stays done")
    same(ctx, py(st.getRval(W.execution.Lval("$_"))), h,
         "the history")
    same(ctx, py(st_do(st, "b:a+t;b")), x + y, "the session goes on")
    same(ctx, var(st, "$_"), x + y, "the history goes on")


def errors(ctx):
    x = ctx.int("x")
    st = state()
    st_do(st, "z:{b:a;V \"(\"};i:{a?(i a-1)(z 1)}")
    st.assign(W.execution.Lval("a"), pip(x))
    for n in (0, 1, 3):
        try:
            st_do(st, f"(i {n})")
        except W.errors.FatalError:
            pass
        same(ctx, [var(st, "a"), var(st, "b")], [x, None],
             "the session's variables")
    ctx.check(len(st.scopes) == 1, "one scope is left")
