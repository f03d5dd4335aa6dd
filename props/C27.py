"""The command line and the interactive session."""

import sys

BOUNDS = {
    "quick": "up to 4 arguments of up to 3 characters (printable ASCII, "
             "space, tab, é); argument strings of up to 6 characters; "
             "programs with an arbitrary text of up to 3 characters inside; "
             "sessions of up to 12 lines, with line breaks between any two "
             "tokens",
    "thorough": "arguments of up to 5 characters, argument strings of up to "
                "8 characters",
}
TEXT = "ab\t é\"'\\;-5.[]()|`"
SPLITS = ("[1;2].a", "x+1", "{a+x}V[2]", "\"p q\".x", "I x {P 5} EL {P 6}",
          "F i,3 {P i+x}", "[x;[x;u]]@1", "(x+1)*2", "y:[x x];y@0:3;y",
          "W x<6 {P x;x+:1}", "'a.x", "`a b`", "\\\"a\"b\\\"", "x?1 2",
          "{;a;5;}x", "L 2 O x;7", "-x", "[y z]:[x 4];z.y")
ERRORS = ("V \")\"", "{V \"(\"}V[1]", "\"x\"R`(`5")
BAD = (")", "1 ] 2", "a @@ b ) c", "F 3 4", "* 2")


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(5):
        us.append((f"{n} arguments", "arguments", {"n": n, "t": t}))
        us.append((f"{n} lines as arguments", "lines", {"n": n, "t": t}))
    for n in range(1, 6 if t else 5):
        us.append((f"evaluated number {n}", "evaluated_number", {"n": n}))
    for f in ("sources", "evaluated", "evaluated_bad", "formats", "warnings",
              "failing", "scan_failing", "usage", "interactive", "api",
              "verbose", "stdin_code", "no_file"):
        us.append((f, f, {}))
    for n in range((8 if t else 6) + 1):
        us.append((f"argument string {n}", "argstring", {"n": n}))
    us.append(("argument string of words", "argwords", {}))
    for k in range(len(SPLITS)):
        if SPLITS[k][0] not in "`\\{" or SPLITS[k].endswith("]"):
            us.append((f"session split {SPLITS[k]}", "split", {"k": k}))
        us.append((f"session {SPLITS[k]}", "same_program", {"k": k}))
    for f in ("values", "history", "shown", "errors", "bad", "commands",
              "toggles", "comments", "strings", "ends", "repl_formats",
              "input_lines"):
        us.append((f"session: {f}", f, {}))
    return us


def command(ctx, *argv):
    """Run the command line -> (exit status, output, error output)."""
    sys.argv = ["pip.py"] + list(argv)
    rc = 0
    try:
        W.pip.main()
    except SystemExit as e:
        rc = e.code
        if rc is None:
            rc = 0
    return rc, ctx.output(), ctx.errors()


def ok(ctx, want, argv, label, lines=None):
    if lines is not None:
        ctx.feed(lines)
    rc, out, err = command(ctx, *argv)
    ctx.check(rc == 0, f"{label}: exit status", lambda: f"{rc} {err}")
    same(ctx, out, want, label)
    same(ctx, err, "", f"{label}: no errors")


def texts(ctx, n, t=False, chars=TEXT):
    xs = []
    for i in range(n):
        k = ctx.choice(f"k{i}", (1, 0)) if i else (5 if t else 3)
        s = ctx.string(f"s{i}", k, alpha(chars))
        if k:
            ctx.assume(s[0] != "-")
        xs.append(s)
    return xs


def arguments(ctx, n, t):
    xs = texts(ctx, n, t)
    w = (xs + [None] * 5)[:5]
    code = "P#g;F i g {O i;P'.};P a;P b;P c;P d;P e;()"
    want = str(n) + "\n" + "".join([x + ".\n" for x in xs]) \
        + "".join([x + "\n" for x in xs[:5]])
    ok(ctx, want, ["-e", code] + xs, "arguments")
    ok(ctx, want, ["-s", "-e", code] + xs, "arguments")
    ok(ctx, want, ["-se", code] + xs, "arguments")
    ok(ctx, want, ["-e", code, "--"] + xs, "arguments after --")


def lines(ctx, n, t):
    xs = texts(ctx, n, t)
    code = "P#g;F i g {O i;P'.};()"
    want = str(n) + "\n" + "".join([x + ".\n" for x in xs])
    ok(ctx, want, ["-re", code], "lines of standard input", xs)
    ok(ctx, want, ["-r", "-e", code, "x", "y"], "and no others", xs)


def sources(ctx):
    s = ctx.string("s", 3, alpha("ab é.;'\t"))
    x = ctx.string("x", 1, alpha(TEXT))
    ctx.assume(x != "-")
    code = ["P\"" + s + "\".a", "  c", ";d", "#g.b"]
    want = s + x + "\n2y\n"
    text_ = "\n".join(code)
    ok(ctx, want, ["-e", text_, x, "y"], "-e")
    ok(ctx, want, ["-i", x, "y"], "-i", code)
    ok(ctx, want, ["-f", ctx.file(text_), x, "y"], "-f")
    ok(ctx, want, [ctx.file(text_), x, "y"], "a file")
    ok(ctx, want, [ctx.file(text_ + "\n"), x, "y"], "a file")
    ok(ctx, s + "-\n2-\n", ["-rf", ctx.file(text_)], "-f and -r",
       ["-", "-"])
    ok(ctx, "", ["-e", "", x], "no code")
    ok(ctx, "", ["-i", x], "no code", [])


def stdin_code(ctx):
    n = ctx.choice("n", range(4))
    xs = [ctx.string(f"s{i}", 2, alpha("ab \t;'")) for i in range(n)]
    ok(ctx, "\n".join(xs) + "\n", ["-i"], "lines of code",
       ("\"" + "\n".join(xs) + "\"").split("\n"))
    ok(ctx, "\n".join(xs) + "\n", ["-p", "-i"], "lines of code",
       ("\"" + "\n".join(xs) + "\"").split("\n"))


def evaluated(ctx):
    i = ctx.int("i", 0, 9)
    s = ctx.string("s", 2, alpha("b;"))
    code = "RP a"
    for arg, w in ((str(i), str(i)), ("3+" + str(i), str(i + 3)),
                   ("[" + str(i) + ";u;\"" + s + " b\"]",
                    "[" + str(i) + ";();\"" + s + " b\"]"),
                   ("\"" + s + " b\"", "\"" + s + " b\""),
                   (str(i) + ",()", f"({i},())"), ("u", "()"), ("", "()"),
                   ("  ", "()"), ("{a+" + str(i) + "}", "{a + " + str(i)
                                  + "}"),
                   ("`x`", "`x`"), ("x:[" + str(i) + "]", f"[{i}]"),
                   ("{;c;}" + str(i), str(i))):
        ok(ctx, w + "\n", ["-xe", code, arg], f"-x {arg!r}")
        ok(ctx, w + "\n", ["-xre", code], f"-x -r {arg!r}", [arg])
    ok(ctx, f"[{i};{i + 1};{i}]\n", ["-xpe", "g", str(i), str(i) + "+1",
                                    "x:" + str(i)], "-x several")
    ok(ctx, f"[{i};{i + 1};{i}]\n", ["-xrpe", "g"], "-x several",
       [str(i), str(i) + "+1", "x:" + str(i)])
    ok(ctx, f"[\"{s}1 b\"]\n",
       ["-xpe", "[a.1.\" b\"]", "\"" + s + "\""], "-x text")


def evaluated_number(ctx, n):
    """An argument is evaluated as the same text in a program is."""
    arg = ctx.string("arg", n, alpha("-017.u [;"))
    ctx.assume(arg[0] != "-")
    try:
        tree = parse(arg)
    except W.errors.FatalError:
        rc, out, err = command(ctx, "-xe", "RP 5", arg)
        ctx.check(rc == 1 and out == "", "an argument with an error")
        return
    ctx.assume(len(tree) == 1)
    want = command(ctx, "-e", "RP (V a)", arg)
    ctx.check(want[0] == 0, "-e with V", lambda: want[2])
    same(ctx, list(command(ctx, "-xe", "RP a", arg)), list(want),
         "-x of a text")
    same(ctx, list(command(ctx, "-xe", "RP b", "5", arg)), list(want),
         "-x of a second text")


def evaluated_bad(ctx):
    arg = ctx.choice("arg", (")", "(", "\"a", "V\"(\"", "{V\")\"}V1", "W 1 2"))
    k = ctx.choice("k", (0, 1))
    rc, out, err = command(ctx, "-xe", "P 5", *(["1"] * k), arg)
    ctx.check(rc == 1, "exit status")
    same(ctx, out, "", "nothing was run")
    ctx.check("argument " + repr(arg) in err, "the message names the argument",
              lambda: err)


def formats(ctx):
    x = ctx.string("x", 2, alpha("ab.é"))
    ctx.assume(x[0] != ".")
    code = "[a;[a;u];7]"
    q = "\"" + x + "\""
    for f, w in ((None, x + x + "7"), ("n", f"{x}\n{x}\n\n7"),
                 ("s", f"{x} {x}  7"), ("l", f"{x}\n{x}\n7"),
                 ("p", f"[{q};[{q};()];7]"), ("P", f"{q}\n[{q};()]\n7"),
                 ("S", f"{x}\n{x} \n7")):
        ok(ctx, w + "\n", (["-" + f] if f else []) + ["-e", code, x],
           f"-{f}")
    for long, f in (("lines", "l"), ("newline", "n"), ("repr", "p"),
                    ("reprlines", "P"), ("space", "s"), ("spacelines", "S")):
        r = command(ctx, "-" + f, "-e", code, x)
        same(ctx, list(command(ctx, "--" + long, "--execute", code, x)),
             list(r), f"--{long}")


def warnings(ctx):
    x = ctx.string("x", 2, alpha("ab\""))
    for code, w in (("a.[1+();2]", x + "" + x + "2"), ("P a;1+()", x),
                    ("5/0;a", x)):
        rc, out, err = command(ctx, "-e", code, x)
        ctx.check(rc == 0 and err == "", f"{code}: no warnings")
        rc, out2, err = command(ctx, "-we", code, x)
        same(ctx, out2, out, f"{code}: output")
        ctx.check(rc == 0, f"{code}: exit status")
        ctx.check(err != "", f"{code}: warnings")
        same(ctx, list(command(ctx, "--warnings", "-e", code, x)),
             [0, out2, err], f"{code}: --warnings")


def failing(ctx):
    x = ctx.string("x", 2, alpha("ab;"))
    code = ctx.choice("code", ERRORS)
    for c in (f"P a;{code};P 6", f"P a;h:{{b:{code};P 5}};(h a)",
              f"P a;[1;{code}]", f"F i,3 {{P a;{code}}}"):
        rc, out, err = command(ctx, "-e", c, x)
        same(ctx, out, x + "\n", "what was printed before")
        ctx.check(rc == 1, "exit status 1", lambda: f"{rc}")
        ctx.check("Fatal error during execution" in err, "a message")


def scan_failing(ctx):
    c = ctx.choice("c", ("P 5;(", "P 5;\"a", "P 5)", "P 5;{", "P 5;F",
                         "P 5;* 2", "P 5;`a"))
    rc, out, err = command(ctx, "-e", c)
    same(ctx, out, "", "nothing is run")
    ctx.check(rc == 1, "exit status 1")
    ctx.check("Fatal error while " in err, "a message")


def usage(ctx):
    rc, out, err = command(ctx, "-V")
    ctx.check(rc == 0 and W.version.VERSION in out, "-V")
    rc, out, err = command(ctx, "-w")
    ctx.check(rc == 0 and "usage" in out, "no code")
    rc, out, err = command(ctx, "-V", "-e", "P 5")
    ctx.check("5\n" not in out.split(")")[-1], "-V runs nothing")


def no_file(ctx):
    rc, out, err = command(ctx, "/no such file", "1")
    ctx.check(rc == 1 and out == "" and "Could not read" in err,
              "no such file")


def verbose(ctx):
    s = ctx.string("s", 1, alpha("abé"))
    x = ctx.string("x", 1, alpha("abé5"))
    code = "[\"" + s + "\";a;u]"
    rc, out, err = command(ctx, "-v", "-e", code, x)
    ctx.check(rc == 0 and out.endswith("\n" + s + x + "\n"),
              "-v prints the value last")
    n = 9
    ctx.check(out.startswith(f"{n + (s == 'é')} bytes (UTF-8), {n} "
                             "characters\n"), "-v counts characters",
              lambda: out)
    rc, out, err = command(ctx, "-d", "-e", "[1+();\"" + s + "\"]")
    ctx.check(rc == 0 and out.endswith("\n[();\"" + s + "\"]\n"),
              "-d prints the repr")
    ctx.check(err != "", "-d shows warnings")


def interactive(ctx):
    x = ctx.string("x", 2, alpha("ab;"))
    ctx.feed(["-p " + x + " 'c d'", "P a", "\"e", "f\".b"])
    rc, out, err = command(ctx)
    ctx.check(rc == 0 and err == "", "no errors")
    ctx.check(out.endswith("\n" + x + "\ne\nfc d\n"), "code after arguments")
    ctx.feed(["-e \"P a;5\" '" + x + "'"])
    rc, out, err = command(ctx)
    ctx.check(out.endswith("\n" + x + "\n5\n"), "code among the arguments")


def api(ctx):
    x = ctx.string("x", 2, alpha("ab;é "))
    W.pip.run("P a;b", [x, 7])
    same(ctx, ctx.output(), x + "\n7\n", "run(code, list)")
    W.pip.run("P a;b", "\"" + x + "\" 7")
    same(ctx, ctx.output(), x + "\n7\n", "run(code, text)")
    W.pip.run("[5;a]")
    same(ctx, ctx.output(), "5\n", "run(code)")
    W.pip.run("P 5;V\")\"")
    same(ctx, ctx.output(), "5\n", "run does not raise")
    ctx.check(ctx.errors() != "", "a message")
    W.pip.pip("P a;b", [x, 7])
    same(ctx, ctx.output(), x + "\n7\n", "pip(code, list)")


def words(t):
    """The arguments an argument string stands for."""
    out, cur, q, on = [], "", "", False
    for i in range(len(t)):
        c = t[i]
        if q != "":
            if c == q:
                q = ""
            else:
                cur = cur + c
        elif c == "'" or c == '"':
            q, on = c, True
        elif c == " ":
            if on:
                out.append(cur)
            cur, on = "", False
        else:
            cur, on = cur + c, True
    if on:
        out.append(cur)
    return out, q != ""


def argstring(ctx, n):
    t = ctx.string("t", n, alpha("a'\" "))
    w, open_ = words(t)
    ctx.assume(not open_)
    W.pip.run("P#g;F i g {O i;P'.};()", t)
    same(ctx, ctx.output(), str(len(w)) + "\n" + "".join(
        [x + ".\n" for x in w]), "arguments")


def argwords(ctx):
    xs = [ctx.string(f"x{i}", 2, alpha("ab\té\\;")) for i in range(3)]
    t = xs[0] + "  '" + xs[1] + " \"'" + "x \" " + xs[2] + "\"y ''"
    W.pip.run("P#g;F i g {O i;P'.};()", t)
    same(ctx, ctx.output(), f"4\n{xs[0]}.\n{xs[1]} \"x.\n {xs[2]}y.\n.\n",
         "arguments")


# --- sessions -----------------------------------------------------------

def session(ctx, lines, *flags):
    """-> what a session prints without greetings and prompts, errors."""
    ctx.feed(lines)
    rc, out, err = command(ctx, *flags, "-R")
    ctx.check(rc == 0, "exit status 0")
    k = out.find(">> ")
    ctx.check(k >= 0 and out.startswith("Pip "), "a greeting")
    out = out[k:]
    ctx.check(out.endswith("Bye!\n"), "it ends", lambda: out)
    return out[:-5], err


def split(ctx, k):
    """A line break between any two tokens changes nothing."""
    toks = W.scanning.scan(SPLITS[k])[:-1]
    i = ctx.choice("i", range(1, len(toks)))
    lead = "".join([str(t) + " " for t in toks[:i]])
    rest = "".join([str(t) + " " for t in toks[i:]])
    if rest.startswith(";"):
        return      # it would be a comment
    x = ctx.int("x", 0, 9)
    whole, e1 = session(ctx, [f"x:{x}", lead + rest, "x"])
    try:
        W.parsing.parse(W.scanning.scan(lead))
        return
    except W.errors.IncompleteSyntax:
        pass
    parts, e2 = session(ctx, [f"x:{x}", lead, rest, "x"])
    same(ctx, parts, more(whole), "the same in two lines")
    same(ctx, e2, e1, "no errors")


def more(out):
    """The output with a continuation prompt after the second prompt."""
    i = out.find(">> ", out.find(">> ") + 3) + 3
    return out[:i] + ".. " + out[i:]


def same_program(ctx, k):
    """A session prints what the program prints, and the repr of every
    value."""
    x = ctx.int("x", 0, 9)
    code = SPLITS[k]
    st = state()
    want = ">> " + str(x) + "\n>> "
    st.executeStatement(W.parsing.parse(W.scanning.scan(f"x:{x}"))[0])
    for s in W.parsing.parse(W.scanning.scan(code)):
        r = st.executeStatement(s)
        want = want + ctx.output()
        if r is not None:
            want = want + repr(r) + "\n"
    got, e = session(ctx, [f"x:{x}", code])
    same(ctx, got, want + ">> ", "values and output")
    same(ctx, e, "", "no errors")


def values(ctx):
    i = ctx.int("i", 0, 99)
    s = ctx.string("s", 2, alpha("ab ;'"))
    out, err = session(ctx, [f"x:{i}", "x+1", f"y:\"{s}c\"", "[x;y;u]", "u",
                             "P x", "h:{b:a;b*2}", "(h x)", "b", "I x {P 5}"])
    same(ctx, out, f">> {i}\n>> {i + 1}\n>> \"{s}c\"\n>> [{i};\"{s}c\";()]\n"
         f">> ()\n>> {i}\n{i}\n>> {{b : a; b * 2}}\n>> {2 * i}\n>> ()\n>> "
         + ("5\n" if i != 0 else "") + ">> ", "replies")
    same(ctx, err, "", "no errors")


def history(ctx):
    v = [ctx.int(f"i{k}", 0, 9) for k in range(3)]
    out, err = session(ctx, ["$_"] + [str(x) for x in v]
                       + ["[$_;$__;$___]", "I 0 {5}", "$_@0", "V\")\"",
                          "$_;8", "$_", ")", "$_+1"])
    same(ctx, out, ">> ()\n" + "".join([f">> {x}\n" for x in v])
         + f">> [{v[2]};{v[1]};{v[0]}]\n>> >> {v[2]}\n>> >> {v[2]}\n8\n"
         ">> 8\n>> >> 9\n>> ", "history")


def shown(ctx):
    s = ctx.string("s", 2, alpha("ab \"'\\5-"))
    ctx.feed([s])
    out, err = session(ctx, ["x:q", s, "x"])
    # (x is repr'd as RP has it)
    w = py(run("RP a", [s]))
    same(ctx, out, f">> {w}\n>> {w}\n>> ", "the repr of a text")


def errors(ctx):
    i = ctx.int("i", 0, 9)
    code = ctx.choice("code", ERRORS)
    d = ctx.choice("d", (0, 1, 2))
    c = (code, "{b:a;P a;" + code + "}V[5]",
         "P 5;F i,2{x:7;" + code + "};P 6")[d]
    out, err = session(ctx, [f"a:{i};x:a", c, "a.x", "x+a"])
    y = "7" if d == 2 else i
    want = f">> {i}\n{i}\n>> " + ("5\n" if d == 1 else "5\n5\n"
                                  if d == 2 else "") + ">> "
    same(ctx, out, want + py(run(
        "RP a.b", [i, y])) + "\n>> " + str(7 + i if d == 2 else 2 * i)
        + "\n>> ", "the session goes on")
    ctx.check(err.startswith("Fatal error"), "a message")


def bad(ctx):
    i = ctx.int("i", 0, 9)
    code = ctx.choice("code", BAD)
    n = ctx.choice("n", (0, 1))
    lines = ["[x"] * n + [code]
    if n:
        ctx.assume(code != "1 ] 2" and code != "* 2")
    out, err = session(ctx, [f"x:{i}", *lines, "x+1"])
    same(ctx, out, f">> {i}\n>> " + ".. " * n + f">> {i + 1}\n>> ",
         "the session goes on")
    ctx.check(err.startswith("Syntax error"), "a message", lambda: err)
    ctx.check(err.find("\n") == len(err) - 1, "of one line")


def commands(ctx):
    i = ctx.int("i", 0, 9)
    full = ctx.choice("c", ("quit", "exit", "help", "warnings"))
    n = ctx.choice("n", (1, 2, 3, 4, 8))
    sp = ctx.choice("sp", ("", " ", "  "))
    c = ";" + sp + full[:n] + sp
    out, err = session(ctx, [f"x:{i}", c, "x+1"])
    if full in ("quit", "exit"):
        same(ctx, out, f">> {i}\n>> ", "the session ends")
        return
    ctx.check(out.endswith(f">> {i + 1}\n>> "), "the session goes on")
    if full == "help":
        ctx.check(";warnings" in out, "help")
    else:
        same(ctx, err, "Warnings on\n", "warnings")
        same(ctx, out, f">> {i}\n>> >> {i + 1}\n>> ", "warnings")


def toggles(ctx):
    on = False
    lines = []
    e = []
    flags = ctx.choice("w", ((), ("-w",)))
    on = flags != ()
    for k in range(3):
        c = ctx.choice(f"c{k}", ("", "on", "off", "x"))
        lines += [";w " + c, "1+()"]
        on = not on if c == "" else c == "on" if c != "x" else on
        e.append(("" if c == "x" else f"Warnings {'on' if on else 'off'}\n",
                  on))
    out, err = session(ctx, lines, *flags)
    same(ctx, out, ">> >> ()\n" * 3 + ">> ", "the values")
    for w, on in e:
        ctx.check(err.startswith(w), "the reply", lambda: err)
        err = err[len(w):]
        if on:
            k = err.find("\n")
            ctx.check(k > 0 and not err.startswith("Warnings"), "a warning",
                      lambda: err)
            err = err[k + 1:]
    same(ctx, err, "", "nothing else")


def comments(ctx):
    i = ctx.int("i", 0, 9)
    s = ctx.string("s", 2, alpha("ab;\"'( "))
    words_ = s.split()
    w = words_[0] if len(words_) else ""
    for c in ("quit", "exit", "help", "warnings"):
        ctx.assume(w == "" or not c.startswith(w))
    out, err = session(ctx, [f"x:{i}", ";" + s, f"x+1  {s}", "{;" + s
                             + " ;}", "x"])
    same(ctx, out, f">> {i}\n>> >> {i + 1}\n>> >> {i}\n>> ",
         "comments do nothing")
    same(ctx, err, "", "comments do nothing")
    c = ctx.choice("c", ("quit", "x", "q", "w on", "help", "exit"))
    pre = ctx.choice("pre", (" ", "  ", "\t", "6 \n "))
    out, err = session(ctx, [f"x:{i}"] + (pre + ";" + c).split("\n")
                       + ["x"])
    same(ctx, out, f">> {i}\n>> " + (">> 6\n" if "6" in pre else "")
         + f">> {i}\n>> " if "6" not in pre else
         f">> {i}\n>> 6\n>> >> {i}\n>> ", "a comment is no command")
    same(ctx, err, "", "a comment is no command")


def strings(ctx):
    a, b = [ctx.string(n, 2, alpha("ab ;'(`")) for n in ("a", "b")]
    out, err = session(ctx, ["x:\"" + a, b, "c\"", "x"])
    w = "\"" + a + "\n" + b + "\nc\""
    same(ctx, out, f">> .. .. {w}\n>> {w}\n>> ", "a text over lines")
    out, err = session(ctx, ["{;" + a.replace(";", ""), b.replace(
        ";", ""), ";}5", "6"])
    same(ctx, out, ">> .. .. 5\n>> 6\n>> ", "a comment over lines")


def ends(ctx):
    n = ctx.choice("n", (0, 1, 2))
    last = ctx.choice("last", ("", "(1", "\"a", ";q", ";", "F i,3 {"))
    out, err = session(ctx, ["5"] * n + ([last] if last else []))
    same(ctx, out, ">> 5\n" * n + (">> " if last else "")
         + (".. " if last in ("(1", "\"a", "F i,3 {") else
            "" if last in ("", ";q") else ">> ")
         + (">> " if last == "" else ""), "the session ends")
    same(ctx, err, "", "no errors")


def repl_formats(ctx):
    i = ctx.int("i", 0, 9)
    for f, w in (("n", f"{i}\n2"), ("s", f"{i} 2"), ("p", f"[{i};2]"),
                 ("P", f"{i}\n2"), ("l", f"{i}\n2"), ("S", f"{i}\n2")):
        out, err = session(ctx, [f"P [{i};2]"], "-" + f)
        same(ctx, out, f">> {w}\n[{i};2]\n>> ", f"-{f}")


def input_lines(ctx):
    s = ctx.string("s", 2, alpha("ab5;"))
    out, err = session(ctx, ["x:q.q", s, s, "x"])
    w = py(run("RP a.a", [s]))
    same(ctx, out, f">> {w}\n>> {w}\n>> ", "q reads the following lines")
