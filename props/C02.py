"""Layout: comments, whitespace and line structure never change the tokens."""

BOUNDS = {
    "quick": "two arbitrary texts (one character each of tab, LF, CR, "
             "printable ASCII, two non-ASCII characters; or up to 2 of 15 "
             "representatives) on separate lines; two arbitrary tokens of up to 2 characters with every "
             "kind of comment between them, comment text of up to 2 "
             "arbitrary characters",
    "thorough": "as quick, texts of up to 3 characters, comments of up to 4",
}

SEPS = {"blank line": "\n\n", "indented": "\n\n   ", "tab": "\n\n\t",
        "block comment": "\n\n{;q;}", "line comment": "\n\n;q\n"}
TOK = "aZ1+<:({;$\\'\"`"


def units(tier):
    t = tier == "thorough"
    us = []
    for k in SEPS:
        for m, n in [(1, 1)] + ([(2, 1), (1, 2), (2, 2)] if t else
                                [(2, 1)] if k == "line comment" else []):
            us.append((f"lines {k} {m}+{n}", "lines",
                       {"sep": k, "m": m, "n": n}, {"weight": 30 ** (m + n)}))
    for kind in ("block", "inline", "line", "indented line"):
        for n in range(0, 5 if t else 3):
            us.append((f"comment {kind} n={n}", "comment",
                       {"kind": kind, "n": n}, {"weight": 5 * 5 ** n}))
    us.append(("spaces", "spaces", {"n": 3 if t else 2}, {"weight": 20}))
    us.append(("crlf and blank lines", "spaces_long", {}, {"weight": 20}))
    for n in range(0, 4 if t else 3):
        us.append((f"indentation n={n}", "indented", {"n": n},
                   {"weight": 4 ** n}))
    us.append(("run around comments", "running", {"n": 3 if t else 2}))
    return us


def toks(text):
    try:
        got = scan(text)[:-1]
    except W.errors.IncompleteSyntax:
        return None
    return [(type(t).__name__, str(t)) for t in got]


def eq(ctx, got, want, label):
    shown = lambda: f"got {got!r}, expected {want!r}"
    ctx.check((got is None) == (want is None), label, shown)
    if want is None:
        return
    ctx.check(len(got) == len(want), label, shown)
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], label, shown)
        ctx.check(g[1] == w[1], label, shown)


def lines(ctx, sep, m, n):
    few = alpha("aZ1+;{}'\"`\\ \n$<")
    a = ctx.string("a", m, few if m + n > 2 else None)
    b = ctx.string("b", n, few)
    ta = toks(a)
    tb = toks(b)
    ctx.assume(ta is not None)
    ctx.assume(tb is not None)
    if "comment" in sep:
        # b starts in mid-line there, so is not itself a ; comment
        if sep == "block comment":
            ctx.assume(b.lstrip()[:1] != ";")
    eq(ctx, toks(a + SEPS[sep] + b), ta + tb,
       "texts on separate lines scan independently")


def one_token(ctx, name, n):
    t = ctx.string(name, n, alpha(TOK))
    ctx.assume(t[0] != ";")
    ts = toks(t)
    ctx.assume(ts is not None)
    ctx.assume(len(ts) == 1)
    ctx.assume(ts[0][1] == t)
    return t


def comment(ctx, kind, n):
    a = one_token(ctx, "a", 1 if n > 1 else 2)
    b = one_token(ctx, "b", 1)
    c = ctx.string("c", n)
    if kind == "block":
        ctx.assume(";}" not in c + ";")
        ctx.assume((c + ";}").find(";}") == len(c))
        sep = "{;" + c + ";}"
        if n > 0:
            ctx.assume(c[-1] != ";")
    else:
        ctx.assume("\n" not in c)
        sep = {"inline": "  " + c + "\n", "line": "\n;" + c + "\n",
               "indented line": "\n \t;" + c + "\n"}[kind]
    want = toks(a + " " + b)
    eq(ctx, toks(a + sep + b), want, "a comment is like a space")
    if kind == "inline":
        # two spaces start a comment only after some code
        eq(ctx, toks(a + sep + b + sep), want, "comments end a program")
        return
    eq(ctx, toks(sep + a + sep + b + sep), want,
       "comments around tokens are like spaces")


SPACE = " \t\r\x0b\x0c\x1c\x1f\x85\xa0\u2028\u3000"


def indented(ctx, n):
    """A comment line may be indented by white space of any kind."""
    a = one_token(ctx, "a", 1)
    b = one_token(ctx, "b", 1)
    w = ctx.string("w", n, alpha(SPACE + "\n"))
    v = ctx.string("v", 1 if n else 0, alpha(SPACE))
    ctx.assume("  " not in w)
    c = ctx.string("c", 2, alpha("1}\"{;' "))
    eq(ctx, toks(a + v + "\n" + w + ";" + c + "\n" + b), toks(a + " " + b),
       "an indented comment line is like a space")
    eq(ctx, toks(w + ";" + c + "\n" + b), toks(b),
       "also at the start of a program")


def spaces(ctx, n):
    a = one_token(ctx, "a", 2)
    b = one_token(ctx, "b", 2)
    w = ctx.string("w", n, alpha(" \n\t\r"))
    ctx.assume("  " not in w)
    eq(ctx, toks(a + w + b), toks(a) + toks(b),
       "any whitespace separates tokens")


def spaces_long(ctx):
    a = one_token(ctx, "a", 1)
    b = one_token(ctx, "b", 1)
    w = ctx.string("w", 4, alpha(" \n\r"))
    ctx.assume(w[:2] != "  ")
    eq(ctx, toks(w + a + w + b + w), toks(a) + toks(b),
       "whitespace not starting with two spaces separates tokens")


def running(ctx, n):
    """The value of a program is that of the program without comments."""
    x = ctx.int("x")
    y = ctx.int("y")
    c = ctx.string("c", n, alpha("a;}{\"'` 1"))
    ctx.assume(";}" not in c + ";")
    if n:
        ctx.assume(c[-1] != ";")
    d = ctx.string("d", n, alpha("a;}{\"'` 1"))
    code = "a+b  " + d + "\n;" + d + "\n*{;" + c + ";}c"
    same(ctx, val(code, x, y, 7), str(x + y * 7), "comments do not run")
