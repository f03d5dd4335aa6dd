"""Patterns: matching, replacing, splitting and building patterns, against a
small matcher written from the meaning of the pattern."""

BOUNDS = {
    "quick": "47 patterns (characters, classes, groups, alternatives, "
             "repeats, anchors, back references, flags), subjects of up to "
             "5 characters over all of Unicode (ASCII and é for \\d \\w \\s "
             "and case-insensitive patterns); patterns built from every "
             "pair of 10 by + , * K C X - and from texts of up to 2 "
             "arbitrary characters",
    "thorough": "subjects of up to 6 characters",
}
BOUNDS["quick"] += ("; K and + of every text of up to 2 characters; flags toggled twice"
                    " and combined")


# --- the meaning of patterns -------------------------------------------

def c(chars):
    return ("c", lambda x: x in chars)


def non(chars):
    return ("c", lambda x: not x in chars)


def one(t):
    return ("c", lambda x: x == t)


def fold(t):
    u = t.upper() + t.lower()
    return ("c", lambda x: x in u)


def seq(*xs):
    return ("seq",) + xs


def alt(*xs):
    return ("alt",) + xs


def star(x, lo=0, hi=99):
    return ("rep", x, lo, hi)


def grp(n, x):
    return ("grp", n, x)


ANY = non("\n")
ALL = ("c", lambda x: True)
BOL = ("bol",)
EOL = ("eol",)
BOLM = ("bolm",)
EOLM = ("eolm",)
DIGIT = c("0123456789\u0663")


def m(nd, s, i, g, k):
    """The first way (in order of preference) in which nd matches s from i
    on and k accepts the rest."""
    t = nd[0]
    if t == "c":
        if i < len(s) and nd[1](s[i]):
            return k(i + 1, g)
        return None
    if t == "seq":
        if len(nd) == 1:
            return k(i, g)
        rest = ("seq",) + nd[2:]
        return m(nd[1], s, i, g, lambda j, h: m(rest, s, j, h, k))
    if t == "alt":
        for x in nd[1:]:
            r = m(x, s, i, g, k)
            if r is not None:
                return r
        return None
    if t == "rep":
        return again(nd, s, i, g, k, 0)
    if t == "grp":
        n = nd[1]

        def put(j, h):
            h = dict(h)
            h[n] = (i, j)
            return k(j, h)
        return m(nd[2], s, i, g, put)
    if t == "ref":
        if nd[1] not in g:
            return None
        b, e = g[nd[1]]
        n = e - b
        if i + n <= len(s) and s[i:i + n] == s[b:e]:
            return k(i + n, g)
        return None
    if t == "bol":
        return k(i, g) if i == 0 else None
    if t == "bolm":
        return k(i, g) if i == 0 or s[i - 1] == "\n" else None
    if t == "eolm":
        return k(i, g) if i == len(s) or s[i] == "\n" else None
    # eol: at the end or before a newline at the end
    if i == len(s) or i == len(s) - 1 and s[i] == "\n":
        return k(i, g)
    return None


def again(nd, s, i, g, k, n):
    if n < nd[3]:
        def more(j, h):
            if j == i and n >= nd[2]:
                return None
            return again(nd, s, j, h, k, n + 1)
        r = m(nd[1], s, i, g, more)
        if r is not None:
            return r
    if n >= nd[2]:
        return k(i, g)
    return None


def at(nd, s, i, stop=False, nonempty=False):
    def fin(j, g):
        if stop and j < len(s) or nonempty and j == i:
            return None
        return (i, j, g)
    return m(nd, s, i, {}, fin)


def matches(nd, s):
    """All matches, from left to right."""
    out = []
    i = 0
    last = -1
    while i <= len(s):
        r = at(nd, s, i, nonempty=(i == last))
        if r is None:
            i += 1
        else:
            out.append(r)
            i = r[1]
            last = r[1] if r[0] == r[1] else -1
    return out


def group(s, r, n):
    if n == 0:
        return s[r[0]:r[1]]
    if n in r[2]:
        b, e = r[2][n]
        return s[b:e]
    return None


# --- the patterns ------------------------------------------------------

P1 = {
    "`a`": (c("a"), 0),
    "`ab`": (seq(c("a"), c("b")), 0),
    "`[ab]`": (c("ab"), 0),
    "`[^ab]`": (non("ab"), 0),
    "`.`": (ANY, 0),
    "`[^a]`": (non("a"), 0),
    "`b?`": (star(c("b"), 0, 1), 0),
    "`a+`": (star(c("a"), 1), 0),
    "`a*`": (star(c("a")), 0),
    "`[^a]*`": (star(non("a")), 0),
    "`a?b`": (seq(star(c("a"), 0, 1), c("b")), 0),
    "`a{2}`": (star(c("a"), 2, 2), 0),
    "`a|b`": (alt(c("a"), c("b")), 0),
    "`a|ab`": (alt(c("a"), seq(c("a"), c("b"))), 0),
    "`ab|a`": (alt(seq(c("a"), c("b")), c("a")), 0),
    "`(a)`": (grp(1, c("a")), 1),
    "`(a)|b`": (alt(grp(1, c("a")), c("b")), 1),
    "`a|(b)`": (alt(c("a"), grp(1, c("b"))), 1),
    "`(.)(.)`": (seq(grp(1, ANY), grp(2, ANY)), 2),
    "`(a*)(b*)`": (seq(grp(1, star(c("a"))), grp(2, star(c("b")))), 2),
    "`(a+)(.?)`": (seq(grp(1, star(c("a"), 1)), grp(2, star(ANY, 0, 1))),
                   2),
    "`((a)b)`": (grp(1, seq(grp(2, c("a")), c("b"))), 2),
    "`(.)\\1`": (seq(grp(1, ANY), ("ref", 1)), 1),
    "`(.)(.)\\2\\1`": (seq(grp(1, ANY), grp(2, ANY), ("ref", 2),
                           ("ref", 1)), 2),
    "`(.)x?\\1`": (seq(grp(1, ANY), star(c("x"), 0, 1), ("ref", 1)), 1),
    "`^a`": (seq(BOL, c("a")), 0),
    "`a$`": (seq(c("a"), EOL), 0),
    "`^`": (BOL, 0),
    "`\\.`": (c("."), 0),
    "`\\\\`": (c("\\"), 0),
    "`\\``": (c("`"), 0),
    "(,`^.`)": (seq(BOLM, ANY), 0),
    "(,`.$`)": (seq(ANY, EOLM), 0),
    "(.`a.`)": (seq(c("a"), ALL), 0),
    "(.`.`)": (ALL, 0),
    "(.,`^.$`)": (seq(BOLM, ALL, EOLM), 0),
    "(-(-`a`))": (c("a"), 0),
    "(.(.`a.`))": (seq(c("a"), ANY), 0),
    "(,(.(,`^.`)))": (seq(BOL, ALL), 0),
    "(.`a`+`.`)": (seq(c("a"), ALL), 0),
    "(`.`+.`.`)": (seq(ALL, ALL), 0),
    "(,`^.`,`b`)": (alt(seq(BOLM, ANY), c("b")), 0),
}
PA1 = {
    "`\\d`": (DIGIT, 0),
    "XD": (DIGIT, 0),
    "XI": (seq(star(c("-"), 0, 1), star(DIGIT, 1)), 0),
    "XN": (seq(star(c("-"), 0, 1), star(DIGIT, 1),
               star(seq(c("."), star(DIGIT, 1)), 0, 1)), 0),
    "(A`\\d`)": (c("0123456789"), 0),
    "(A`\\w`)": (c("0123456789abcdefghijklmnopqrstuvwxyz"
                    "ABCDEFGHIJKLMNOPQRSTUVWXYZ_"), 0),
    "XW": (c("0123456789abcdefghijklmnopqrstuvwxyz"
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ_\u0663\xe9"), 0),
    "XV": (c("aeiou"), 0),
    "XL": (c("abcdefghijklmnopqrstuvwxyz"), 0),
    "XU": (c("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), 0),
    "XX": (ANY, 0),
    "w": (star(c(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"), 1), 0),
    "XA": (fold("abcdefghijklmnopqrstuvwxyz"), 0),
    "(-`a`)": (c("aA"), 0),
}
OPS = ("first", "all", "where", "whole", "split", "replace", "remove",
       "each", "strip")


def units(tier):
    t = tier == "thorough"
    us = []
    for p in list(P1) + list(PA1):
        for n in range(7 if t else 6):
            for f in OPS:
                if n > 4 and f in ("replace", "strip") and not t:
                    continue
                us.append((f"{f} {p} n={n}", f, {"p": p, "n": n},
                           {"weight": n}))
    for p in PAIR:
        for q in PAIR:
            us.append((f"build {p} {q}", "build", {"p": p, "q": q}))
    for n in range(3):
        for j in range(4):
            us.append((f"escape {n} in {j}", "escape", {"n": n, "m": j}))
            if n + j < 4:
                us.append((f"escape list {n} in {j}", "escapes",
                           {"n": n, "m": j}))
        us.append((f"literal {n}", "literal", {"n": n}))
        for j in range(5):
            us.append((f"repeat text {n} in {j}", "repeat", {"n": n, "m": j}))
    us.append(("no match", "keeps", {}))
    us.append(("lists", "lists", {}))
    us.append(("equality", "equality", {}))
    us.append(("text of", "text_of", {}))
    us.append(("other types", "bad", {}))
    us.append(("ignoring case", "nocase", {}))
    us.append(("many groups", "many", {}))
    us.append(("replacements", "replacement", {}))
    return us


PAIR = ("`a`", "`ab`", "`a|b`", "`(a)`", "`(a)|b`", "`a+`", "`.`", "`[^a]`",
        "`b?`", "`^`")


def setup(ctx, p, n):
    if p in P1:
        return P1[p] + (ctx.string("s", n, FULL),)
    return PA1[p] + (ctx.string("s", n, ASCII),)


VARS = "[$0;$1;$2;$3;$$;$(;$);$`;$'';$[;$]]".replace("$''", "$'")


def variables(ctx, st, s, r, k):
    """The match variables after match r."""
    gs = [group(s, r, i) for i in range(k + 1)]
    w = (gs + [None] * 4)[:4]
    pos = [r[2].get(i, (-1, -1)) for i in range(1, k + 1)]
    g = lambda v: py(st.getRval(W.execution.Lval(v)))
    for i in range(4):
        same(ctx, g(f"${i}"), w[i], f"${i}")
    same(ctx, g("$9"), None, "$9")
    same(ctx, g("$$"), gs[1:], "$$")
    same(ctx, g("$("), r[0], "$(")
    same(ctx, g("$)"), r[1], "$)")
    same(ctx, g("$`"), s[:r[0]], "$`")
    same(ctx, g("$'"), s[r[1]:], "$'")
    same(ctx, g("$["), [x[0] for x in pos], "$[")
    same(ctx, g("$]"), [x[1] for x in pos], "$]")


def unset(ctx, st):
    ctx.check(py(st.getRval(W.execution.Lval("$0"))) is None,
              "no match, no match variables")


def after(ctx, code, s, last, k, want, label):
    st = state()
    same(ctx, py(run(code, [s], st)), want, label)
    if last is None:
        unset(ctx, st)
    else:
        variables(ctx, st, s, last, k)


def first(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    r = ms[0] if ms else None
    w = group(s, r, 0) if ms else None
    after(ctx, f"a~{p}", s, r, k, w, "text ~ pattern")
    after(ctx, f"{p}~a", s, r, k, w, "pattern ~ text")
    after(ctx, f"a@?{p}", s, r, k, r[0] if ms else None, "@?")


def all_(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    r = ms[-1] if ms else None
    after(ctx, f"a@{p}", s, r, k, [group(s, x, 0) for x in ms], "@")
    same(ctx, val(f"[a;a]@{p}", s),
         [[group(s, x, 0) for x in ms]] * 2, "@ of a list")


globals()["all"] = all_


def where(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    r = ms[-1] if ms else None
    after(ctx, f"a@*{p}", s, r, k, [x[0] for x in ms], "@*")
    after(ctx, f"{p} N a", s, r, k, len(ms), "N")
    same(ctx, val(f"{p} NI a", s), 0 if ms else 1, "NI")


def whole(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    r = at(nd, s, 0, stop=True)
    w = 0 if r is None else 1
    after(ctx, f"a~={p}", s, r, k, w, "~=")
    after(ctx, f"{p}~=a", s, r, k, w, "~= turned round")
    same(ctx, val(f"[a;a]~={p}", s), w, "~= of a list")
    same(ctx, val(f"$~=[a;{p}]", s), w, "$~=")


def split(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    w = []
    j = 0
    for r in ms:
        w.append(s[j:r[0]])
        w += [group(s, r, i) for i in range(1, k + 1)]
        j = r[1]
    w.append(s[j:])
    same(ctx, val(f"a^{p}", s), w, "^")


def sub(s, ms, f):
    out = ""
    j = 0
    for r in ms:
        out += s[j:r[0]] + f(r)
        j = r[1]
    return out + s[j:]


def replace(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    t = ctx.string("t", 1, FULL)
    g = lambda r, i: (group(s, r, i) if i <= k else None) or ""
    same(ctx, val(f"aR{p}b", s, t), sub(s, ms, lambda r: t), "by a text")
    same(ctx, val(f"aR{p}u", s, t), sub(s, ms, lambda r: ""), "by nil")
    same(ctx, val(f"aR{p}`<&>`", s, t),
         sub(s, ms, lambda r: "<" + g(r, 0) + ">"), "by a pattern")
    same(ctx, val(f"y:b;aR{p}{{y}}", s, t),
         sub(s, ms, lambda r: t), "by a function's result")
    same(ctx, val(f"aR{p}{{a.'..(b==u?x b).'..(c==u?x c)}}", s, t),
         sub(s, ms, lambda r: g(r, 0) + "." + g(r, 1) + "." + g(r, 2)),
         "by a function of the match and its groups")
    if k:
        same(ctx, val(f"aR{p}`\\1-\\&\\\\`", s, t),
             sub(s, ms, lambda r: g(r, 1) + "-&\\"), "by a group")
    same(ctx, val(f"aR{p}\"\\1&\"", s, t), sub(s, ms, lambda r: "\\1&"),
         "a text is not a template")
    st = state()
    same(ctx, py(run(f"l:[];aR{p}{{l AL:[$(];a}};l", [s], st)),
         [r[0] for r in ms], "match variables in the function")


def remove(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    same(ctx, val(f"aRM{p}", s), sub(s, ms, lambda r: ""), "RM")
    same(ctx, val(f"aRM[{p}]", s), sub(s, ms, lambda r: ""), "RM of a list")
    same(ctx, val(f"aR[{p}]'-", s), sub(s, ms, lambda r: "-"),
         "R of a list")


def each(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    ms = matches(nd, s)
    g = lambda r, i: group(s, r, i) if i <= k else None
    r = ms[-1] if ms else None
    w = [[g(x, 0), g(x, 1), g(x, 2)] for x in ms]
    after(ctx, f"{{[a;b;c]}}MR{p}a", s, r, k, w, "MR")
    same(ctx, val(f"aMR{p}{{[a;b;c]}}", s), w, "MR turned round")
    same(ctx, val(f"{{[$0;$1;$2]}}MR{p}a", s), w, "MR, match variables")
    after(ctx, f"LR{p}a l AL:[[$0;$1;$2]];l", s, r, k, w, "LR")
    same(ctx, val(f"LR {p} a {{l AL:[$(];l AL:[$)]}};l", s),
         [y for x in ms for y in x[:2]], "LR with a block")


def strip(ctx, p, n):
    nd, k, s = setup(ctx, p, n)
    left = lstrip(nd, s)
    same(ctx, val(f"a|>{p}", s), left, "|>")
    same(ctx, val(f"a<|{p}", s), rstrip(nd, s), "<|")
    same(ctx, val(f"a||{p}", s), rstrip(nd, left), "||")


def lstrip(nd, s):
    while True:
        r = at(nd, s, 0)
        if r is None or r[1] == 0:
            return s
        s = s[r[1]:]


def rstrip(nd, s):
    while True:
        i = 0
        while i < len(s) and at(nd, s, i, stop=True) is None:
            i += 1
        if i >= len(s):
            return s
        s = s[:i]


def shift(nd, n):
    """The pattern with its groups' numbers n higher."""
    if nd[0] == "grp":
        return ("grp", nd[1] + n, shift(nd[2], n))
    if nd[0] in ("seq", "alt"):
        return nd[:1] + tuple([shift(x, n) for x in nd[1:]])
    if nd[0] == "rep":
        return ("rep", shift(nd[1], n), nd[2], nd[3])
    return nd


def built(ctx, code, nd, k, s):
    ms = matches(nd, s)
    r = ms[0] if ms else None
    after(ctx, f"a~({code})", s, r, k, group(s, r, 0) if ms else None, code)
    same(ctx, val(f"({code})~=a", s),
         0 if at(nd, s, 0, stop=True) is None else 1, f"{code} as a whole")


def build(ctx, p, q):
    x, k = P1[p]
    y, j = P1[q]
    n = ctx.choice("n", (0, 1, 2, 3))
    s = ctx.string("s", n, FULL)
    y2 = shift(y, k)
    built(ctx, f"{p}+{q}", seq(x, y2), k + j, s)
    built(ctx, f"{p},{q}", alt(x, y2), k + j, s)
    built(ctx, f"X[{p};{q}]", alt(x, y2), k + j, s)
    built(ctx, f"C{p}+{q}", seq(grp(1, shift(x, 1)), shift(y2, 1)),
          k + j + 1, s)
    built(ctx, f"C({p},{q})", grp(1, shift(alt(x, y2), 1)), k + j + 1, s)
    if q == "`a`":
        built(ctx, f"{p}*2", star(x, 2, 2), k, s)
        built(ctx, f"2*{p}", star(x, 2, 2), k, s)
        built(ctx, f"+{p}", star(x, 1), k, s)
        built(ctx, f"K{p}", star(x), k, s)
        built(ctx, f"C{p}", grp(1, shift(x, 1)), k + 1, s)
        built(ctx, f"X{p}", x, k, s)
        built(ctx, f"+{p}+`b`", seq(star(x, 1), c("b")), k, s)
    if q == "`ab`":
        built(ctx, f"$+[{p};{q};`b`]", seq(x, y, c("b")), k, s)


def escape(ctx, n, m):
    t = ctx.string("t", n, FULL)
    s = ctx.string("s", m, FULL)
    nd = seq(*[one(x) for x in t])
    for code in ("Xb", "X b"):
        ms = matches(nd, s)
        same(ctx, val(f"a@({code})", s, t), [group(s, x, 0) for x in ms],
             "X of a text matches just that text")
    same(ctx, val("a~=Xb", s, t), int(s == t), "X of a text as a whole")
    same(ctx, val("a~=b", s, t), int(s == t), "~= of texts")
    ms = matches(nd, s)
    same(ctx, val("a~b", s, t), group(s, ms[0], 0) if ms else None,
         "~ of texts")
    same(ctx, val("#({a}MRba)", s, t), len(ms), "MR of a text")
    same(ctx, val("LRba i+:1;i", s, t), len(ms), "LR of a text")
    same(ctx, val("aR(Xb)'-", s, t), sub(s, ms, lambda r: "-"), "R")
    same(ctx, val("aRb{'-}", s, t), sub(s, ms, lambda r: "-"), "R")
    if n:
        same(ctx, val("aRb'-", s, t), sub(s, ms, lambda r: "-"),
             "R of a text")
        same(ctx, val("aRMb", s, t), sub(s, ms, lambda r: ""),
             "RM of a text")
        same(ctx, val("a|>Xb", s, t), lstrip(nd, s), "|>")
        same(ctx, val("a<|Xb", s, t), rstrip(nd, s), "<|")


def repeat(ctx, n, m):
    """K and + of an arbitrary text."""
    t = ctx.string("t", n, FULL)
    s = ctx.string("s", m, FULL)
    times = -1
    if m == 0:
        times = 0
    elif n and m % n == 0 and s == t * (m // n):
        times = m // n
    same(ctx, val("a~=Kb", s, t), int(times >= 0), "K of a text")
    same(ctx, val("a~=(Xb)*2", s, t), int(s == t * 2), "X of a text, twice")
    same(ctx, val("a~=2*Xb", s, t), int(s == t * 2), "X of a text, twice")
    same(ctx, val("a~=+Xb", s, t), int(times > 0 or s == t),
         "+ of X of a text")
    same(ctx, val("a~=K(3,5)", s),
         int(all_in(s, "34")), "K of a range")
    same(ctx, val("a~=K C Xb", s, t), int(times >= 0), "K of C of X")


def all_in(s, chars):
    for x in s:
        if not x in chars:
            return False
    return True


def escapes(ctx, n, m):
    t = [ctx.string(f"t{i}", n, alpha("ab.*|\\^ ")) for i in range(2)]
    s = ctx.string("s", m, FULL)
    nd = alt(*[seq(*[one(x) for x in y]) for y in t])
    ms = matches(nd, s)
    same(ctx, val("a@(Xb)", s, t), [group(s, x, 0) for x in ms],
         "X of a list matches any of its texts")
    same(ctx, val("a~=Xb", s, t), int(s == t[0] or s == t[1]),
         "X of a list as a whole")
    same(ctx, val("a~=(+Xb)", s, t),
         0 if at(star(nd, 1), s, 0, stop=True) is None else 1,
         "+ of X of a list")


def literal(ctx, n):
    """A pattern written in the program, of symbolic plain characters."""
    t = ctx.string("t", n, alpha("abc xyz09"))
    s = ctx.string("s", 2, FULL)
    nd = seq(*[one(x) for x in t])
    ms = matches(nd, s)
    same(ctx, val("a@`" + t + "`", s), [group(s, x, 0) for x in ms],
         "plain characters")
    if n:
        same(ctx, val("a~=(`" + t + "`*2)", s), int(s == t + t), "twice")


def keeps(ctx):
    s = ctx.string("s", 1, FULL)
    ctx.assume(s != "q")
    st = state()
    run("\"xqy\"~`(q)(y)`;a~`q`;a@`q`;a@?`q`;a@*`q`;`q`Na;a~=`q`;"
        "{a}MR`q`a;LR`q`a{}", [s], st)
    variables(ctx, st, "xqy", (1, 3, {1: (1, 2), 2: (2, 3)}), 2)
    st = state()
    run("\"xqy\"~`(q)(y)`;a~`.|\n`", [s], st)
    variables(ctx, st, s, (0, 1, {}), 0)


def lists(ctx):
    s = ctx.string("s", 2, FULL)
    t = ctx.string("t", 1, FULL)
    f = lambda x: [c for c in x if c != "\n"]
    same(ctx, val("[a;[b]]@`.`", s, t), [f(s), [f(t)]], "@ of nested lists")
    same(ctx, val("[a;b]R`.`'-", s, t),
         ["".join(["\n" if c == "\n" else "-" for c in x])
          for x in (s, t)], "R of a list")
    same(ctx, val("[a;b]R[`a`;`b`]['b;'c]", s, t),
         ["".join(["c" if c in "ab" else c for c in x]) for x in (s, t)],
         "R of lists, one after the other")
    same(ctx, val("[a;b]R[`a`;`b`]'-", s, t),
         ["".join(["-" if c in "ab" else c for c in x]) for x in (s, t)],
         "R of a list by one")
    same(ctx, val("[a;b]R[`a`;`b`]['-]", s, t),
         ["".join(["-" if c == "a" else "" if c == "b" else c for c in x])
          for x in (s, t)], "R of a list by a shorter one")
    same(ctx, val("[a;b]|>`a`", s, t), [x.lstrip("a") for x in (s, t)],
         "|> of a list")
    same(ctx, val("a||[`a`;'b]", s), [s.strip("a"), s.strip("b")],
         "|| by each of a list")
    same(ctx, val("(10,12)@`1`"),
         [["1"], ["1", "1"]], "@ of a range")
    same(ctx, val("(10,12)R`1`'x"), ["x0", "xx"], "R of a range")
    same(ctx, val("-[`a`;`b`]"), [("pattern", "a", 2), ("pattern", "b", 2)],
         "- of a list")


def equality(ctx):
    s = ctx.string("s", 1, FULL)
    t = ctx.string("t", 1, FULL)
    p, q = P(s), P(t)
    same(ctx, val("a==b", p, q), int(s == t), "==")
    same(ctx, val("aQb", p, q), int(s == t), "Q")
    same(ctx, val("aQb", p, t), int(s == t), "Q of a text")
    same(ctx, val("a==-a", p), 0, "flags matter to ==")
    same(ctx, val("(-a)==-b", p, q), int(s == t), "== of flags")
    same(ctx, val("x:-a;a==-x", p), 1,
         "- twice")
    same(ctx, val("x:,a;a==,x", p), 1, ", twice")
    same(ctx, val("x:.a;a==.x", p), 1, ". twice")
    same(ctx, val("x:A a;a==A x", p), 1, "A twice")
    same(ctx, val("(.-a)==-.a", p), 1, "flags in any order")
    same(ctx, val("UQ[a;b;a]", p, q),
         [py(p)] if s == t else [py(p), py(q)], "UQ")
    same(ctx, val("x:-a;y:.x;[a;x]", p),
         [("pattern", s, 0), ("pattern", s, 2)], "the operand stays")


def text_of(ctx):
    s = ctx.string("s", 2, FULL)
    t = ctx.string("t", 1, FULL)
    p = P(s)
    same(ctx, val("ST a", p), s, "ST")
    same(ctx, val("a.b", p, t), ("pattern", s + t, 0), ".")
    same(ctx, val("b.a", p, t), ("pattern", t + s, 0), ".")
    same(ctx, val("aX2", p), ("pattern", s + s, 0), "X")
    same(ctx, val("aWRb", p, t),
         ("pattern", t + s + t, 0), "WR")
    same(ctx, val("a?1 0", p), 1, "truth")


def bad(ctx):
    i = ctx.int("i")
    p = P("a")
    same(ctx, val("a~b", p, p), None, "~ of patterns")
    same(ctx, val("a~b", None, p), None, "~ of nil")
    same(ctx, val("a~=b", None, p), 0, "~= of nil")
    same(ctx, val("a+b", i, p), None, "+ of a text")
    same(ctx, val("a,b", i, p), None, ", of a text")
    same(ctx, val("aMRbc", i, p, i), None, "MR without a function")
    same(ctx, val("{a}MRab", p, [i]), None, "MR of a list")
    same(ctx, val("LRab i:5;i", p, [i]), "0", "LR of a list")
    same(ctx, val("aRbc", p, i, i), None, "R in a pattern")
    same(ctx, val("a^b", p, i), None, "^ of a pattern")
    same(ctx, val("aRMb", p, i), None, "RM of a pattern")


def nocase(ctx):
    s = ctx.string("s", 2, ASCII)
    lo = "".join([c.lower() if c < "\x7f" else c for c in s])
    same(ctx, val("a~=-`ab`", s), int(lo == "ab"), "-")
    same(ctx, val("a~=-`A[B-C]`", s), int(lo in ("ab", "ac")), "- of a class")
    same(ctx, val("a~=(-`a`)+`b`", s), int(lo == "ab"),
         "+ takes over the flags")
    same(ctx, val("a~=`a`+-`b`", s), int(lo == "ab"),
         "+ takes over the flags")
    same(ctx, val("#(a@-`a`)", s), lo.count("a"), "count")
    same(ctx, val("aR(-`a`)'-", s),
         "".join(["-" if c in "aA" else c for c in s]), "R")
    same(ctx, val("a|>-`a`", s), s.lstrip("aA"), "|>")
    same(ctx, val("a^-`a`", s), split_aA(s), "^")


def split_aA(s):
    out = [""]
    for c in s:
        if c in "aA":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


def many(ctx):
    s = ctx.string("s", 11, FULL)
    ctx.assume(not "\n" in s)
    p = "`" + "(.)" * 11 + "`"
    st = state()
    same(ctx, py(run(f"a~{p};$$", [s], st)), [c for c in s], "all groups")
    same(ctx, py(run(f"a~{p};[$1;$2;$8;$9]", [s], st)),
         [s[0], s[1], s[7], s[8]], "$1 to $9")
    same(ctx, val(f"aR{p}`\\11\\9\\1`", s), s[10] + s[8] + s[0],
         "references to groups")
    t = ctx.string("t", 1, FULL)
    same(ctx, val(
        "(a.b)~=`" + "(.)" * 11 + "\\11`", s, t), int(t == s[10]),
         "a reference to group 11")


def replacement(ctx):
    s = ctx.string("s", 2, FULL)
    x = [c for c in s]
    ctx.assume(not "\n" in s)
    for code, w in (("`&&`", x[0] + x[0] + x[1] + x[1]),
                    ("`\\\\&`", "\\" + x[0] + "\\" + x[1]),
                    ("`\\&`", "&&"),
                    ("`\\\\\\&`", "\\&\\&"),
                    ("`&\\&&`", x[0] + "&" + x[0] + x[1] + "&" + x[1]),
                    ("`\\n`", "\n\n"), ("`.`", ".."), ("``", "")):
        same(ctx, val(f"aR`.`{code}", s), w, f"replacement {code}")
    for code, w in (("`\\2\\1`", x[1] + x[0]), ("`\\1&\\2`", x[0] + s + x[1]),
                    ("`\\\\1`", "\\1"), ("`\\\\\\1`", "\\" + x[0]),
                    ("`\\1\\1`", x[0] + x[0])):
        same(ctx, val(f"aR`(.)(.)`{code}", s), w, f"replacement {code}")
