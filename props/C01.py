"""Scanning: total, and token for token what the language's lexical rules say."""

BOUNDS = {
    "quick": "arbitrary source texts of 0-2 characters (tab, LF, CR, "
             "printable ASCII, e-acute, Arabic digit three) and of 3 over 17 "
             "representative characters, plus templates (capital runs, "
             "strings, patterns, escaped strings, comments, $-names, "
             "numbers, operator runs) with up to 5 arbitrary characters",
    "thorough": "as quick with 3 arbitrary characters (4 over the "
                "representatives) and templates up to 8",
}

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
REP = "EIa_1;{}\"'`\\ \n$.:<"
FIRST = ["ABCDEFGHIJKLM", "NOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz_",
         "0123456789\u0663", "\"'`", "{ \n\t\r;", "$", "\\", "|&!?=:",
         "<>#~@^", "+-*/%.,", "}()[]\xe9"]


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(0, 3):
        us.append((f"free n={n}", "free", {"n": n}, {"weight": n * 25}))

    def T(name, parts, w=1):
        us.append((name, "template", {"parts": parts}, {"weight": w}))
    if t:
        for k, f in enumerate(FIRST):
            T(f"free n=3 first {k}", [(1, f), (2, "")], 500)
        for c in REP:
            T(f"representatives n=4 {c!r}", [c, (3, REP)], 60)
    else:
        for c in REP:
            T(f"representatives n=3 {c!r}", [c, (2, REP)], 5)
    ex = 1 if t else 0
    for n in range(1, 4 + 2 * ex):
        T(f"capitals n={n}", [(n, UP)], 3 ** n)
    T("capitals few n=5", [(5, "PIELAXW")], 9)
    for n in range(6, 15 if t else 12):
        w = ("UQSCLRVDNTMXGB" * 2)[:n]
        for k in range(0, n - 1, 2):
            T(f"long capital run n={n} at {k}", [w[:k], (2, "EIPLSXZR"),
                                              w[k + 2:]], 2)
        T(f"PIP in a run n={n}", [(3, "PI"), w[3:]], 2)
    T("capitals then lower", [(3, "PIEL"), (2, "aj_ \n")], 5)
    T("capital words", [(6 if t else 5, "PIE")])
    for n in range(0, 4 + ex):
        T(f"string n={n}", ['"', (n, '"\\ax\n ;`'), (2, '"a;')], 2)
        T(f"pattern n={n}", ['`', (n, '`\\ax\n"'), (2, '`a\\')], 2)
        T(f"escaped n={n}", ['\\"', (n, '"\\a`\n'), (2, '"\\a')], 2)
    T("char literal", ["'", (3, "'\n ;\"a`")])
    for n in range(1, 4 + ex):
        T(f"number n={n}", [(n, "019.a-\u0663 ")], 2)
    T("number long", [(4 + ex, "09."), (1, ".a ")], 4)
    T("dollar names", ["$", (3 + ex, "[](a_z0A9$`'j")], 8)
    T("dollar long", ["$", (4 + ex, "a_0A")], 4)
    T("backslash names", ["\\", (2 + ex, "abghA$\\?|&!,\"")], 3)
    for k in ("<>=", "|@*?", "~#^!"):
        T(f"operator runs {k}", [(1, k), (2 + ex, "<>=|@*?~#^!")], 12)
    T("operator runs 2", [(3 + ex, "*/+-:.,%&")], 12)
    T("block comment", ["a{;", (4 + ex, ";}{a\n"), "b", (1, ";}x")], 4)
    T("block comments two", ["{;", (2, ";}x"), ";}x{;", (2, ";}x"), ";}y"])
    T("line comment", ["a", (2 + ex, " \n;x"), (2, "\n;b"), "c",
                       (2, "\n x"), "d"], 9)
    T("line comment spaces", ["a", (4 + ex, " \n;\tx"), "b"], 7)
    T("leading comment", [(3 + ex, " \n;x{}")], 3)
    if t:
        T("control characters", ["a", (1, None), (1, None)], 60)
    else:
        T("control characters", ["a", (1, None), "b"], 5)
    return us


def free(ctx, n):
    scan_check(ctx, ctx.string("src", n))


def template(ctx, parts):
    text = ""
    for i, p in enumerate(parts):
        if isinstance(p, str):
            text = text + p
        elif p[1] == "":
            text = text + ctx.string(f"s{i}", p[0])
        elif p[1] is None:
            text = text + ctx.string(f"s{i}", p[0], FULL)
        else:
            text = text + ctx.string(f"s{i}", p[0], alpha(p[1]))
    scan_check(ctx, text)


def scan_check(ctx, text):
    want = ref(text)
    try:
        got = scan(text)
    except W.errors.IncompleteSyntax:
        ctx.check(want is None, "only unterminated literals and block "
                  "comments are rejected as incomplete")
        return
    ctx.check(want is not None, "unterminated literals and block comments "
              "are rejected as incomplete")
    ctx.check(got[-1] is None, "the token list ends with the end marker")
    got = got[:-1]
    shown = lambda: f"got {got!r}, expected {want!r}"
    ctx.check(len(got) == len(want), "the tokens are those of the text",
              shown)
    for g, (kind, w) in zip(got, want):
        ctx.check(type(g).__name__ == kind, "tokens have the right kind",
                  shown)
        ctx.check(str(g) == w, "tokens have the right text", shown)


def isspace(c):
    return c.isspace()


def isdig(c):
    return c.isdecimal()


def between(c, lo, hi):
    return lo <= c <= hi


def ref(text):
    """The lexical rules, by hand: list of (kind, text), None if
    incomplete."""
    s = "\n" + text + "\n"
    n = len(s)
    out = []
    i = 0
    ops = W.operators.operators
    cmds = W.operators.commands
    while i < n:
        c = s[i]
        # line comments: a line whose first character is ;, or two spaces
        if isspace(c):
            k = i
            nl = False
            while k < n and isspace(s[k]):
                if s[k] == "\n":
                    nl = True
                k += 1
            comment = False
            if nl and k < n and s[k] == ";":
                comment = True
            elif c == " " and i + 1 < n and s[i + 1] == " ":
                comment = True
                k = i + 2
            if comment:
                while k < n and s[k] != "\n":
                    k += 1
            i = k
            continue
        if c == "{" and i + 1 < n and s[i + 1] == ";":
            k = i + 2
            while k + 1 < n and not (s[k] == ";" and s[k + 1] == "}"):
                k += 1
            if k + 1 >= n:
                return None
            i = k + 2
            continue
        if between(c, "A", "Z"):
            k = i + 1
            while k < n and between(s[k], "A", "Z"):
                k += 1
            run = s[i:k]
            size = 1 if (k - i) % 2 else 2
            if run == "PIP":
                size = 3
            tok = s[i:i + size]
            if tok == "EI":
                out.append(("Symbol", "EL"))
                i += 1
                continue
            i += size
            if tok in ops:
                out.append(("Operator", tok))
            elif tok in cmds:
                out.append(("Command", tok))
            elif tok == "EL":
                out.append(("Symbol", tok))
            else:
                out.append(("Name", tok))
            continue
        if c == "_" or between(c, "a", "z"):
            if c != "j":
                out.append(("Name", c))
            i += 1
            continue
        if c == "$":
            d = s[i + 1]
            if d in "][()$`'" or between(d, "0", "9"):
                out.append(("Name", s[i:i + 2]))
                i += 2
            elif between(d, "a", "z"):
                k = i + 2
                while (between(s[k], "a", "z") or between(s[k], "0", "9")
                       or s[k] == "_"):
                    k += 1
                out.append(("Name", s[i:k]))
                i = k
            elif d == "_":
                k = i + 2
                while k < i + 4 and s[k] == "_":
                    k += 1
                out.append(("Name", s[i:k]))
                i = k
            else:
                out.append(("Symbol", "$"))
                i += 1
            continue
        if c == "\\":
            d = s[i + 1]
            if between(d, "a", "g"):
                out.append(("Name", s[i:i + 2]))
                i += 2
                continue
            if d == '"':
                # \" ... \"
                k = i + 2
                while k < n:
                    if s[k] == "\\":
                        if k + 1 < n and s[k + 1] == '"':
                            break
                        k += 2
                    else:
                        k += 1
                if k + 1 >= n:
                    return None
                out.append(("EscapedString", s[i:k + 2]))
                i = k + 2
                continue
            if d == "$":
                out.append(("Symbol", s[i:i + 2]))
                i += 2
                continue
            # otherwise perhaps an operator, below
        if c == '"':
            k = i + 1
            while k < n and s[k] != '"':
                k += 1
            if k >= n:
                return None
            out.append(("String", s[i:k + 1]))
            i = k + 1
            continue
        if c == "`":
            k = i + 1
            while k < n and s[k] != "`":
                k += 2 if s[k] == "\\" else 1
            if k >= n:
                return None
            out.append(("Pattern", s[i:k + 1]))
            i = k + 1
            continue
        if c == "'":
            if i + 1 >= n:
                return None
            out.append(("Char", s[i:i + 2]))
            i += 2
            continue
        if isdig(c):
            k = i
            while isdig(s[k]):
                k += 1
            if s[k] == "." and isdig(s[k + 1]):
                k += 1
                while isdig(s[k]):
                    k += 1
            out.append(("Number", s[i:k]))
            i = k
            continue
        if c in "][(){};":
            out.append(("Symbol", c))
            i += 1
            continue
        # the longest operator that starts here
        found = ""
        for size in (3, 2, 1):
            if s[i:i + size] in ops:
                found = s[i:i + size]
                break
        if found != "":
            out.append(("Operator", found))
            i += size
            continue
        # anything else is ignored
        i += 1
    return out
