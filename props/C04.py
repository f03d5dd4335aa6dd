"""Parsing: total, and 'incomplete' exactly for what can still be completed."""

BOUNDS = {
    "quick": "every program of up to 3 tokens drawn from 23 representative "
             "tokens (names, literals, every bracket and statement mark, "
             "operators of each kind, commands), and of 4 tokens after each "
             "opening one of 9",
    "thorough": "every program of up to 4 such tokens, and of 5 after each "
                "of 9 openings",
}
ASSUMPTIONS = ["tokens of one kind (two names, two binary operators of one "
               "class) are represented by one or two of the kind"]

VOC = "ab1(){}[];:$!+-*?<FIWLO&"
OPEN = "({[FIW$a+"
FEW = "a(){}[];:$!+?F"


def units(tier):
    t = tier == "thorough"
    us = []
    for n in range(0, 3):
        us.append((f"tokens n={n}", "tokens", {"n": n, "first": ""}))
    for c in VOC:
        us.append((f"tokens n=3 first {c}", "tokens",
                   {"n": 2 + (1 if t else 0), "first": c},
                   {"weight": 100 if t else 8}))
    for c in OPEN:
        us.append((f"tokens n=4 first {c}", "tokens",
                   {"n": 3 + (1 if t else 0), "first": c, "voc": FEW},
                   {"weight": 300 if t else 50}))
    us.append(("else", "fixed", {"pre": "I a b", "n": 3}, {"weight": 20}))
    us.append(("for header", "fixed", {"pre": "F [", "n": 3}, {"weight": 20}))
    us.append(("scan operator", "fixed", {"pre": "\\$", "n": 3},
               {"weight": 20}))
    us.append(("ternary", "fixed", {"pre": "a ?", "n": 3}, {"weight": 20}))
    us.append(("interpolation", "interp", {"n": 4 if t else 3}))
    us.append(("closing", "closing", {"n": 4 if t else 3}, {"weight": 30}))
    return us


def outcome(text):
    try:
        toks = scan(text)
        W.parsing.parse(toks)
    except W.errors.BadSyntax:
        return "bad"
    except W.errors.IncompleteSyntax:
        return "incomplete"
    return "ok" if toks[0] is None else "stopped"


def check(ctx, parts):
    whole = outcome(" ".join(parts))
    ctx.check(whole in ("ok", "bad", "incomplete", "stopped"),
              "parsing succeeds or reports a syntax error")
    ctx.record(whole)
    want = recognise(parts)
    ctx.check(whole == want, "programs are accepted as the grammar says",
              lambda: f"{parts} is {whole}, expected {want}")
    if whole == "stopped":
        return
    # outcomes along the prefixes, shortest first
    prev = "ok"
    for k in range(1, len(parts) + 1):
        now = outcome(" ".join(parts[:k])) if k < len(parts) else whole
        if now == "stopped":
            return
        if prev == "bad":
            ctx.check(now == "bad",
                      "a bad beginning cannot be completed",
                      lambda: f"{parts[:k-1]} is bad, {parts[:k]} is {now}")
        prev = now


def tokens(ctx, n, first, voc=VOC):
    parts = [first] if first else []
    for i in range(n):
        parts.append(ctx.string(f"t{i}", 1, alpha(voc)))
    check(ctx, parts)


def fixed(ctx, pre, n):
    parts = pre.split()
    for i in range(n):
        parts.append(ctx.string(f"t{i}", 1, alpha(FEW)))
    parts2 = []
    for p in parts:
        parts2.append(p)
    check(ctx, parts2)


def interp(ctx, n):
    """Every terminated escaped string is one operand."""
    s = ctx.string("s", n, alpha('\\aAZ_1"'))
    text = '\\"' + s + '\\"'
    try:
        toks = scan(text)
    except W.errors.IncompleteSyntax:
        ctx.check(True, "unterminated")
        return
    ctx.assume(len(toks) == 2)
    ctx.check(outcome(text) == "ok", "an escaped string is an operand")
    ctx.check(outcome("[" + text + "]+" + text) == "ok",
              "an escaped string is an operand")


class Bad(Exception):
    pass


class Short(Exception):
    pass


class Rec:
    """A recogniser for token sequences over the vocabulary."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def at(self, cs):
        if self.i >= len(self.t):
            return False
        return self.t[self.i] in cs

    def end(self):
        return self.i >= len(self.t)

    def fail(self):
        if self.end():
            raise Short()
        raise Bad()

    def eat(self, cs):
        if self.at(cs):
            self.i += 1
            return True
        return False

    def block(self):
        if self.eat("{"):
            while not self.end() and not self.at("}"):
                self.stmt()
            if not self.eat("}"):
                self.fail()
        else:
            self.stmt()

    def stmt(self):
        if self.end():
            raise Short()
        if self.eat("F"):
            self.names()
            self.expr()
            self.block()
        elif self.eat("I"):
            self.expr()
            self.block()
        elif self.eat("LW"):
            self.expr()
            self.block()
        else:
            self.expr()
        self.eat(";")

    def names(self):
        if self.eat("["):
            k = 0
            while not self.eat("]"):
                self.names()
                k += 1
            if not k:
                raise Bad()
        elif not self.eat("ab"):
            self.fail()
        self.eat(";")

    def expr(self):
        self.operand()
        while True:
            if self.eat("+-*<&:"):
                self.eat(":")
                self.operand()
            elif self.eat("?"):
                self.eat(":")
                self.expr()
                self.operand()
            else:
                break
        self.eat(";")

    def operand(self):
        # leading unary operators
        while True:
            if self.eat("$"):
                if not self.eat("+-*<&:"):
                    self.fail()
            elif not self.eat("!+-O"):
                break
            self.eat("*")
            self.eat(":")
        if self.eat("ab1"):
            return
        if self.eat("("):
            while not self.eat(")"):
                if self.end():
                    raise Short()
                self.expr()
        elif self.eat("["):
            while not self.eat("]"):
                if self.end():
                    raise Short()
                self.expr()
        elif self.at("{"):
            self.block()
        else:
            self.fail()


def recognise(parts):
    toks = []
    for p in parts:
        if p == "\\$":
            p = "$"
        toks.append(p)
    # a ; that starts a line is a comment
    if toks and toks[0] == ";":
        return "ok"
    r = Rec(toks)
    try:
        while not r.end() and not r.at("}"):
            r.stmt()
    except Bad:
        return "bad"
    except Short:
        return "incomplete"
    return "ok" if r.end() else "stopped"


CLOSE = {"(": ")", "[": "]", "{": "}"}


def closing(ctx, n):
    """Brackets around an operand, in any nesting: incomplete until closed."""
    br = []
    for i in range(n):
        br.append(["(", "[", "{"][int(ctx.int(f"b{i}", 0, 2))])
    code = "".join(br) + "a"
    ctx.check(outcome(code) == "incomplete", "open brackets are incomplete")
    for k in range(n - 1, -1, -1):
        code += CLOSE[br[k]]
        ctx.check(outcome(code) == ("incomplete" if k else "ok"),
                  "brackets are incomplete until all are closed")
