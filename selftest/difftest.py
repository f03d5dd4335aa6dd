"""Differential self-test of the string and regex models: symbolic strings
pinned to concrete values must behave exactly as CPython's str and re."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from sx import core, strs, rex, rt


def conc(v, c):
    if isinstance(v, core.Proxy):
        if isinstance(v, strs.SymStr):
            return v.realise()
        if isinstance(v, core.SymBool):
            return bool(v)
        return v.realise()
    if isinstance(v, (list, tuple)):
        return type(v)(conc(x, c) for x in v)
    if isinstance(v, dict):
        return {k: conc(x, c) for k, x in v.items()}
    return v


def pin(c, s, name, lazy):
    c.start_path()
    at = []
    i = 0
    while i < len(s):
        m = re.match(r"-?(0|[1-9][0-9]{0,5})", s[i:])
        if lazy and m and m.group() != "-0" and random.random() < .7:
            t = z3.Int(f"{name}n{i}")
            c.assume(t == int(m.group()))
            at.append(strs.Num(t))
            i += m.end()
            continue
        t = z3.Int(f"{name}{i}")
        c.assume(strs.ASCII.formula_all(t))
        c.assume(t == ord(s[i]))
        at.append(strs.Ch(t, strs.ASCII.points))
        i += 1
    return strs.SymStr(at)


STR = "ab cA1é٣-._0\"\\\n\t9Z"
PATS = [r"a", r"\d+", r"-?\d+", r"-?(\d+\.\d*(?:e[+-]\d+)?|\d+(?:e[+-]\d+)|\.\d+)",
        r"^(0+(\.0*)?|0*\.0+)$", r"\s+", r"(a|b)*c?", r"[^a]", r"(\w)(\w)?",
        r"\b", r"\B", r"", r"a*", r"a*?", r"(a)|b", r"(?<!\\)((?:\\{2})*)\\([1-9]\d?)",
        r"(?P<all>(a+)(b*))", r"(.)\1", r"x|$", r"^", r"(?=a)", r"(?i)A.",
        r"[A-C]+", r"\w+", r"(?:ab|a)(c|bc)?", r"\d{2}", r"\d{1,3}?", r"(a*)*",
        r"(a|b*)*", r"[\d.]+", r"(?s).", r"(?m)^.", r"(?<=a)b", r"\D+", r"[^\W\d]+", r"(\d)(\d*)", r"\d\D", r"1", r"[0-5]+"]


def eval_(c, f):
    """All outcomes by exploring -- pinned, so exactly one path."""
    try:
        return ("v", conc(f(), c))
    except core.Control:
        raise
    except Exception as e:
        return ("e", type(e).__name__)


def desc(m):
    if m is None:
        return None
    return (m.group(), m.groups(), m.span(), m.regs, m.groupdict())


def main(n, seed):
    random.seed(seed)
    bad = 0
    cnt = 0
    for it in range(n):
        c = core.SymCtx()
        core.set_ctx(c)
        s = "".join(random.choice(STR if random.random() < .6 else "ab01.-")
                    for _ in range(random.randrange(7)))
        if random.random() < .3:
            s = str(random.randrange(-200, 200)) + random.choice(["", ".5", " ", "a", ".0"])
        u = "".join(random.choice("ab1") for _ in range(random.randrange(3)))
        i, j = random.randrange(-8, 8), random.randrange(-8, 8)
        ops = {
            "upper": lambda s, u: s.upper(), "lower": lambda s, u: s.lower(),
            "title": lambda s, u: s.title(), "cap": lambda s, u: s.capitalize(),
            "swap": lambda s, u: s.swapcase(), "strip": lambda s, u: s.strip(),
            "lstripu": lambda s, u: s.lstrip(u), "rstrip1": lambda s, u: s.rstrip("1a"),
            "split": lambda s, u: s.split(), "splitu": lambda s, u: s.split(u),
            "split1": lambda s, u: s.split("a", 1), "find": lambda s, u: s.find(u),
            "rfind": lambda s, u: s.rfind(u), "findij": lambda s, u: s.find(u, i, j),
            "index": lambda s, u: s.index(u), "count": lambda s, u: s.count(u),
            "countij": lambda s, u: s.count(u, i, j),
            "sw": lambda s, u: s.startswith(u), "ew": lambda s, u: s.endswith(u),
            "ewz": lambda s, u: s.endswith(".0"),
            "replace": lambda s, u: s.replace(u, "xy"), "replace1": lambda s, u: s.replace("a", u, 1),
            "in": lambda s, u: rt.sx_in(u, s), "eq": lambda s, u: s == u,
            "lt": lambda s, u: s < u, "ge": lambda s, u: s >= u,
            "slice": lambda s, u: s[i:j], "slicen": lambda s, u: s[::-1],
            "slice2": lambda s, u: s[i:j:2], "getitem": lambda s, u: s[i],
            "isalpha": lambda s, u: s.isalpha(), "isdigit": lambda s, u: s.isdigit(),
            "isupper": lambda s, u: s.isupper(), "islower": lambda s, u: s.islower(),
            "isspace": lambda s, u: s.isspace(), "isalnum": lambda s, u: s.isalnum(),
            "len": lambda s, u: rt.sx_len(s), "mul": lambda s, u: s * 2,
            "add": lambda s, u: s + u + "q", "join": lambda s, u: rt.sx_call(u.join, [s, "b", s]),
            "int": lambda s, u: rt.sx_int(s), "int16": lambda s, u: rt.sx_int(s, 16),
            "int3": lambda s, u: rt.sx_int(s, 3),
            "float": lambda s, u: rt.sx_float(s), "splitlines": lambda s, u: s.splitlines(),
            "splitlinesk": lambda s, u: s.splitlines(True),
            "part": lambda s, u: s.partition(u), "rpart": lambda s, u: s.rpartition(u),
            "zfill": lambda s, u: s.zfill(6), "ljust": lambda s, u: s.ljust(5, "."),
            "center": lambda s, u: s.center(7), "translate": lambda s, u: s.translate({97: "XX", 98: None, 49: 50}),
            "list": lambda s, u: rt.sx_list(s), "ord": lambda s, u: rt.sx_ord(s),
            "rmprefix": lambda s, u: s.removeprefix(u), "casefold": lambda s, u: s.casefold(),
        }
        name = random.choice(list(ops))
        f = ops[name]
        ss = pin(c, s, "s", random.random() < .5)
        uu = strs.SymStr([strs.Ch(z3.Int(f"u{k}"), strs.ASCII.points) for k in range(len(u))]) if u and random.random() < .5 else u
        if uu is not u:
            for k, ch in enumerate(u):
                c.assume(z3.Int(f"u{k}") == ord(ch))
        want = None
        try:
            want = ("v", f(s, u))
        except Exception as e:
            want = ("e", type(e).__name__)
        try:
            got = eval_(c, lambda: f(ss, uu))
        except core.PathCut:
            continue
        cnt += 1
        if got != want and not (name == "float" and got[0] == "v" == want[0] and (abs(got[1] - want[1]) < 1e-9 or want[1] != want[1])):
            bad += 1
            print("STR", name, repr(s), repr(u), i, j, "want", want, "got", got)
        # regex
        c = core.SymCtx()
        core.set_ctx(c)
        p = random.choice(PATS)
        fl = random.choice([0, 0, re.I, re.S, re.M, re.A])
        ss = pin(c, s, "s", random.random() < .5)
        R = re.compile(p, fl)
        S = rex.compile_(p, fl)
        rops = {
            "match": lambda r, s: desc(r.match(s)), "full": lambda r, s: desc(r.fullmatch(s)),
            "search": lambda r, s: desc(r.search(s)),
            "finditer": lambda r, s: [desc(m) for m in r.finditer(s)],
            "findall": lambda r, s: r.findall(s),
            "split": lambda r, s: r.split(s), "split1": lambda r, s: r.split(s, 1),
            "sub": lambda r, s: r.sub(r"<\g<0>>", s), "sub1": lambda r, s: r.sub("-", s, 1),
            "subf": lambda r, s: r.sub(lambda m: "[" + m.group() + "]", s),
        }
        name = random.choice(list(rops))
        try:
            want = ("v", rops[name](R, s))
        except Exception as e:
            want = ("e", type(e).__name__)
        try:
            got = eval_(c, lambda: rops[name](S, ss))
        except core.PathCut:
            continue
        cnt += 1
        if got != want:
            bad += 1
            print("RE", name, repr(p), fl, repr(s), "want", want, "got", got)
        # escaped symbolic pattern
        c = core.SymCtx()
        core.set_ctx(c)
        u = "".join(random.choice("ab.*\\1( ") for _ in range(random.randrange(1, 3)))
        uu = pin(c, u, "u", False)
        t = "".join(random.choice("ab.*\\1( ") for _ in range(random.randrange(5)))
        want = [desc(m) for m in re.compile("(" + re.escape(u) + ")+").finditer(t)]
        got = conc([desc(m) for m in rex.compile_("(" + rex.escape(uu) + ")+").finditer(t)], c)
        cnt += 1
        if got != want:
            bad += 1
            print("ESC", repr(u), repr(t), "want", want, "got", got)
    print(f"difftest: {cnt} comparisons, {bad} disagreements")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 2000,
                  int(sys.argv[2]) if len(sys.argv) > 2 else 1))
