"""Shared vocabulary of the harnesses.  This file is loaded twice: rewritten
for symbolic execution, and plainly for replay on the real code.  `W` gives
the modules of the code under test."""


def state(warn=False, fmt=None):
    return W.execution.ProgramState(fmt, warn)


def scan(code):
    return W.scanning.scan(code)


def parse(code):
    return W.parsing.parse(W.scanning.scan(code))


def S(x):
    return W.ptypes.Scalar(x)


def NIL():
    return W.ptypes.nil


def L(items):
    return W.ptypes.List(items)


def R(lo, hi):
    """The Range lo .. hi; None is nil (unbounded)."""
    return W.ptypes.Range(NIL() if lo is None else lo,
                          NIL() if hi is None else hi)


def P(raw, flags=0):
    return W.ptypes.Pattern(raw, flags)


def pip(v):
    """A Pip value for a Python one: str/int -> Scalar, list -> List,
    None -> nil, ('range', lo, hi) -> Range, Pip values as they are."""
    if v is None:
        return NIL()
    if isinstance(v, (str, int, float)):
        return S(v)
    if isinstance(v, list):
        return L([pip(x) for x in v])
    if isinstance(v, tuple) and v[0] == "range":
        return R(v[1], v[2])
    if isinstance(v, tuple) and v[0] == "pattern":
        return P(v[1], v[2] if len(v) > 2 else 0)
    return v


def py(v):
    """A Python view of a Pip value: Scalar -> str, List -> list,
    nil -> None, Range -> ('range', lo, hi), other -> tagged tuple."""
    p = W.ptypes
    if isinstance(v, p.Scalar):
        return str(v)
    if isinstance(v, p.List):
        return [py(x) for x in v]
    if isinstance(v, p.Range):
        lo = v.getLower()
        return ("range", 0 if lo is None else lo, v.getUpper())
    if isinstance(v, p.Pattern):
        return ("pattern", str(v), v._flags)
    if v is p.nil:
        return None
    if isinstance(v, p.Block):
        return ("block", repr(v))
    return ("not a Pip value", type(v).__name__)


def items(v):
    """py(v) with finite Ranges written out as lists."""
    p = W.ptypes
    if isinstance(v, p.Range) and v.isFinite():
        return [str(x) for x in v]
    if isinstance(v, p.List):
        return [items(x) for x in v]
    return py(v)


def run(code, args=(), st=None):
    """Run Pip code as a main program with the given arguments (Python or
    Pip values) and return the value it would print."""
    if st is None:
        st = state()
    args = [pip(a) for a in args]
    block = st.BLOCK(parse(code))
    st.args = args
    st.mainFunction = block
    st.WIPEGLOBALS()
    return st.functionCall(block, args)


def val(code, *args):
    return py(run(code, args))


def same(ctx, got, want, label):
    """Assert structural equality, leaf by leaf, without forking."""
    if isinstance(want, list) or isinstance(got, list):
        ok = isinstance(want, list) and isinstance(got, list) \
            and len(got) == len(want)
        ctx.check(ok, label, lambda: f"got {got!r}, expected {want!r}")
        for i in range(len(want)):
            same(ctx, got[i], want[i], f"{label} [item {i}]")
        return
    if isinstance(want, tuple) or isinstance(got, tuple):
        ok = isinstance(want, tuple) and isinstance(got, tuple) \
            and len(got) == len(want)
        ctx.check(ok, label, lambda: f"got {got!r}, expected {want!r}")
        for g, w in zip(got, want):
            same(ctx, g, w, label)
        return
    if isinstance(want, bool):
        want = int(want)
    if isinstance(got, str) and isinstance(want, int):
        want = str(want)
    if want is None or got is None:
        ctx.check(want is None and got is None, label,
                  lambda: f"got {got!r}, expected {want!r}")
        return
    if isinstance(want, str) != isinstance(got, str):
        ctx.check(False, label, lambda: f"got {got!r}, expected {want!r}")
        return
    ctx.check(got == want, label, lambda: f"got {got!r}, expected {want!r}")
    if not isinstance(got, str) and not W.symbolic:
        pass


def text(v):
    return str(v)


def number(ctx, name, lo=None, hi=None):
    """A symbolic integer, as the text of a Scalar."""
    return ctx.int(name, lo, hi)
