"""Reading a function as a finite table: what it returns for each variant of
its argument, or for each string it compares its argument with. The function's
guarded effect summary is evaluated, so the table is the same however the
function is written."""
import equiv
from summary import Summary


def inlinable(F):
    return {k for k, f in F.fns.items() if not f.get("derived") and not f.get("async") and equiv.nblocks(f) <= equiv.SMALL and not equiv.gvf_loops(f)}


_inl = {}


def summary(ctx, key):
    F = ctx.F
    if id(F) not in _inl:
        _inl[id(F)] = inlinable(F)
    return Summary(F, key, set(ctx.R.fns), inl=_inl[id(F)])


def evaluate(M, n, answer):
    """Whether a condition can hold when `answer` fixes some questions; (possible, certain)."""
    memo = {0: (False, False), 1: (True, True)}

    def go(x):
        r = memo.get(x)
        if r is None:
            v, ch = M.nodes[x]
            t, dom = M.vars[v]
            a = answer(t, dom)
            rs = [go(c) for c, d in zip(ch, dom) if a is None or d == a]
            r = memo[x] = (any(p for p, _ in rs), bool(rs) and all(c for _, c in rs))
        return r
    return go(n)


def is_arg(t, i=1):
    while t.op in ("f", "loop", "mut") and t.op != "f":
        t = t.a[0]
    return t.op == "arg" and t.a[0] == i


def string(t):
    if t.op == "const" and t.a[0][:1] == '"':
        return t.a[0][1:-1]
    return None


def by_variant(ctx, key, adt, arg=1):
    """{variant: set of returned texts (joined component paths)}; None if not a table of the variants of its argument."""
    s = summary(ctx, key)
    M = s.A.M
    out = {}
    for v in ctx.F.adts[adt]["variants"]:
        v = v["name"]
        got = {}
        for e, c in s.eff.items():
            if e[0] != "ret":
                continue

            def answer(t, dom):
                if t.op == "is" and is_arg(t.a[0], arg) and v in dom:
                    return v
                return None
            p, sure = evaluate(M, c, answer)
            if p:
                got[e[1:]] = sure
        out[v] = got
    return out


def by_string(ctx, key, arg=1):
    """(strings compared with, function from string to {returned: certain})."""
    s = summary(ctx, key)
    M = s.A.M
    strings = set()
    for t, _ in M.vars:
        if t.op == "eq":
            for x in t.a[:2]:
                if string(x) is not None:
                    strings.add(string(x))

    def look(w):
        def answer(t, dom):
            if t.op == "eq":
                a, b = t.a[:2]
                for x, y in ((a, b), (b, a)):
                    if string(x) is not None and is_arg(y, arg):
                        return "T" if string(x) == w else "F"
            return None
        got = {}
        for e, c in s.eff.items():
            if e[0] == "ret":
                p, sure = evaluate(M, c, answer)
                if p:
                    got[e[1:]] = sure
        return got
    return strings, look
