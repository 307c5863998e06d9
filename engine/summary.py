"""Canonical guarded summaries of functions and their comparison.

A summary is the set of observable effects of a function (values returned,
mutating or workspace calls with the provenance of their arguments, errors
built, results of closures it hands out, final contents of what it was given to
mutate), each with the condition under which it happens, over canonical atoms.
Names of locals, order of independent statements, helper functions, nesting of
branches, `?`/`match`/combinator style do not show in it."""
import contextlib, hashlib, re
import gvf
from gvf import T, render, Analysis, OPTION, RESULT, root_iter
from mdd import MDD, Full

CUT = 1500
BUDGET = 300000     # nodes of the diagrams two conditions are compared as
RECORD = 4      # fields of a struct told apart
ITER_PREFIX = ("core::iter::", "core::slice::iter", "itertools::")
ITER_METHODS = {"any", "all", "find", "find_map", "position", "map", "filter", "filter_map", "flat_map", "fold", "for_each",
                "collect", "extend", "chain", "zip", "enumerate", "rev", "skip", "take", "take_while", "skip_while", "sum", "count",
                "last", "nth", "peekable", "partition", "try_fold", "try_for_each", "max", "min", "max_by", "min_by", "max_by_key",
                "min_by_key", "copied", "cloned", "inspect", "scan", "windows", "chunks", "retain", "contains", "iter", "sorted"}
NOISE_CALLS = (
    "core::fmt::", "alloc::fmt::", "core::panicking::", "core::hint::", "std::rt::", "core::ops::drop",
    "core::task::", "core::future::", "core::pin::",
)


def is_idiom(key, tkey):
    if tkey == "core::iter::traits::iterator::Iterator::next" or tkey == "core::iter::traits::collect::IntoIterator::into_iter":
        return False
    if tkey.startswith("core::iter::") or key.startswith("core::iter::"):
        return True
    n = key.rsplit("::", 1)[-1]
    if (key.startswith("core::slice") or key.startswith("alloc::vec") or key.startswith("alloc::slice")) and n in ITER_METHODS and n not in ("iter", "contains"):
        return True
    return False


class Canon:
    """Canonical strings for terms and atoms of one analysis."""

    def __init__(self, A, marks=False):
        self.A = A
        self.memo = {}
        self.vmemo = {}
        self.lmemo = {}
        self.marks = marks
        self.fmemo = {}
        self.atom = self if marks else Canon(A, True)
        self.plain = None

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._t(t)
            r = self.cut(r)
            self.memo[t] = r
        return r

    def _t(self, t):
        t = rebase(t)
        o, a = t.op, t.a
        if o in ("loop", "mut"):
            m = set()
            while t.op in ("loop", "mut"):
                m.add("~" if t.op == "loop" else "'")
                t = t.a[0]
            return self.t(t) + ("".join(sorted(m)) if self.marks and t.op not in ("upd", "phi", "ite", "grow", "agg") else "")
        if o == "iter":
            return "iter(" + self.t(gvf.root_iter(gvf.iter_base(t))) + ")"
        if o == "arg":
            return "arg%s" % a[0]
        if o == "const":
            return a[0]
        if o == "f":
            return self.t(a[0]) + ("@" + a[1] if a[1] else "") + "." + a[2]
        if o in ("call", "agg", "upd", "phi", "ite", "grow"):
            return self.shape((t,))
        if o == "item":
            r = gvf.root_iter(a[0])
            if r.op == "agg" and r.a[0] == "array" and r.a[3]:
                return self.shape(r.a[3])
        if o == "item":
            return "item(" + self.t(a[0]) + ")"
        if o == "next":
            return "next(" + self.t(a[0]) + ")"
        if o == "ptr":
            return "&mut(%s)" % (".".join(((self.t(a[0][1]),) if a[0][0] == "@" else ()) + tuple(p[1] for p in a[1])))
        if o == "cell":
            return "cell"
        if o == "uninit":
            return "uninit"
        if o == "cond":
            return "cond<%s>" % self.fhash(a[0])
        if o == "any":
            return "any<%s>" % self.fhash(a[0])
        if o == "idx":
            return "idx(" + self.t(a[0]) + ")"
        if o == "eq":
            x, y = sorted((self.t(a[0]), self.t(a[1])))
            return "eq(%s, %s)" % (x, y)
        if o == "fnitem":
            return "fn:" + a[0]
        return "%s(%s)" % (o, ", ".join(self.t(x) if isinstance(x, T) else str(x) for x in a))

    def shape(self, ts):
        """One text for all the values a set of terms may stand for. Guards and no-op updates are left out; alternatives
        built by the same constructor or call are merged field by field, so that it does not show whether a choice is made
        inside or outside of them."""
        ts = frozenset(ts)
        r = self.lmemo.get(ts)
        if r is not None:
            return r
        groups, seen, todo, opts = {}, set(), [(t, ()) for t in ts], False
        while todo:
            x, ups = todo.pop()
            if (x, ups) in seen:
                continue
            seen.add((x, ups))
            x = rebase(x)
            o, a = x.op, x.a
            if o == "phi":
                todo += [(y, ups) for y in a[0]]
                continue
            if o == "ite":
                todo += [(a[1], ups), (a[2], ups)]
                continue
            if o == "upd":
                todo.append((a[0], ups + ((".".join(q[1] for q in a[1]), a[2]),)))
                continue
            if o == "item":
                r = gvf.root_iter(a[0])
                if r.op == "agg" and r.a[0] == "array" and r.a[3]:
                    todo += [(y, ups) for y in r.a[3]]
                    continue
            if o == "grow" and a[1] == "cat":
                for s in map(self.cats_text, self.cats(x)):
                    groups.setdefault(("t", s), ([], {}))
                    for q, v in ups:
                        groups[("t", s)][1].setdefault(q, set()).add(v)
                continue
            if o == "grow":
                todo.append((a[0], ups + (("+" + a[1], a[2]),)))
                continue
            if o in ("loop", "mut") and (not self.marks or strip_marks(x).op in ("upd", "phi", "ite", "grow", "agg")):
                todo.append((a[0], ups))
                continue
            if x is gvf.BOT:
                continue
            if o == "agg":
                b = self.A.eta_base(x)
                if b is not None and a[0] == OPTION and a[1] == "Some":
                    todo.append((b, ups))
                    opts = True
                    continue
                if b is not None and a[0] not in (OPTION, RESULT):
                    todo.append((b, ups))
                    continue
                h, ch = ("agg", a[0], a[1], a[2] if a[0] not in ("closure", "coroutine") else len(a[3])), a[3]
            elif o == "call":
                h, ch = ("call", a[0], len(a[1])), a[1]
            else:
                h, ch = ("t", self.t(x)), ()
            g = groups.get(h)
            if g is None:
                g = groups[h] = ([set() for _ in ch], {})
            for s, c in zip(g[0], ch):
                s.add(c)
            for p, v in ups:
                g[1].setdefault(p, set()).add(v)
        out = set()
        if opts:
            # whatever the option is made of may be none itself
            groups.pop(("agg", OPTION, "None", ()), None)
        if len(groups) > 1 and (("t", "true") in groups or ("t", "false") in groups):
            groups = {("t", "a bool"): ((), {})}
        for h, (ch, fs) in groups.items():
            xs = [self.shape(c) for c in ch]
            if h[0] == "call":
                for i in self.A.told.get(h[1], ()):
                    if i < len(xs):
                        xs[i] = "_"
            if h[0] == "t":
                b = h[1]
            elif h[0] == "call":
                b = "%s(%s)" % (h[1], ", ".join(xs))
            elif h[1] in ("closure", "coroutine"):
                b = "%s{%s}" % (h[1], ", ".join(sorted(xs)))
            else:
                b = "()" if h[1] == "tuple" and not h[3] else h[1] + ("::" + h[2] if h[2] else "") + ("{" + ", ".join("%s:%s" % fv for fv in sorted(zip(h[3], xs))) + "}" if h[3] else "")
            ps = []
            for p, vs in sorted(fs.items()):
                v = self.shape({y for y in vs if self.shape({y}) != b + "." + p})
                if v != "bot()":
                    ps.append(p + "=" + v)
            out.add(self.cut("upd(%s; %s)" % (b, ", ".join(ps)) if ps else b))
        if len(out) == 1:
            r = next(iter(out))
        else:
            r = self.cut("phi{" + " | ".join(sorted(out)) + "}") if out else "bot()"
        self.lmemo[ts] = r
        return r

    def cats(self, t, limit=8):
        """Texts a string put together from parts may be."""
        o, a = t.op, t.a
        if t is gvf.EMPTY:
            r = {()}
        elif o == "grow" and a[1] == "cat":
            r = set()
            for b in self.cats(a[0], limit):
                for x in self.cats(a[2], limit):
                    r.add(b + x)
        elif o == "ite":
            r = self.cats(a[1], limit) | self.cats(a[2], limit)
        elif o == "phi":
            r = set().union(*[self.cats(x, limit) for x in a[0]])
        elif o in ("loop", "mut") and strip_marks(t).op == "grow":
            r = {b + ("*",) for b in self.cats(a[0], limit)}
        elif o == "const" and a[0][:1] in "\"'":
            r = {(a[0][1:-1].replace("\\'", "'"),)} if len(a[0]) > 2 else {()}
            r = {tuple('"' + x for x in y) for y in r}
        else:
            r = {(self.t(t),)}
        if len(r) > limit:
            r = {("{" + " | ".join(sorted("+".join(x) for x in r)) + "}",)}
        return r

    def cats_text(self, parts):
        out = []
        for x in parts:
            if x.startswith('"') and out and out[-1].startswith('"'):
                out[-1] += x[1:]
            else:
                out.append(x)
        out = [x + '"' if x.startswith('"') else x for x in out]
        return out[0] if len(out) == 1 else "text(" + ", ".join(out) + ")" if out else "empty()"

    def cut(self, r):
        if len(r) <= CUT:
            return r
        h = hashlib.sha1(r.encode()).hexdigest()[:16]
        return r[:200] + "..#" + h

    def fhash(self, n):
        """Canonical text of a condition, independent of variable order."""
        r = self.fmemo.get(n)
        if r is not None:
            return r
        src = self.A.M
        sup = src.support(n)
        nm = self.namemap(sup)
        drop = {v for v in sup if is_next_atom(src.vars[v][0])}
        if drop:
            n0, n = n, src.exists(n, drop.__contains__)
            sup = src.support(n)
        else:
            n0 = n
        if n == 1:
            out = "always"
        elif len(sup) > 8:
            out = "over %s #%x" % (", ".join(sorted(nm[v] for v in sup)), value(src, n, nm))
        else:
            M = MDD()
            for v in sorted(sup, key=lambda v: nm[v]):
                M.var(("v", nm[v]), src.vars[v][1])
            r = translate(src, n, None, M, lambda v: M.var(("v", nm[v]), src.vars[v][1]), ())
            ps = M.paths(r, 7)
            if len(ps) <= 6:
                out = " | ".join(sorted(" & ".join("%s=%s" % (M.vars[v][0][1], "/".join(l)) for v, l in sorted(p.items())) for p in ps))
            else:
                out = "over %s #%x" % (", ".join(sorted(nm[v] for v in sup)), value(src, n, nm))
        self.fmemo[n0] = out
        return out

    def namemap(self, sup):
        """Names of the atoms of one condition (distinct within it)."""
        out, seen = {}, {}
        for v in sorted(sup):
            s = self.name(v)
            k = seen[s] = seen.get(s, 0) + 1
            out[v] = s if k == 1 else "%s #%d" % (s, k)
        return out

    def name(self, v):
        s = self.vmemo.get(v)
        if s is None:
            t, dom = self.A.M.vars[v]
            if t.op == "is":
                s = "is(%s: %s)" % (self.atom.t(t.a[0]), t.a[1])
            elif t.op == "isv":
                s = "is(%s: %s::%s)" % (self.atom.t(t.a[0]), t.a[1], t.a[2])
            elif t.op == "eq":
                s = "eq(%s, %s)" % tuple(sorted(map(self.side, t.a)))
            else:
                s = self.atom.t(t)
            self.vmemo[v] = s
        return s

    def side(self, t):
        """One side of an equality. A record put together over many steps is named by its kind alone: what it holds is told by
        where it goes."""
        s = self.atom.t(t)
        if "..#" not in s:
            return s
        heads, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += x.a[0]
            elif x.op == "ite":
                todo += x.a[1:3]
            elif x.op in ("upd", "loop", "mut"):
                todo.append(x.a[0])
            elif x.op == "agg" and len(x.a[2]) > 3 and not x.a[2][0].isdigit():
                heads.add(x.a[0] + "{..}")
            else:
                return s
        return "one of " + ", ".join(sorted(heads))


def ret_type(f):
    """(Option or Result, is the payload a unit) of a function."""
    ty = f["locals"][0][1]
    m = re.match(r"(?:std|core)::(result::Result|option::Option)<(\(\), )?", ty)
    if not m:
        return None
    return (RESULT if "Result" in m.group(1) else OPTION, bool(m.group(2)))


def payload_type(f):
    """What an Option or Ok returned holds, as `ty` of Summary.pieces."""
    m = re.match(r"(?:std|core)::(?:result::Result|option::Option)<(.*)", f["locals"][0][1])
    if m and re.match(r"bool[,>]", m.group(1)):
        return "bool"
    return "option" if m and re.match(r"(?:std|core)::option::Option<", m.group(1)) else None


def path_name(p):
    return "." + ".".join("[]" if q[1].startswith("[]") else q[1] for q in p)


def path_text(b, p):
    """The text of what lies at a path of b."""
    for q in p:
        b = "item(%s)" % b if q[1].startswith("[]") else b + ("@" + q[0] if q[0] else "") + "." + q[1]
    return b


def rebase(t):
    """`S { f: x.f, g: v }`, x with another g: x and what is changed of it."""
    if t.op == "f" and t.a[0].op in ("loop", "mut", "agg"):
        # a field of a value carried around a loop: that field, carried around the loop
        b, ms = t.a[0], []
        while b.op in ("loop", "mut"):
            ms.append(b)
            b = b.a[0]
        if b.op == "agg" and b.a[0] not in ("closure", "coroutine") and t.a[2] in b.a[2] and (t.a[1] is None or b.a[1] is None or t.a[1] == b.a[1]):
            r = b.a[3][b.a[2].index(t.a[2])]
            for m in reversed(ms):
                r = T(m.op, r, *m.a[1:])
            return r
    if t.op != "agg" or len(t.a[3]) < 2 or t.a[0] in ("tuple", "array", "closure", "coroutine", OPTION, RESULT):
        return t
    n = {}
    for f, v in zip(t.a[2], t.a[3]):
        v = gvf.Analysis.eta_base(None, v) or v
        if v.op == "f" and v.a[1] is None and v.a[2] == f and not f.isdigit():
            n[v.a[0]] = n.get(v.a[0], 0) + 1
    if not n:
        return t
    m = max(n.values())
    x = min((x for x in n if n[x] == m), key=gvf.render)
    if m * 2 < len(t.a[3]) or x.op == "agg":
        return t
    r = x
    for f, v in sorted(zip(t.a[2], t.a[3]), key=lambda q: q[0], reverse=True):
        w = gvf.Analysis.eta_base(None, v) or v
        if not (w.op == "f" and w.a[0] is x and w.a[1] is None and w.a[2] == f):
            r = T("upd", r, ((None, f),), v)
    return r


def elements(t):
    """The elements an item of a written-out array stands for."""
    if t.op == "item":
        r = gvf.root_iter(t.a[0])
        if r.op == "agg" and r.a[0] == "array" and r.a[3]:
            return r.a[3]
    return (t,)


def strip_marks(t):
    while t.op in ("loop", "mut"):
        t = t.a[0]
    return t


def is_next_atom(t):
    return t.op == "is" and t.a[0].op in ("next",)


def iterish(t):
    """Does an atom depend on an iterator adaptor?"""
    for x in gvf.subterms(t):
        if x.op == "call":
            n = x.a[0].rsplit("::", 1)[-1]
            if x.a[0].startswith("core::iter::") or "Iterator" in x.a[0] or (x.a[0].startswith(("core::slice", "alloc::vec", "alloc::slice")) and n in ITER_METHODS):
                return True
    return False


class Summary:
    def __init__(self, facts, key, baseline, force=frozenset(), small=14, inl=None, split=True, apart=False):
        self.key = key
        self.split = split      # enumeration values told apart where they were tested
        A = Analysis(facts, inline=lambda k: k in force, baseline=baseline, small=small, inl=inl)
        A.apart = apart
        self.A = A
        self.C = Canon(A)
        f = facts.fns[key]
        self.unit = f["locals"][0][1] == "()" and not f.get("async")
        self.bool = f["locals"][0][1] == "bool" and not f.get("async")
        self.retty = ret_type(facts.fns.get(key + "::{closure#0}", f) if f.get("async") else f)
        self.payty = payload_type(facts.fns.get(key + "::{closure#0}", f) if f.get("async") else f)
        A.run(key)
        self.build(facts)

    def add(self, d, cond):
        M = self.A.M
        if d[0] not in ("ret", "panic", "diverge") and self.ok != 1:
            cond = M.conj(cond, self.ok)
        if cond == 0:
            return
        self.eff[d] = M.disj(self.eff[d], cond) if d in self.eff else cond

    def build(self, facts):
        A, C, M = self.A, self.C, self.A.M
        self.eff = {}
        self.idioms = {}
        self.calls = set()
        self.errors = set()
        self.nloops = 0
        self.nknown, self.consts = 0, {}
        # flags given to calls with effects are told where the call is
        A.told = {}
        for e in A.events:
            f = facts.fns.get(e.key) if e.kind == "call" else None
            if f and f.get("argc") == len(e.args) and any(t.op == "ptr" for v in e.args for _, t in v) and not A.want_inline(e.key):
                A.told[e.key] = [i for i in range(len(e.args)) if f["locals"][i + 1][1] == "bool"]
        # what was done to values that an error return discards does not show
        self.ok = 1
        shape = {t.a[1] if t.op == "agg" and t.a[0] == RESULT else "" if t.op != "agg" else None for _, t in A.ret if t is not gvf.BOT}
        if "Err" in shape or {"Ok", ""} <= shape and self.retty and self.retty[0] == RESULT:
            self.ok = 0
            for c, t in A.ret:
                if t is not gvf.BOT:
                    self.ok = M.disj(self.ok, M.conj(c, A.is_(t, RESULT, "Ok")))
        for e in A.events:
            ec = e.cond
            if e.loops and e.kind in ("call", "grow", "items", "cret"):
                # an iteration an error cuts short leaves nothing behind
                for h in e.loops:
                    ec = M.conj(ec, A.cont.get(h, 1))
            if e.kind == "loop":
                self.nloops += 1
            elif e.kind == "agg":
                adt = e.key.rsplit("::", 1)[0]
                if "Error" in adt.rsplit("::", 1)[-1] or adt.rsplit("::", 1)[-1] in ("ErrorCode", "Warning"):
                    self.errors.add(e.key)
            elif e.kind == "call":
                k = e.key
                if is_idiom(k, e.tkey):
                    n = k.rsplit("::", 1)[-1]
                    self.idioms[n] = self.idioms.get(n, 0) + 1
                if k.startswith(NOISE_CALLS) or e.tkey.startswith(NOISE_CALLS) or gvf.is_transparent(e.tkey):
                    continue
                ws = k.split("::")[0].lstrip("<&").startswith("json_ld") or e.tkey.startswith("json_ld")
                muts = any(t.op == "ptr" for v in e.args for _, t in v)
                if k.rsplit("::", 1)[-1] in gvf.GROW and gvf.is_container(k[:k.rfind("::")]) or e.tkey.endswith("Extend::extend"):
                    continue
                if e.tkey.startswith(gvf.ITER) or e.tkey.endswith("::iter_mut") or e.tkey.endswith("IndexMut::index_mut"):
                    continue
                if k == "<indirect>" or gvf.is_view(k):
                    continue
                if ws and not A.want_inline(k) and not (k in facts.fns and facts.fns[k].get("derived")):
                    self.calls.add(k)
                if e.tkey in ("core::iter::traits::iterator::Iterator::next", "core::ops::try_trait::Try::branch"):
                    continue
                if muts and not (ws and A.want_inline(k)):
                    args = []
                    f = facts.fns.get(k)
                    ty = f["locals"] if f and f.get("argc") == len(e.args) else ()
                    for i, v in enumerate(e.args):
                        if any(t.op == "ptr" for _, t in v):
                            d = e.state[i] if e.state is not None and i < len(e.state) else v
                            roots = sorted({self.grow_root(t) for _, t in d})
                            args.append([(1, "&mut " + "|".join(roots))])
                            if e.state is not None:
                                for c, t in d:
                                    self.updates(("pass", k, str(i)), t, M.conj(c, ec))
                        elif i + 1 < len(ty) and ty[i + 1][1] == "bool":
                            c = A.truthv(v)
                            args.append([(c, "true"), (M.neg(c), "false")])
                        else:
                            args.append(self.texts(v, ec))
                    for c, a in self.product(args, ec):
                        self.add(("call", k, a), c)
            elif e.kind == "grow":
                b = A.single(e.args[0])
                r = self.grow_root(b)
                xs = self.element(("grow", e.key, r), e.args[1], ec)
                if e.key == "push":
                    for _, t in e.args[1]:
                        ys = [C.t(y) for y in elements(t)]
                        for i, y in enumerate(ys):
                            for z in ys[i + 1:]:
                                if y != z:
                                    self.eff[("order", y, z)] = 1
                    for y in self.before(b):
                        for _, x in xs:
                            if x != y:
                                self.eff[("order", y, x)] = 1
            elif e.kind == "items":
                for c, x in self.texts(e.args[-1], ec):
                    self.add(("items", C.t(A.single(e.args[0])) if len(e.args) > 1 else "", x), M.conj(c, ec))
            elif e.kind == "cret":
                self.add_val(("closure", e.key.rsplit("::", 1)[-1], C.t(A.single(e.args[0]))), e.args[1], ec)
            elif e.kind == "select":
                for c, x in self.texts(e.args[0], ec):
                    self.add(("select", x), M.conj(c, ec))
            elif e.kind in ("unwrap",):
                self.add(("panic", e.key.replace("::expect", "::unwrap"), C.t(A.single(e.args[0]))), ec)
            elif e.kind in ("diverge",):
                self.add(("diverge",), ec)
        self.add_val(("ret",), A.ret, A.top_cond if hasattr(A, "top_cond") else 1)
        for cell, v in A.final_state.items():
            if cell[0] == "*":
                for c, t in v:
                    self.pieces(("out", cell[2]), t, c, "arg%s" % cell[2])
            elif cell[0] == "@":
                # a place reached through a call or an iterator
                b = C.t(cell[1])
                for c, t in v:
                    self.placed(("at", b), t, c, b)

    def before(self, t):
        """What a list may contain already: the texts appended so far."""
        out, todo, seen = set(), [t], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "grow":
                if t.a[1] == "push":
                    out |= {self.C.t(y) for y in elements(self.A.flat(t.a[2]))}
                todo.append(t.a[0])
            elif t.op in ("loop", "mut", "upd"):
                todo.append(t.a[0])
            elif t.op == "phi":
                todo += list(t.a[0])
            elif t.op == "ite":
                todo += [t.a[1], t.a[2]]
        return out

    def grow_root(self, t):
        """The collection something is added to."""
        while t.op in ("grow", "loop", "mut", "upd"):
            t = t.a[0]
        if t.op == "phi":
            s = sorted({self.grow_root(x) for x in t.a[0]})
            return "{" + " | ".join(s) + "}" if len(s) > 1 else s[0]
        return self.C.t(t)

    def add_val(self, tag, val, cond):
        M = self.A.M
        for c, t in val:
            self.pieces(tag, t, M.conj(c, cond))

    def pieces(self, tag, t, cond, noop=None, ty=None):
        """A value as effects: each component under its own guard."""
        if cond == 0 or t is gvf.BOT:
            return
        M, C = self.A.M, self.C
        t = rebase(t)
        o, a = t.op, t.a
        if o == "ite" and self.record(t) is not None:
            self.fields(tag, t, cond)
        elif o == "ite":
            self.pieces(tag, a[1], M.conj(cond, a[0]), noop, ty)
            self.pieces(tag, a[2], M.conj(cond, M.neg(a[0])), noop, ty)
        elif o == "cond":
            self.add(tag + ("true",), M.conj(cond, a[0]))
            self.add(tag + ("false",), M.conj(cond, M.neg(a[0])))
        elif o in ("loop", "mut"):
            self.pieces(tag, a[0], cond, noop, ty)
        elif o == "agg" and a[0] not in (OPTION, RESULT) and self.A.eta_base(t) is not None:
            self.pieces(tag, self.A.eta_base(t), cond, noop, ty)
        elif o == "agg" and self.record(t) is not None:
            self.fields(tag, t, cond)
        elif o == "agg" and a[0] not in ("closure", "coroutine"):
            if any(x is gvf.BOT for x in a[3]):
                return
            n = a[0] + ("::" + a[1] if a[1] else "") if a[0] != "tuple" or a[3] else "()"
            self.add(tag + (n,), cond)
            for f, v in zip(a[2], a[3]):
                self.pieces(tag + ((a[1] + "." if a[1] else "") + f,), v, cond)
        elif o in ("upd", "phi") and self.record(t) is not None:
            self.fields(tag, t, cond)
        elif o == "upd":
            self.updates(tag, t, cond)
            while t.op in ("upd", "loop", "mut"):
                t = t.a[0]
            self.pieces(tag, t, cond, noop)
        elif o == "grow" and a[1] == "cat":
            for c, x in self.texts(gvf.one(t), cond):
                if x != noop:
                    self.add(tag + (x,), M.conj(c, cond))
        elif o == "grow":
            self.element(tag + ("+" + a[1],), gvf.one(a[2]), cond)
            self.pieces(tag, a[0], cond, noop, ty)
        else:
            if tag == ("ret",) and self.retty and t.op != "const":
                adt, unit = self.retty
                for v in ("Ok", "Err") if adt == RESULT else ("Some", "None"):
                    c = M.conj(cond, self.A.is_(t, adt, v))
                    self.add(tag + (adt + "::" + v,), c)
                    if v != "None":
                        self.pieces(tag + (v + ".0",), gvf.UNIT if unit and v == "Ok" else self.A.field(t, v, "0", adt), c)
                return
            if tag == ("ret",) and self.bool and t.op != "const":
                c = self.A.truth(t)
                self.add(tag + ("true",), M.conj(cond, c))
                self.add(tag + ("false",), M.conj(cond, M.neg(c)))
                return
            if tag in (("ret", "Ok.0"), ("ret", "Some.0")) and t.op != "const":
                ty = ty or self.payty
            if ty == "bool":
                c = self.A.truth(t)
                self.add(tag + ("true",), M.conj(cond, c))
                self.add(tag + ("false",), M.conj(cond, M.neg(c)))
                return
            if ty == "option":
                for v in ("Some", "None"):
                    c = M.conj(cond, self.A.is_(t, OPTION, v))
                    self.add(tag + (OPTION + "::" + v,), c)
                    if v == "Some":
                        self.pieces(tag + ("Some.0",), self.A.field(t, v, "0", OPTION), c)
                return
            for adt in (OPTION, RESULT) if noop is None or C.t(t) != noop else ():
                v = M.vid.get(T("is", t, adt))
                if v is None:
                    continue
                # tested before: known to be of one kind here
                for l in M.vars[v][1]:
                    if M.implies(cond, M.lit(v, (l,))):
                        self.add(tag + (adt + "::" + l,), cond)
                        if l != "None":
                            self.pieces(tag + (l + ".0",), self.A.field(t, l, "0", adt), cond)
                        return
            for c, y in self.known(t, cond):
                x = C.t(y)
                if tag == ("ret",) and self.unit:
                    x = "()"
                if x != noop and c:
                    self.add(tag + (x,), c)

    def known(self, t, cond):
        """A value, or the constants it has been found equal to."""
        M = self.A.M
        for v in range(self.nknown, len(M.vars)):
            x = M.vars[v][0]
            if x.op == "eq":
                for a, b in (x.a, x.a[::-1]):
                    if b.op == "const" and a.op != "const":
                        self.consts.setdefault(a, []).append((v, "T", b))
            elif self.split and x.op == "is" and x.a[1] in self.A.F.adts and x.a[1] not in (gvf.OPTION, gvf.RESULT):
                for w in self.A.F.adts[x.a[1]]["variants"]:
                    if not w["fields"]:
                        self.consts.setdefault(x.a[0], []).append((v, w["name"], T("agg", x.a[1], w["name"], (), ())))
        self.nknown = len(M.vars)
        out = []
        if t in self.consts:
            sup = M.support(cond)
            for v, w, c in self.consts[t]:
                if v in sup:
                    out.append((M.conj(cond, M.lit(v, (w,))), c))
                    cond = M.conj(cond, M.neg(M.lit(v, (w,))))
        return out + [(cond, t)]

    def fields(self, tag, t, cond):
        """A record by its fields."""
        n, fs = self.record(t)
        self.add(tag + (n,), cond)
        adt = self.A.F.adts.get(n)
        tys = dict(adt["variants"][0]["fields"]) if adt and not adt["enum"] else {}
        for f in fs:
            ty = tys.get(f, "")
            ty = "bool" if ty == "bool" else "option" if re.match(r"(std|core)::option::Option<", ty) else None
            self.pieces(tag + (f,), self.A.field(t, None, f, None), cond, None, ty)

    def record(self, t):
        """(name, fields) of the struct a value is, put together over many steps or choices."""
        r, todo, seen = None, [t], set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "phi":
                todo += t.a[0]
            elif t.op == "ite":
                todo += t.a[1:3]
            elif t.op in ("upd", "loop", "mut"):
                todo.append(t.a[0])
            elif t.op == "agg" and t.a[1] is None and len(t.a[2]) >= RECORD and not t.a[2][0].isdigit() and rebase(t) is t:
                if r is not None and r[0] != t.a[0]:
                    return None
                r = t.a[0], t.a[2]
            elif t is not gvf.BOT:
                return None
        return r

    def element(self, tag, val, cond):
        """What is added to a collection; a large record by its fields."""
        M = self.A.M
        xs = self.texts(val, cond)
        if any("..#" in x for _, x in xs):
            for c, t in val:
                if M.conj(c, cond):
                    self.pieces(tag, t, M.conj(c, cond))
            return [(c, "") for c, _ in xs]
        for c, x in xs:
            self.add(tag + (x,), M.conj(c, cond))
        return xs

    def updates(self, tag, t, cond):
        """The fields a value differs in from the object it started as."""
        if t.op == "ite":
            self.updates(tag, t.a[1], self.A.M.conj(cond, t.a[0]))
            self.updates(tag, t.a[2], self.A.M.conj(cond, self.A.M.neg(t.a[0])))
            return
        ups = {}
        while t.op in ("upd", "loop", "mut"):
            if t.op == "upd":
                ups.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        if ups:
            b = self.C.t(t)
            for p, x in ups.items():
                self.pieces(tag + (path_name(p),), x, cond, path_text(b, p))

    def placed(self, tag, t, cond, noop):
        """What is written to a place, growth aside (an effect of its own)."""
        if t.op == "ite":
            self.placed(tag, t.a[1], self.A.M.conj(cond, t.a[0]), noop)
            self.placed(tag, t.a[2], self.A.M.conj(cond, self.A.M.neg(t.a[0])), noop)
            return
        b = t
        while b.op in ("upd", "loop", "mut"):
            if b.op == "upd" and strip_marks(b.a[2]).op != "grow":
                self.pieces(tag + (path_name(b.a[1]),), b.a[2], cond, path_text(noop, b.a[1]))
            b = b.a[0]
        if b.op != "grow" and b is t:
            self.pieces(tag, t, cond, noop)

    def variants(self, t, cond, limit=12):
        """Alternatives of a term, its guarded choices resolved."""
        M = self.A.M
        if cond == 0:
            return []
        if t.op == "cond":
            return [(c, x) for c, x in ((t.a[0], gvf.TRUE), (M.neg(t.a[0]), gvf.FALSE)) if M.conj(c, cond)]
        if not gvf.has_ite(t):
            return [(1, t)]
        o, a = t.op, t.a
        if o == "ite":
            r = [(M.conj(a[0], c), x) for c, x in self.variants(a[1], M.conj(cond, a[0]), limit)]
            r += [(M.conj(M.neg(a[0]), c), x) for c, x in self.variants(a[2], M.conj(cond, M.neg(a[0])), limit)]
        elif o == "agg" and a[0] not in ("closure", "coroutine"):
            r = [(1, ())]
            for x in a[3]:
                r = [(M.conj(c, c2), xs + (y,)) for c, xs in r for c2, y in self.variants(x, M.conj(cond, c), limit)]
                r = [z for z in r if M.conj(z[0], cond)]
                if len(r) > limit:
                    break
            else:
                r = [(c, gvf.T("agg", a[0], a[1], a[2], xs)) for c, xs in r]
        elif o == "grow" and a[1] == "cat":
            r = [(M.conj(c, c2), gvf.T("grow", x, "cat", y)) for c, x in self.variants(a[0], cond, limit) for c2, y in self.variants(a[2], M.conj(cond, c), limit)]
            r = [z for z in r if M.conj(z[0], cond)]
        else:
            r = [(1, self.A.flat(t))]
        if len(r) > limit:
            r = [(1, self.A.flat(t))]
        return r

    def texts(self, v, cond, limit=12):
        """Guarded canonical texts of a value."""
        M = self.A.M
        out = {}
        for c, t in v:
            for c2, x in self.variants(t, M.conj(c, cond), limit):
                g = M.conj(c, c2)
                if M.conj(g, cond) and x is not gvf.BOT:
                    for y in elements(x):
                        s = self.C.t(y)
                        out[s] = M.disj(out[s], g) if s in out else g
        if len(out) > limit:
            return [(1, " | ".join(sorted(out)))]
        return [(g, s) for s, g in out.items()]

    def product(self, args, cond, limit=24):
        M = self.A.M
        r = [(cond, ())]
        for i, alts in enumerate(args):
            n = [(M.conj(c, c2), a + (s,)) for c, a in r for c2, s in alts]
            n = [x for x in n if x[0]]
            if len(n) > limit:
                s = " | ".join(sorted({s for _, s in alts}))
                n = [(c, a + (s,)) for c, a in r]
            r = n
        return r


def translate(src, node, names, dst, vmap, drop):
    memo = {0: 0, 1: 1}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        v, ch = src.nodes[n]
        cs = [go(c) for c in ch]
        if v in drop:
            r = 0
            for c in cs:
                r = dst.disj(r, c)
        else:
            dv = vmap(v)
            dom = dst.vars[dv][1]
            r = 0
            for lab, c in zip(src.vars[v][1], cs):
                if lab in dom:
                    r = dst.disj(r, dst.conj(dst.lit(dv, (lab,)), c))
        memo[n] = r
        return r
    return go(node)


PRIME = (1 << 61) - 1
POINTS = {}


def point(name, dom):
    """A fixed point of the field for each outcome of an atom; they add up to one."""
    k = name, dom
    r = POINTS.get(k)
    if r is None:
        r = {x: int(hashlib.sha1((name + "=" + x).encode()).hexdigest()[:15], 16) for x in dom[:-1]}
        r[dom[-1]] = (1 - sum(r.values())) % PRIME
        POINTS[k] = r
    return r


def value(src, n, nm):
    """The multilinear polynomial of a condition at a fixed point: the same for the same condition over atoms of the same
    names, whatever their order (Blum, Chandra and Wegman's test for free decision diagrams)."""
    memo = {0: 0, 1: 1}

    def go(n):
        r = memo.get(n)
        if r is None:
            v, ch = src.nodes[n]
            dom = src.vars[v][1]
            pt = point(nm[v], dom)
            r = memo[n] = sum(pt[x] * go(c) for x, c in zip(dom, ch)) % PRIME
        return r
    return go(n)


def total(s, n):
    """The condition as a number."""
    src = s.A.M
    sup = src.support(n)
    nm = s.C.namemap(sup)
    drop = {v for v in sup if is_next_atom(src.vars[v][0])}
    return value(src, src.exists(n, drop.__contains__) if drop else n, nm)


class Exists:
    """Compares conditions with `some item satisfies P` atoms on both sides. The predicates over the same collection, of
    both sides, are cut into the regions they generate; `some item satisfies P` is then `some item is in one of the
    regions of P`, whichever way the program grouped the cases."""

    LIMIT = 200

    def __init__(self, sides):
        self.M = MDD(BUDGET)
        self.sides = sides
        self.exp = {}           # (side, any term) -> formula
        self.groups = {}        # sources -> formula of `has an item`
        self.consts = {}        # what is compared with constants -> {constant: variable}
        terms = {}
        for i, (s, n) in enumerate(sides):
            self.collect(i, s.A.M, n, terms)
        for d in sorted(set(terms.values())):
            by = {}
            for (i, t), dt in terms.items():
                if dt == d:
                    f = self.node(i, t.a[0])
                    by.setdefault(self.sources(i, t), []).append((i, t, f))
            for g, l in by.items():
                self.cut(g, l)

    def collect(self, i, src, n, terms):
        d = 0
        for v in src.support(n):
            t = src.vars[v][0]
            if t.op == "any":
                if (i, t) not in terms:
                    terms[i, t] = 0
                    terms[i, t] = 1 + self.collect(i, src, t.a[0], terms)
                d = max(d, terms[i, t])
        return d

    def sources(self, i, t):
        s = self.sides[i][0]
        src = s.A.M
        subs = [x for v in src.support(t.a[0]) for x in gvf.subterms(src.vars[v][0])]
        inner = max([x.a[2] for x in subs if x.op == "any"], default=0)
        own = set(range(-t.a[2], -inner))
        return frozenset(s.C.atom.t(gvf.root_iter(x.a[0])) for x in subs if x.op in ("item", "next", "idx") and x.a[-1] in own)

    def care(self):
        """What is equal to a constant is not equal to another."""
        M = self.M
        r = 1
        for d in self.consts.values():
            d = sorted(d.items())
            for i, (x, v) in enumerate(d):
                for y, w in d[i + 1:]:
                    r = M.conj(r, M.neg(M.conj(M.lit(v, ("T",)), M.lit(w, ("T",)))))
        return r

    def const(self, i, t):
        """The text of a constant, a named one looked up."""
        x = t.a[0]
        if x.startswith('"'):
            return x
        f = self.sides[i][0].A.F.fns.get(x)
        if f is None or f.get("argc"):
            return None
        ls = {s[2][1]["c"] for b in f["blocks"] for s in b["s"] if s[0] == "=" and s[2][0] == "use" and "c" in s[2][1] and s[2][1]["t"] == "&str"}
        return ls.pop() if len(ls) == 1 else None

    def cut(self, g, l):
        M = self.M
        care = self.care()
        l = [(i, t, M.conj(f, care)) for i, t, f in l]
        regs = [care]
        for f in sorted({f for _, _, f in l}):
            nx = []
            for r in regs:
                nx += [x for x in (M.conj(r, f), M.conj(r, M.neg(f))) if x]
            regs = nx
            if len(regs) > self.LIMIT:
                regs = None
                break
        var = lambda x: M.lit(M.var(("region", g, x), ("F", "T")), ("T",))
        for i, t, f in l:
            if regs is None:
                self.exp[i, t] = var(f)
                continue
            e = 0
            for r in regs:
                if M.conj(r, f) == r:
                    e = M.disj(e, var(r))
            self.exp[i, t] = e
        if regs is not None and len(g) == 1:
            e = 0
            for r in regs:
                e = M.disj(e, var(r))
            self.groups[next(iter(g))] = e

    def node(self, i, n):
        s = self.sides[i][0]
        src, dst = s.A.M, self.M
        nm = s.C.namemap(src.support(n))
        memo = {0: 0, 1: 1}
        atoms = {}

        def atom(v):
            t = src.vars[v][0]
            if t.op == "any":
                f = self.exp[i, t]
                return {"F": dst.neg(f), "T": f}
            if t.op == "call" and t.a[0] == "is_empty":
                f = self.groups.get(s.C.atom.t(gvf.root_iter(t.a[1][0])))
                if f is not None:
                    return {"F": f, "T": dst.neg(f)}
            b = any(x.op in ("item", "next", "idx") and isinstance(x.a[-1], int) and x.a[-1] < 0 for x in gvf.subterms(t))
            dv = dst.var(("b" if b else "v", nm[v]), src.vars[v][1])
            if t.op == "eq":
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if x.op == "const" and self.const(i, x):
                        self.consts.setdefault((b, s.C.atom.t(y)), {})[self.const(i, x)] = dv
            return {x: dst.lit(dv, (x,)) for x in dst.vars[dv][1]}

        # the variables in the order of the source, which keeps the diagrams small
        for v in sorted(src.support(n)):
            if not is_next_atom(src.vars[v][0]):
                atoms[v] = atom(v)

        def go(n):
            r = memo.get(n)
            if r is not None:
                return r
            v, ch = src.nodes[n]
            cs = [go(c) for c in ch]
            r = 0
            if is_next_atom(src.vars[v][0]):
                for c in cs:
                    r = dst.disj(r, c)
            else:
                a = atoms.get(v)
                if a is None:
                    a = atoms[v] = atom(v)
                for lab, c in zip(src.vars[v][1], cs):
                    if lab in a:
                        r = dst.disj(r, dst.conj(a[lab], c))
            memo[n] = r
            return r
        return go(n)

    def equal(self):
        a, b = self.node(0, self.sides[0][1]), self.node(1, self.sides[1][1])
        if a != b:
            care = self.care()
            a, b = self.M.conj(a, care), self.M.conj(b, care)
        return a == b


def same(ref, new, a, b):
    try:
        return Exists([(ref, a), (new, b)]).equal()
    except Full:
        return False


class Diff:
    def __init__(self, kind, detail, effect):
        self.kind, self.detail, self.effect = kind, detail, effect


@contextlib.contextmanager
def plain(s):
    """Atoms named without the marks of writes and loops."""
    c = s.C
    if c.plain is None:
        c.plain = Canon(s.A)
        c.plain.atom = c.plain
    s.C = c.plain
    try:
        yield
    finally:
        s.C = c


def shared(ref, new, a, b):
    """The two conditions over the same atoms."""
    M = MDD(BUDGET)
    maps = []
    for s, n in ((ref, a), (new, b)):
        sup = s.A.M.support(n)
        maps.append((s.A.M, n, s.C.namemap(sup), {v for v in sup if is_next_atom(s.A.M.vars[v][0])}))
    for src, n, nm, drop in maps:
        for v in sorted(nm):
            if v not in drop:
                M.var(("v", nm[v]), src.vars[v][1])
    ta, tb = [translate(src, n, None, M, lambda v: M.var(("v", nm[v]), src.vars[v][1]), drop) for src, n, nm, drop in maps]
    return ta, tb, M


def compare(ref, new, effects=None):
    """List of Diff between two summaries; [] when equivalent."""
    out = []
    keys = list(dict.fromkeys(list(ref.eff) + list(new.eff)))
    if effects is not None:
        keys = [k for k in keys if effects(k)]
    for k in keys:
        a, b = ref.eff.get(k), new.eff.get(k)
        if a is None:
            out.append(Diff("extra", "new effect", k))
            continue
        if b is None:
            if k[0] == "panic":
                continue
            out.append(Diff("missing", "effect gone", k))
            continue
        if k[0] == "panic" or total(ref, a) == total(new, b):
            continue        # a possible failure on both sides, or the same condition
        with plain(ref), plain(new):
            # the atoms told apart by their order instead of by what had been written when they were evaluated
            if total(ref, a) == total(new, b):
                continue
        if any(s.A.M.vars[v][0].op in ("any", "eq") for s, n in ((ref, a), (new, b)) for v in s.A.M.support(n)):
            if same(ref, new, a, b):
                continue
            with plain(ref), plain(new):
                if same(ref, new, a, b):
                    continue
        out.append(Diff("condition", difference(ref, new, a, b), k))
    return out


def difference(ref, new, a, b):
    """What tells two conditions apart, by an example."""
    def show(n):
        ps = M.paths(n, 1)
        return " & ".join("%s=%s" % (M.vars[v][0][1], "|".join(l)) for v, l in sorted(ps[0].items())) if ps else ""
    try:
        ta, tb, M = shared(ref, new, a, b)
        more = M.conj(tb, M.neg(ta))
        less = M.conj(ta, M.neg(tb))
    except Full:
        return "happens under another condition"
    d = []
    if less:
        d.append("no longer happens when " + show(less))
    if more:
        d.append("now also happens when " + show(more))
    return "; ".join(d)
