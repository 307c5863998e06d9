"""Guarded value-flow analysis over built MIR.

A forward, path-sensitive data-flow analysis.  The lattice element at a block
is (reach condition, store): the condition is a decision diagram over *atoms*
(`is(term, Variant)`, Boolean-valued terms), the store maps cells to guarded
sets of terms.  Back edges are cut; whatever a loop may write is widened at its
header.  Nothing is executed and nothing is handed to a solver: terms are
canonical names of where a value comes from (argument, field path, call), so a
rule can ask "which conditions, on which fields, decide this event"."""
import re
import sys
from mdd import MDD

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "a", "_s", "_ptrs", "_loops", "_it", "_ite", "n")
    table = {}
    cnt = 0

    def __new__(cls, op, *a):
        k = (op,) + a
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t._s, t._ptrs, t._loops, t._it, t._ite = op, a, None, None, None, None, None
            cls.cnt += 1
            t.n = cls.cnt
            cls.table[k] = t
        return t

    def __repr__(self):
        return render(self)


def short(k):
    """Last path segments of a key, for display."""
    return k


def render(t):
    if t._s is None:
        t._s = _render(t)
    return t._s


def _render(t):
    o, a = t.op, t.a
    if o == "arg":
        return "arg%s" % (a[0],)
    if o == "const":
        return a[0]
    if o == "f":
        b = render(a[0])
        return b + ("@" + a[1] if a[1] and a[1] not in ("Some", "Ok", "Continue") else ("?" if a[1] else "")) + "." + a[2]
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(render(x) for x in a[1]))
    if o == "agg":
        n = a[0] + ("::" + a[1] if a[1] else "")
        return n + ("{" + ", ".join("%s:%s" % (f, render(v)) for f, v in zip(a[2], a[3])) + "}" if a[2] else "")
    if o == "upd":
        return "upd(%s, %s=%s)" % (render(a[0]), ".".join(x[1] for x in a[1]), render(a[2]))
    if o in ("loop", "mut"):
        r = render(a[0])
        return r if r[-1] in "~'" else r + ("~" if o == "loop" else "'")
    if o in ("cond", "any"):
        return o
    if o in ("next", "idx"):
        return o + "(" + render(a[0]) + ")"
    if o == "ite":
        return "{" + "|".join(sorted((render(a[1]), render(a[2])))) + "}"
    if o == "phi":
        return "phi{" + " | ".join(sorted(render(x) for x in a[0])) + "}"
    if o == "item":
        return "item(" + render(a[0]) + ")"
    if o == "ptr":
        return "&mut(%s)" % "".join("." + p[1] for p in a[1])
    return "%s(%s)" % (o, ", ".join(render(x) if isinstance(x, T) else str(x) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, (tuple, frozenset)):
                st.extend(z for z in y if isinstance(z, T))


def ptrs(t):
    if t._ptrs is None:
        t._ptrs = tuple(x for x in subterms(t) if x.op == "ptr")
    return t._ptrs


BOT = T("bot")
UNIT = T("const", "()", "()")
EMPTY = T("empty")
TRUE = T("const", "true", "bool")
FALSE = T("const", "false", "bool")

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"

# Calls whose result carries exactly the information of their first argument.
TRANSPARENT = {
    "core::clone::Clone::clone", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
    "alloc::borrow::ToOwned::to_owned", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
    "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
    "core::convert::Into::into", "core::convert::From::from", "alloc::string::ToString::to_string",
    "core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref",
    "core::option::Option::as_deref_mut", "core::option::Option::cloned", "core::option::Option::copied",
    "core::result::Result::as_ref", "core::result::Result::as_mut", "core::result::Result::as_deref",
    "core::iter::traits::collect::IntoIterator::into_iter", "core::future::into_future::IntoFuture::into_future",
    "alloc::boxed::Box::new", "alloc::boxed::Box::pin", "core::pin::Pin::new", "core::pin::Pin::new_unchecked",
    "core::pin::Pin::as_mut", "alloc::string::String::as_str", "core::slice::iter", "core::slice::iter_mut",
    "core::slice::impl::iter", "alloc::sync::Arc::new", "alloc::vec::Vec::as_slice", "alloc::str::to_owned",
    "alloc::slice::to_vec", "alloc::slice::to_owned", "core::iter::traits::iterator::Iterator::cloned",
    "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::by_ref",
    "core::pin::Pin::get_mut", "core::mem::drop_in_place_", "std::path::Path::to_path_buf", "smallstr::string::SmallString::as_str",
}


ITER = "core::iter::traits::iterator::Iterator::"
ADAPTORS = {"map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "chain", "zip", "inspect"}
CONTAINERS = ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::", "std::collections::", "hashbrown::",
              "indexmap::", "smallvec::", "smallstr::", "json_syntax::object::Object")
ENTRY = {"entry", "key", "get", "get_mut", "into_mut", "insert", "insert_entry", "or_insert", "or_insert_with", "or_insert_with_key", "or_default"}
GROW = {"push": "push", "push_back": "push", "push_str": "push", "insert": "insert"}


def is_container(p):
    return p.startswith(CONTAINERS)


def empty_ctor(key):
    i = key.rfind("::")
    return key[i + 2:] in ("new", "with_capacity", "default") and is_container(key[:i] if not key.startswith("<") else re.sub(r"^<([^ ]*) as core::default::Default>$", r"\1", key[:i]))


def is_transparent(k):
    if k in TRANSPARENT:
        return True
    return False


class Val(tuple):
    """Guarded set of terms: tuple of (cond, T)."""
    __slots__ = ()


def one(t):
    return Val(((1, t),))


class Event:
    __slots__ = ("kind", "fn", "key", "tkey", "args", "cond", "line", "data", "res", "stack", "order", "macro", "state", "loops")

    def __init__(self, kind, fn, cond, line, **kw):
        self.kind, self.fn, self.cond, self.line = kind, fn, cond, line
        self.key = kw.get("key")
        self.tkey = kw.get("tkey")
        self.args = kw.get("args")
        self.data = kw.get("data")
        self.res = kw.get("res")
        self.stack = kw.get("stack")
        self.order = kw.get("order")
        self.macro = kw.get("macro")
        self.state = None
        self.loops = ()

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.kind, self.key or self.data, self.fn, self.line)


class CFG:
    """Per-function structure: RPO, back edges, loops, liveness."""

    def __init__(self, fn):
        self.errx = {}
        self.fn = fn
        B = fn["blocks"]
        n = len(B)
        self.succ = [None] * n
        for i, b in enumerate(B):
            t = b["t"]
            k = t[0]
            if b.get("cl"):
                s = []
            elif k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == "call":
                s = [t[4]] if t[4] >= 0 else []
            elif k == "drop":
                s = [t[2]]
            elif k == "assert":
                s = [t[4]]
            elif k == "yield":
                s = [t[2]]
            else:
                s = []
            self.succ[i] = s
        # RPO and back edges (iterative DFS)
        color = [0] * n
        order = []
        self.back = set()
        st = [(0, iter(self.succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(self.succ[v])))
                    break
                elif color[v] == 1:
                    self.back.add((u, v))
            else:
                color[u] = 2
                order.append(u)
                st.pop()
        self.rpo = order[::-1]
        self.pred = [[] for _ in range(n)]
        for u in self.rpo:
            for v in set(self.succ[u]):
                self.pred[v].append(u)
        self.loops = {}
        for (u, h) in self.back:
            body = self.loops.setdefault(h, {h})
            stck = [u]
            while stck:
                x = stck.pop()
                if x in body:
                    continue
                body.add(x)
                stck.extend(self.pred[x])
        self._exits()
        self._live()

    def _exits(self):
        """Natural exit of each loop (the edge leaving it from the first branch
        after its header) and a block order in which every loop body comes
        before the code that follows the loop."""
        B = self.fn["blocks"]
        self.nexit = {}
        for h, body in self.loops.items():
            x, seen = h, set()
            while x not in seen:
                seen.add(x)
                ss = self.succ[x]
                out = [y for y in ss if y not in body]
                if B[x]["t"][0] == "switch":
                    real = [y for y in out if B[y]["t"][0] not in ("unreach", "unreachable", "other")]
                    if len(set(real)) >= 1 and len(ss) > len(out):
                        self.nexit[h] = real[0]
                    break
                if len(ss) != 1 or ss[0] not in body:
                    break
                x = ss[0]
        extra = {}
        for (u, h) in self.back:
            if h in self.nexit:
                extra.setdefault(u, []).append(self.nexit[h])
        fin, order, bad = {}, [], False
        for r in self.rpo:
            if r in fin:
                continue
            fin[r] = 1
            st = [(r, iter([v for v in self.succ[r] if (r, v) not in self.back] + extra.get(r, [])))]
            while st:
                u, it = st[-1]
                for v in it:
                    f = fin.get(v)
                    if f is None:
                        fin[v] = 1
                        st.append((v, iter([w for w in self.succ[v] if (v, w) not in self.back] + extra.get(v, []))))
                        break
                    if f == 1:
                        bad = True
                else:
                    fin[u] = 2
                    order.append(u)
                    st.pop()
        if bad:
            self.nexit = {}
        else:
            self.rpo = order[::-1]
        self.inloops = {}
        for h, body in self.loops.items():
            for b in body:
                self.inloops.setdefault(b, []).append(h)

    def err_exit(self, b):
        """Does the path from `b` do nothing but return an error?"""
        r = self.errx.get(b)
        if r is None:
            r, seen, x = False, set(), b
            while x not in seen and len(seen) < 16:
                seen.add(x)
                blk = self.fn["blocks"][x]
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("adt") == RESULT and s[2][1].get("v") == "Err":
                        r = True
                t = blk["t"]
                if t[0] == "call" and "k" in t[1] and t[4] >= 0:
                    if t[1]["k"]["fn"].endswith("from_residual"):
                        r = True
                    elif not r and not is_transparent(t[1]["k"]["fn"]):
                        break
                    x = t[4]
                elif t[0] == "goto":
                    x = t[1]
                elif t[0] == "drop":
                    x = t[2]
                elif t[0] == "ret":
                    break
                else:
                    r = r and t[0] == "switch"
                    break
            self.errx[b] = r
        return r

    def _uses(self):
        B = self.fn["blocks"]
        use = [set() for _ in B]
        dfn = [set() for _ in B]
        self.mutref = set()

        def op(u, d, o):
            if "l" in o:
                pl(u, d, o)

        def pl(u, d, p):
            if p["l"] not in d:
                u.add(p["l"])
            for e in p.get("p", ()):
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        for i in self.rpo:
            b = B[i]
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                k = r[0]
                if k in ("use", "repeat"):
                    op(u, d, r[1])
                elif k == "ref":
                    pl(u, d, r[2])
                    if r[1] == "mut" and not any(e[0] == "d" for e in r[2].get("p", ())):
                        self.mutref.add(r[2]["l"])
                elif k in ("raw", "discr"):
                    pl(u, d, r[1])
                    if k == "raw":
                        self.mutref.add(r[1]["l"])
                elif k == "cast":
                    op(u, d, r[2])
                elif k == "bin":
                    op(u, d, r[2]); op(u, d, r[3])
                elif k == "un":
                    op(u, d, r[2])
                elif k == "agg":
                    for o in r[2]:
                        op(u, d, o)
                if s[1].get("p"):
                    pl(u, d, s[1])
                else:
                    d.add(s[1]["l"])
            t = b["t"]
            if t[0] == "switch" or t[0] == "assert":
                op(u, d, t[1])
            elif t[0] == "call":
                op(u, d, t[1])
                for o in t[2]:
                    op(u, d, o)
                if t[3].get("p"):
                    pl(u, d, t[3])
                else:
                    d.add(t[3]["l"])
            elif t[0] == "yield":
                op(u, d, t[1])
                d.add(t[3]["l"])
        return use, dfn

    def _live(self):
        use, dfn = self._uses()
        live = [set() for _ in self.fn["blocks"]]
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                out = set()
                for s in self.succ[i]:
                    out |= live[s]
                if self.fn["blocks"][i]["t"][0] == "ret":
                    out.add(0)
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live


_cfgs = {}


def cfg_of(fn):
    c = _cfgs.get(fn["ukey"])
    if c is None or c.fn is not fn:
        c = _cfgs[fn["ukey"]] = CFG(fn)
    return c


JVALUE = "json_syntax::Value"
JKIND = {"null": "Null", "boolean": "Boolean", "number": "Number", "string": "String", "str": "String",
         "array": "Array", "object": "Object"}


class Analysis:
    CAP = 10
    MAXDEPTH = 9
    told = {}
    apart = False           # calls told apart by every choice among their arguments

    def __init__(self, facts, inline=None, baseline=None, small=14, no_inline=(), inl=None):
        self.F = facts
        self.inl = inl
        self.M = MDD()
        self.events = []
        self.inline_extra = inline or (lambda k: False)
        self.baseline = baseline
        self.small = small
        self.no_inline = no_inline
        self.frames = 0
        self.site = {}
        self.stack = []
        self.order = 0
        self.unloop_memo = {}
        self.ctag_memo = {}
        self.flat_memo = {}
        self.gempty = {}        # loop -> condition under which its collection has no elements
        self.frame_loops = []
        self.cont = {}          # loop -> condition of an iteration that is not cut short by an error
        self.iters = 0
        self.inlined = set()
        self.reached = set()    # blocks of the function itself and of what it calls

    # ---- atoms ---------------------------------------------------------
    def variants(self, adt):
        a = self.F.adts.get(adt)
        if a is None:
            std = {OPTION: ("None", "Some"), RESULT: ("Ok", "Err"), CF: ("Continue", "Break"), POLL: ("Ready", "Pending"),
                   "core::cmp::Ordering": ("Less", "Equal", "Greater")}
            return std.get(adt)
        return tuple(v["name"] for v in a["variants"])

    def discr_map(self, adt):
        a = self.F.adts.get(adt)
        if a is None:
            vs = self.variants(adt)
            if vs is None:
                return None
            if adt == "core::cmp::Ordering":
                return {-1: "Less", 0: "Equal", 1: "Greater", 255: "Less"}
            return {i: v for i, v in enumerate(vs)}
        m = {}
        for v in a["variants"]:
            d = int(v["discr"])
            m[d] = v["name"]
            if adt == "core::cmp::Ordering" and v["name"] == "Less":
                m[255] = m[-1] = "Less"
        return m

    def is_(self, t, adt, variant):
        """MDD for `t` being the given variant of `adt`."""
        M = self.M
        o = t.op
        if o == "agg" and t.a[0] == adt:
            return 1 if t.a[1] == variant else 0
        if o == "bot":
            return 0
        if o == "upd":
            return self.is_(t.a[0], adt, variant)
        if o == "branch":
            if adt == CF:
                inner = t.a[1]
                if inner == OPTION:
                    return self.is_(t.a[0], OPTION, "Some" if variant == "Continue" else "None")
                return self.is_(t.a[0], RESULT, "Ok" if variant == "Continue" else "Err")
        if o == "poll":
            return 1 if variant == "Ready" else 0
        if o == "entry" and variant in ("Occupied", "Vacant"):
            return self.is_(t.a[3], OPTION, "Some" if variant == "Occupied" else "None")
        if o == "call" and adt == OPTION and len(t.a[1]) == 2 and t.a[0].endswith("Map::get"):
            # a map holds the key just inserted
            m = t.a[1][0]
            while m.op == "grow" and m.a[1] == "insert":
                x = m.a[2]
                if x.op == "agg" and x.a[0] == "tuple" and x.a[3][0] is t.a[1][1]:
                    return 1 if variant == "Some" else 0
                m = m.a[0]
        if o == "ite" :
            c, a, b = t.a[:3]
            return M.disj(M.conj(c, self.is_(a, adt, variant)), M.conj(M.neg(c), self.is_(b, adt, variant)))
        dom = self.variants(adt)
        if dom is None:
            v = M.var(T("isv", t, adt, variant), ("F", "T"))
            return M.lit(v, ("T",))
        if variant not in dom:
            return 0
        if len(dom) == 1:
            return 1
        v = M.var(T("is", t, adt), dom)
        return M.lit(v, (variant,))

    def truth(self, t):
        """MDD for a Boolean term."""
        M = self.M
        if t is TRUE:
            return 1
        if t is FALSE or t is BOT:
            return 0
        if t.op == "cond":
            return t.a[0]
        if t.op == "not":
            return M.neg(self.truth(t.a[0]))
        if t.op == "ite":
            return M.disj(M.conj(t.a[0], self.truth(t.a[1])), M.conj(M.neg(t.a[0]), self.truth(t.a[2])))
        if t.op == "call" and t.a[0] == "is_empty":
            return self.lenc(t.a[1][0], ("0",))
        v = M.var(t, ("F", "T"))
        return M.lit(v, ("T",))

    def lenc(self, x, vals):
        """The number of elements of a collection, as none, one, two or more."""
        M = self.M
        x = root_iter(x)
        e = self.empty(x)
        if x is EMPTY:
            m = 0
        elif "1" in vals and "2+" in vals or not ("1" in vals or "2+" in vals):
            m = 0
        else:
            y = root_iter(self.flat(x))
            m = M.lit(M.var(T("many", y), ("F", "T")), ("T",))
        r = e if "0" in vals else 0
        if "1" in vals:
            r = M.disj(r, M.conj(M.neg(e), M.neg(m)))
        if "2+" in vals and ("1" in vals or m):
            r = M.disj(r, M.neg(e) if "1" in vals else M.conj(M.neg(e), m))
        return r

    def empty(self, x):
        """Does a collection have no elements?"""
        M = self.M
        x = root_iter(x)
        if x is EMPTY:
            return 1
        if x.op == "ite":
            return M.disj(M.conj(x.a[0], self.empty(x.a[1])), M.conj(M.neg(x.a[0]), self.empty(x.a[2])))
        if x.op == "grow" and x.a[1] in ("push", "insert", "set"):
            return 0
        return M.lit(M.var(T("call", "is_empty", (x,)), ("F", "T")), ("T",))

    @staticmethod
    def lenof(t):
        """The collection `t` is the length of."""
        return t.a[1][0] if t.op == "call" and t.a[0] == "builtin::len" else None

    @staticmethod
    def intof(t):
        if t.op == "const":
            m = re.match(r"(-?\d+)(_|$)", t.a[0])
            return int(m.group(1)) if m else None

    def truthv(self, val, path=1):
        M = self.M
        r = 0
        for c, t in val:
            r = M.disj(r, M.conj(c, self.truth(t)))
        return r

    def cond_val(self, c):
        return self.mkcond(c)

    def eq(self, a, b):
        M = self.M
        if a is b:
            return 1
        for x, y in ((a, b), (b, a)):
            if x.op == "ite":
                return M.disj(M.conj(x.a[0], self.eq(x.a[1], y)), M.conj(M.neg(x.a[0]), self.eq(x.a[2], y)))
        if a.op == "const" and b.op == "const":
            return 1 if a.a[0] == b.a[0] else 0
        if a.op == "agg" and b.op != "agg":
            a, b = b, a
        if b.op == "agg" and b.a[0] not in ("tuple", "array", "closure", "coroutine"):
            adt, v, fs, vs = b.a
            if (self.is_enum(adt) and self.variants(adt)) or a.op == "agg" or fs:
                if a.op == "agg" and (a.a[0] != adt or a.a[1] != v):
                    return 0
                r = self.is_(a, adt, v) if a.op != "agg" else 1
                for f, x in zip(fs, vs):
                    r = M.conj(r, self.eq(self.field(a, v if self.is_enum(adt) else None, f, adt), x))
                return r
        if a.op == "const" and a.a[1] == "bool":
            c = self.truth(b)
            return c if a is TRUE else M.neg(c)
        if b.op == "const" and b.a[1] == "bool":
            c = self.truth(a)
            return c if b is TRUE else M.neg(c)
        if a.op == "const" or (b.op != "const" and render(a) > render(b)):
            a, b = b, a
        if b.op == "const" and self.intof(b) in (0, 1) and self.lenof(a) is not None:
            return self.lenc(self.lenof(a), (str(self.intof(b)),))
        v = M.var(T("eq", a, b), ("F", "T"))
        return M.lit(v, ("T",))

    def is_enum(self, adt):
        a = self.F.adts.get(adt)
        return bool(a["enum"]) if a else adt in (OPTION, RESULT, CF, POLL)

    # ---- terms ---------------------------------------------------------
    def field(self, t, variant, name, adt):
        o = t.op
        if o == "agg":
            ad, v, fs, vs = t.a
            if ad == "tuple" or ad == "array" or ad in ("closure", "coroutine"):
                if name in fs:
                    return vs[fs.index(name)]
            elif (ad == adt or adt is None) and (variant is None or v is None or v == variant):
                if name in fs:
                    return vs[fs.index(name)]
                return T("f", t, variant, name, None)
            elif ad == adt or (adt is None and variant is not None and v is not None):
                return BOT
        elif o == "upd":
            base, path, val = t.a
            pv, pn = path[0]
            if pn == name and (pv == variant or pv is None or variant is None):
                if len(path) == 1:
                    return val
                return self.upd(self.field(base, variant, name, adt), path[1:], val)
            return self.field(base, variant, name, adt)
        elif o == "entry" and variant in ("Occupied", "Vacant"):
            return t
        elif o == "call" and t.a[0] == "[T]::get" and variant == "Some" and len(t.a[1]) == 2 and t.a[1][1].op != "agg":
            return self.elem(t.a[1][0], t.a[1][1])
        elif o == "branch" and adt == CF:
            if variant == "Continue":
                return self.field(t.a[0], "Some" if t.a[1] == OPTION else "Ok", "0", t.a[1])
            return T("residual", t.a[0], t.a[1])
        elif o == "poll" and variant == "Ready":
            return t.a[0]
        elif o == "next" and variant == "Some":
            return T("item", t.a[0], t.a[1])
        elif o == "bot":
            return BOT
        elif o == "ite":
            c, a, b = t.a[:3]
            return self.ite(c, self.field(a, variant, name, adt), self.field(b, variant, name, adt))
        elif o == "ptr":
            return T("ptr", t.a[0], t.a[1] + ((variant, name),))
        elif o == "phi":
            return self.phi([self.field(x, variant, name, adt) for x in t.a[0]])
        if name[:2] == "[]":
            return T("item", root_iter(t), int(name[2:] or 0))
        return T("f", t, variant, name, None)

    def ite(self, c, a, b):
        if c == 1 or a is b:
            return a
        if c == 0:
            return b
        if a.op == "agg" or b.op == "agg":
            d = {a: c, b: self.M.neg(c)}
            e = self.eta(d)
            if e is not d:
                if len(e) == 1:
                    return next(iter(e))
                (x, cx), (y, cy) = e.items()
                return T("ite", cx, x, y, self.ctags(cx))
        return T("ite", c, a, b, self.ctags(c))

    def eta_base(self, t):
        """X when t is `V { f: X@V.f, .. }`."""
        if t.op != "agg" or t.a[1] is None or not t.a[3] or t.a[0] in ("closure", "coroutine", "tuple", "array"):
            return None
        x = None
        for f, v in zip(t.a[2], t.a[3]):
            if v.op == "agg" and v.a[1] is None and v.a[2] == ("0",) and v.a[3][0].op == "f" and v.a[3][0].a[1] is None and v.a[3][0].a[2] == "0":
                v = v.a[3][0].a[0]      # a wrapper opened and closed again
            if v.op != "f" or v.a[1] != t.a[1] or v.a[2] != f:
                return None
            if x is None:
                x = v.a[0]
            elif x is not v.a[0]:
                return None
        return x

    def eta(self, d):
        """{term: guard}: a value taken apart and put together again is the value."""
        for t in list(d):
            x = self.eta_base(t)
            if x is None:
                continue
            M = self.M
            adt, v = t.a[0], t.a[1]
            dom = self.variants(adt)
            if dom is None or len(dom) < 2 or x.op in ("agg", "bot", "upd", "ite", "branch", "poll"):
                continue
            c = d[t]
            lit = self.is_(x, adt, v)
            if not M.implies(c, lit):
                continue
            var = M.nodes[lit][0]
            c1 = M.restrict(c, {var: v})
            u = 0
            for g in d.values():
                u = M.disj(u, g)
            c1 = M.conj(c1, u)
            ok = True
            parts = [t]
            for w in dom:
                if w == v:
                    continue
                cw = M.conj(c1, self.is_(x, adt, w))
                if cw == 0:
                    continue
                # what the value is when X is another variant
                for s, g in d.items():
                    if s is not x and (s.op != "agg" or s.a[0] != adt or s.a[1] != w or (s.a[3] and self.eta_base(s) is not x)):
                        if M.conj(g, cw) != 0:
                            ok = False
                            break
                if not ok:
                    break
            if not ok:
                # only where X is that variant
                n = {s: g for s, g in d.items() if s is not t}
                n[x] = M.disj(n[x], c) if x in n else c
                return self.eta(n)
            n = {}
            nc = M.neg(c1)
            for s, g in d.items():
                g = M.conj(g, nc) if s is not x else g
                if g and s is not t:
                    n[s] = g
            n[x] = M.disj(n[x], c1) if x in n else c1
            return self.eta(n)
        return d

    def phi(self, ts):
        s = set()
        for t in ts:
            if t.op == "phi":
                s |= t.a[0]
            elif t is not BOT:
                s.add(t)
        if not s:
            return BOT
        if len(s) == 1:
            return next(iter(s))
        return T("phi", frozenset(s))

    def upd(self, base, path, val):
        if not path:
            return val
        if base.op == "agg" and len(path) >= 1:
            ad, v, fs, vs = base.a
            pv, pn = path[0]
            if pn in fs and (pv is None or pv == v):
                i = fs.index(pn)
                nv = self.upd(vs[i], path[1:], val)
                return T("agg", ad, v, fs, vs[:i] + (nv,) + vs[i + 1:])
        if base.op == "upd":
            # keep chains of independent updates sorted: order of writes to
            # different fields is not observable
            bp = tuple(x[1] for x in base.a[1])
            np_ = tuple(x[1] for x in path)
            if bp[:len(np_)] == np_:
                return self.upd(base.a[0], path, val)
            if np_[:len(bp)] != bp and np_ < bp:
                return T("upd", self.upd(base.a[0], path, val), base.a[1], base.a[2])
        return T("upd", base, path, val)

    # ---- values ----------------------------------------------------------
    def norm(self, alts, cap=None):
        """Merge equal terms, drop impossible ones, cap the number."""
        M = self.M
        d = {}
        for c, t in alts:
            if c == 0:
                continue
            if t in d:
                d[t] = M.disj(d[t], c)
            else:
                d[t] = c
        cap = cap or self.CAP
        if len(d) > 1 and BOT in d:
            del d[BOT]
        d = self.eta(d)
        if len(d) == 1:
            t = next(iter(d))
            return one(t)
        if not d:
            return one(BOT)
        if any(t.op == "upd" for t in d):
            d = self.merge_upd(d)
            if len(d) == 1:
                return one(next(iter(d)))
        if all(t.op in ("cond",) or t is TRUE or t is FALSE for t in d):
            # Boolean: fold into one condition
            r = 0
            for t, c in d.items():
                r = M.disj(r, M.conj(c, self.truth(t)))
            # only valid under the union of guards
            u = 0
            for c in d.values():
                u = M.disj(u, c)
            return self.mkcond(M.simplify(r, u))
        if len(d) > cap:
            return one(self.chain([(c, t) for t, c in d.items()]))
        return Val(tuple((c, t) for t, c in d.items()))

    def chain(self, alts):
        """One term choosing between guarded alternatives."""
        r = alts[-1][1]
        for c, t in reversed(alts[:-1]):
            r = self.ite(c, t, r)
        return r

    def gsingle(self, val, cond=1):
        """Compress a guarded set to one term, keeping the guards."""
        if len(val) == 1:
            return val[0][1]
        alts = [(c, t) for c, t in val if self.M.conj(c, cond) != 0]
        if not alts:
            return BOT
        v = self.norm(alts)
        return self.chain(list(v))

    def explode(self, val, cap=None):
        """Alternatives of a guarded choice term as guarded alternatives."""
        if not any(t.op == "ite" for _, t in val):
            return val
        M = self.M
        out, todo = [], list(val)
        while todo:
            c, t = todo.pop()
            if c == 0:
                continue
            if t.op == "ite":
                todo.append((M.conj(c, M.neg(t.a[0])), t.a[2]))
                todo.append((M.conj(c, t.a[0]), t.a[1]))
            else:
                out.append((c, t))
        return self.norm(out, cap)

    def lift(self, t):
        """A value with a choice among its parts as a choice among values."""
        if t.op == "agg" and t.a[0] not in ("closure", "coroutine", "array"):
            for i, x in enumerate(t.a[3]):
                x = self.lift(x)
                if x.op == "ite":
                    w = lambda y: self.lift(T("agg", t.a[0], t.a[1], t.a[2], t.a[3][:i] + (y,) + t.a[3][i + 1:]))
                    return T("ite", x.a[0], w(x.a[1]), w(x.a[2]), *x.a[3:])
        return t

    def requant(self, t, c, lo, tag, old=None):
        """Choices inside a value leaving a loop: some iteration made them."""
        if not has_ite(t):
            return t
        o, a = t.op, t.a
        if o == "ite":
            if not any(x.op == "ite" and self.dep(x.a[0], lo, tag) for x in subterms(t)):
                return t
            M = self.M
            alts, used, dflt = [], 0, None
            vals = sorted(self.explode(Val(((c, t),)), 400) , key=lambda x: render(x[1]))
            if old is None or all(x is not old for _, x in vals):
                dflt = vals.pop()
            for g, x in vals:
                if x is old:
                    dflt = (g, x)
                    continue
                q = M.conj(self.quant(M.conj(c, g), lo, tag), M.neg(used))
                if q:
                    alts.append((q, self.requant(x, M.conj(c, g), lo, tag)))
                    used = M.disj(used, q)
            if used != 1:
                alts.append((M.neg(used), self.requant(dflt[1], M.conj(c, dflt[0]), lo, tag)))
            return self.chain(alts)
        if o == "upd":
            f = a[0]
            for q in a[1]:
                f = self.field(f, q[0], q[1], None)
            return self.upd(self.requant(a[0], c, lo, tag), a[1], self.requant(a[2], c, lo, tag, f))
        if o == "agg":
            return T("agg", a[0], a[1], a[2], tuple(self.requant(x, c, lo, tag) for x in a[3]))
        if o == "grow":
            return T(o, self.requant(a[0], c, lo, tag), a[1], self.requant(a[2], c, lo, tag))
        if o in ("mut", "loop"):
            return T(o, self.requant(a[0], c, lo, tag), *a[1:])
        return t

    def merge_upd(self, d):
        """Alternatives updating the same value differently: one value whose
        fields are guarded choices."""
        groups = {}
        for t, c in d.items():
            b, ups = t, {}
            while b.op == "upd":
                ups.setdefault(b.a[1], b.a[2])
                b = b.a[0]
            groups.setdefault(b, []).append((c, t, ups))
        if len(groups) == len(d):
            return d
        out = {}
        for b, ms in groups.items():
            if len(ms) == 1:
                out[ms[0][1]] = ms[0][0]
                continue
            paths = {}
            u = 0
            for c, t, ups in ms:
                u = self.M.disj(u, c)
                for p in ups:
                    paths[p] = 1
            names = {tuple(x[1] for x in p) for p in paths}
            paths = [p for p in paths if not any(tuple(x[1] for x in p)[:i] in names for i in range(1, len(p)))]
            r = b
            for p in sorted(paths, key=str):
                alts = {}
                for c, t, ups in ms:
                    x = t
                    for q in p:
                        x = self.field(x, q[0], q[1], q[2] if len(q) > 2 else None)
                    alts[x] = self.M.disj(alts[x], c) if x in alts else c
                v = self.norm([(c, x) for x, c in alts.items()])
                r = self.upd(r, p, self.chain(list(v)))
            out[r] = self.M.disj(out[r], u) if r in out else u
        return out

    def map1(self, val, f):
        if len(val) == 1:
            return Val(((val[0][0], f(val[0][1])),))
        return self.norm([(c, f(t)) for c, t in val])

    def single(self, val, cond=1):
        """Compress a guarded set to one term under `cond`, forgetting the
        guards (what names a value)."""
        if len(val) == 1:
            return self.flat(val[0][1])
        ts = [self.flat(t) for c, t in val if self.M.conj(c, cond) != 0]
        return self.phi(ts)

    def flat(self, t):
        """A term with its guarded choices replaced by plain sets."""
        if not has_ite(t):
            return t
        r = self.flat_memo.get(t)
        if r is not None:
            return r
        o, a = t.op, t.a
        if o == "ite":
            r = self.phi([self.flat(a[1]), self.flat(a[2])])
        elif o == "upd":
            r = self.upd(self.flat(a[0]), a[1], self.flat(a[2]))
        elif o == "phi":
            r = self.phi([self.flat(x) for x in a[0]])
        elif o == "agg":
            r = T("agg", a[0], a[1], a[2], tuple(self.flat(x) for x in a[3])) if a[0] not in ("closure", "coroutine") else t
        elif o in ("loop", "mut"):
            r = T(o, self.flat(a[0]), *a[1:])
        elif o == "grow":
            r = T(o, self.flat(a[0]), a[1], self.flat(a[2]))
        else:
            r = t
        self.flat_memo[t] = r
        return r

    def restrict(self, val, cond):
        if len(val) == 1:
            return val
        r = [(c, t) for c, t in val if self.M.conj(c, cond) != 0]
        if len(r) == 1:
            return one(r[0][1])
        return Val(tuple(r)) if r else one(BOT)

    # ---- driver ---------------------------------------------------------------
    def run(self, key, args=None, cond=1):
        fn = self.F.fns[key]
        st = {}
        if args is None:
            args = []
            for i in range(1, fn["argc"] + 1):
                args.append(one(T("arg", i)))
        ret, stt = self.eval_fn(fn, args, cond, st, top=True)
        # async fn: the result is a coroutine; analyse its body as well
        if len(ret) == 1 and ret[0][1].op == "agg" and ret[0][1].a[0] in ("coroutine",):
            ret, stt = self.await_term(ret[0][1], cond, stt)
        self.ret, self.final_state = ret, stt
        return ret

    def await_term(self, t, cond, st):
        key = t.a[1]
        fn = self.F.fns.get(key)
        if fn is None:
            return one(T("await", t)), st
        return self.eval_fn(fn, [one(t), one(T("cx",))], cond, st)

    def eval_fn(self, fn, args, cond0, st0, top=False):
        """Analyse `fn` with the given arguments; returns (Val, store)."""
        M = self.M
        cfg = cfg_of(fn)
        fid = self.frames
        self.frames += 1
        self.stack.append(fn["key"])
        B = fn["blocks"]
        state_in = {}
        cond_in = {}
        edges = {}          # block -> list of (cond, state)
        latch = {}          # natural exit block -> {header: [(cond, state)]}
        hinfo = {}          # header -> (iteration counter, entry condition)
        st = dict(st0)
        for i, a in enumerate(args):
            l = i + 1
            ty = fn["locals"][l][1] if l < len(fn["locals"]) else ""
            if top and ty.startswith("&") and "mut " in ty[:12].replace("'", " "):
                cell = ("*", fid, l)
                if cell not in st:
                    st[cell] = a
                a = one(T("ptr", cell, ()))
            st[(fid, l)] = a
        edges[0] = [(cond0, st)]
        rets = []
        self.frame_loops.append(())
        for b in cfg.rpo:
            inc = edges.pop(b, None)
            if not inc:
                continue
            if b in latch or any(len(e) == 3 for e in inc):
                inc = self.close_loops(inc, latch.get(b, {}), hinfo, cfg, fid, b)
            cond, st = self.merge(inc, cfg, fid, b)
            if cond == 0:
                continue
            if len(self.stack) <= 2:
                self.reached.add((fn["key"], b))
            if b in cfg.loops:
                hinfo[b] = (self.iters, cond)
                st = self.widen(fn, cfg, fid, b, st, cond)
                self.ev("loop", fn, cond, B[b]["t"][-2] if B[b]["t"][0] == "call" else 0, data=b)
            blk = B[b]
            self.frame_loops[-1] = tuple((fid, h) for h in cfg.inloops.get(b, ()))
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(fn, fid, s, st, cond)
            t = blk["t"]
            k = t[0]
            outs = []
            if k == "goto":
                outs.append((t[1], cond, st))
            elif k == "drop":
                outs.append((t[2], cond, st))
            elif k == "yield":
                st[(fid, t[3]["l"])] = one(T("cx"))
                outs.append((t[2], cond, st))
            elif k == "assert":
                v = self.truthv(self.operand(fn, fid, t[1], st))
                ok = v if t[2] else M.neg(v)
                self.ev("assert", fn, M.conj(cond, M.neg(ok)), t[5], data=t[3])
                outs.append((t[4], cond, st))
            elif k == "switch":
                self.switch(fn, fid, t, st, cond, outs)
            elif k == "call":
                st, cond2 = self.call(fn, fid, t, st, cond)
                if t[4] >= 0 and cond2:
                    outs.append((t[4], cond2, st))
                elif t[4] < 0:
                    self.ev("diverge", fn, cond, t[5], data=b)
            elif k == "ret":
                rets.append((cond, st))
            for (tgt, c, s) in outs:
                if c == 0:
                    continue
                s = s if len(outs) == 1 else dict(s)
                lh = None
                if (b, tgt) in cfg.back:
                    self.ev("back", fn, c, 0, data=tgt)
                    self.cont[(fid, tgt)] = M.disj(self.cont.get((fid, tgt), 0), c)
                    lh = tgt
                    tgt = cfg.nexit.get(tgt)
                    if tgt is None:
                        self.carried(fn, (fid, lh), c, s)
                        continue
                    latch.setdefault(tgt, {}).setdefault(lh, []).append((c, s))
                    edges.setdefault(tgt, [])
                    continue
                left = [h for h in cfg.inloops.get(b, ()) if tgt not in cfg.loops[h]]
                nat = [h for h in left if cfg.nexit.get(h) == tgt]
                if left and not cfg.err_exit(tgt):
                    for h in left:
                        self.cont[(fid, h)] = M.disj(self.cont.get((fid, h), 0), c)
                if not left:
                    edges.setdefault(tgt, []).append((c, s))
                elif nat:
                    edges.setdefault(tgt, []).append((c, s, tuple(left)))
                else:
                    for h in sorted(left, key=lambda h: -hinfo[h][0]):
                        c, s = self.leave_loop(s, c, (fid, h), hinfo[h][0])
                    edges.setdefault(tgt, []).append((c, s))
        self.stack.pop()
        self.frame_loops.pop()
        if not rets:
            return one(BOT), dict(st0)
        if len(rets) == 1:
            cond, st = rets[0]
        else:
            cond, st = self.merge(rets, None, fid, None)
        ret = st.get((fid, 0), one(UNIT))
        out = {c: v for c, v in st.items() if not (c[0] == fid) or False}
        # cells of this frame may be referenced by the result
        for _, t in ret:
            for p in ptrs(t):
                if p.a[0][0] == fid and p.a[0] in st:
                    out[p.a[0]] = st[p.a[0]]
        self.last_cond = cond
        if top:
            self.top_cond = cond
        return ret, out

    def ev(self, kind, fn, cond, line, **kw):
        if cond == 0:
            return None
        self.order += 1
        e = Event(kind, fn["key"], cond, line, stack=tuple(self.stack), order=self.order, **kw)
        e.loops = tuple(x for l in self.frame_loops for x in l)
        self.events.append(e)
        return e

    def merge(self, inc, cfg, fid, b):
        M = self.M
        if len(inc) == 1:
            c, s = inc[0]
            if cfg is not None:
                live = cfg.live[b]
                for k in [k for k in s if k[0] == fid and k[1] not in live and k[1] not in cfg.mutref]:
                    del s[k]
            return c, s
        cond = 0
        for c, _ in inc:
            cond = M.disj(cond, c)
        keys = {}
        for _, s in inc:
            for k in s:
                keys[k] = 1
        out = {}
        live = cfg.live[b] if cfg is not None else None
        for k in keys:
            if live is not None and k[0] == fid and k[1] not in live and k[1] not in cfg.mutref:
                continue
            first = inc[0][1].get(k)
            if first is not None and all(s.get(k) is first or s.get(k) == first for _, s in inc[1:]):
                out[k] = first
                continue
            alts = []
            for c, s in inc:
                v = s.get(k)
                if v is None and k[0] == "@":
                    v = one(k[1])
                if v is None:
                    continue
                for vc, t in v:
                    alts.append((M.conj(c, vc), t))
            out[k] = self.norm(alts, 400 if (k[0] == fid and k[1] == 0) else None)
        return cond, out

    def widen(self, fn, cfg, fid, h, st, cond):
        body = cfg.loops[h]
        B = fn["blocks"]
        marks = set()

        def mark_place(p, st):
            cell, path = (fid, p["l"]), ()
            var = None
            for e in p.get("p", ()):
                if e[0] == "d":
                    v = st.get(cell)
                    if v is None:
                        return
                    tgt = None
                    for _, t in v:
                        for q in path:
                            t = self.field(t, q[0], q[1], None)
                        if t.op == "ptr":
                            tgt = t
                        elif ("@", strip_outer(t)) in st:
                            tgt = T("ptr", ("@", strip_outer(t)), ())
                    if tgt is not None:
                        cell, path = tgt.a
                    var = None
                elif e[0] == "v":
                    var = e[1]
                elif e[0] == "f":
                    path = path + ((var, e[1]),)
                    var = None
                else:
                    break
            marks.add((cell, path))

        def op_ptr(o, st):
            if "l" in o:
                v = st.get((fid, o["l"]))
                if v:
                    for _, t in v:
                        for q in ptrs(t):
                            marks.add((q.a[0], q.a[1]))
        for b in body:
            for s in B[b]["s"]:
                if s[0] != "=":
                    continue
                mark_place(s[1], st)
                r = s[2]
                if r[0] == "ref" and r[1] == "mut":
                    mark_place(r[2], st)
                elif r[0] == "agg":
                    for o in r[2]:
                        op_ptr(o, st)
                elif r[0] == "use":
                    op_ptr(r[1], st)
            t = B[b]["t"]
            if t[0] == "call":
                mark_place(t[3], st)
                for o in t[2]:
                    op_ptr(o, st)
            elif t[0] == "yield":
                mark_place(t[3], st)
        st = dict(st)
        for cell, path in sorted(marks, key=lambda m: (str(m[0]), len(m[1]))):
            v = st.get(cell)
            if v is None:
                continue
            uid = (fid, h)

            def w(t):
                cur = t
                for q in path:
                    cur = self.field(cur, q[0], q[1], None)
                if cur.op == "loop" and cur.a[1] == uid:
                    return t
                if cur.op == "ptr":
                    return t
                if cur.op == "const" and cur.a[1] in ("()",):
                    return t
                return self.upd(t, path, T("loop", cur, uid, str(cell)))
            st[cell] = self.map1(v, w)
        return st

    def close_loops(self, inc, lat, hinfo, cfg, fid, b):
        """Incoming states of a block that is a loop's natural exit."""
        M = self.M
        out = []
        nat = {}
        for e in inc:
            if len(e) == 2:
                out.append(e)
            else:
                nat.setdefault(e[2], []).append((e[0], e[1]))
        done = set()
        for left, es in nat.items():
            c, st = self.merge(es, None, fid, None)
            for h in sorted(left, key=lambda h: -hinfo[h][0]):
                lo, c0 = hinfo[h]
                tag = (fid, h)
                ls = lat.get(h, [])
                if cfg.nexit.get(h) == b and h not in done:
                    done.add(h)
                    if ls:
                        cl, sl = self.merge(ls, None, fid, None)
                    else:
                        cl, sl = 0, None
                    if sl is not None:
                        self.selections(cfg.fn, tag, cl, sl)
                    c, st = self.finish_loop(tag, lo, c0, c, st, cl, sl)
                else:
                    c, st = self.leave_loop(st, c, tag, lo)
            out.append((c, st))
        for h, ls in lat.items():
            if h not in done:
                # the exit edge itself was never taken
                cl, sl = self.merge(ls, None, fid, None)
                out.append(self.leave_loop(sl, cl, (fid, h), hinfo[h][0]))
        return out

    # -- substitution under loop exits ----------------------------------------
    def ctags(self, c):
        """Tags (loops, iterations) occurring in a condition."""
        r = self.ctag_memo.get(c)
        if r is None:
            r = set()
            for v in self.M.support(c):
                r |= loop_tags(self.M.vars[v][0])
            r = self.ctag_memo[c] = frozenset(r)
        return r

    def subst(self, t, hit, fn, memo):
        """Replace subterms: `hit(tags)` says where to look, `fn(t)` replaces."""
        if not hit(loop_tags(t)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = fn(t)
        if r is not None:
            r = self.subst(r, hit, fn, memo) if r is not t else r
        elif t.op == "cond":
            r = self.mkcond(self.subst_c(t.a[0], hit, fn, memo))
            r = r[0][1]
        elif t.op == "ite":
            r = self.ite(self.subst_c(t.a[0], hit, fn, memo), self.subst(t.a[1], hit, fn, memo), self.subst(t.a[2], hit, fn, memo))
        elif t.op == "any":
            g = self.subst_c(t.a[0], hit, fn, memo)
            r = T("any", g, frozenset(x for x in self.ctags(g) if not bound(x)), t.a[2])
        else:
            na = []
            for x in t.a:
                if isinstance(x, T):
                    na.append(self.subst(x, hit, fn, memo))
                elif isinstance(x, tuple):
                    na.append(tuple(self.subst(y, hit, fn, memo) if isinstance(y, T) else y for y in x))
                elif isinstance(x, frozenset) and t.op == "phi":
                    na.append(frozenset(self.subst(y, hit, fn, memo) for y in x))
                else:
                    na.append(x)
            if t.op == "phi":
                r = self.phi(list(na[0]))
            elif t.op == "upd":
                r = self.upd(na[0], na[1], na[2])
            else:
                r = T(t.op, *na)
        memo[t] = r
        return r

    def subst_c(self, c, hit, fn, memo):
        """The same inside a condition."""
        M = self.M
        if c < 2 or not hit(self.ctags(c)):
            return c
        cm = memo.setdefault("conds", {})

        def go(n):
            if n < 2:
                return n
            r = cm.get(n)
            if r is not None:
                return r
            v, ch = M.nodes[n]
            t, dom = M.vars[v]
            r = 0
            if hit(loop_tags(t)):
                lits = self.subst_atom(t, dom, hit, fn, memo)
            else:
                lits = None
            by = {}
            for i, (lab, k) in enumerate(zip(dom, ch)):
                by.setdefault(k, []).append(i)
            for k, ix in by.items():
                if k == 0:
                    continue
                if lits is None:
                    l = M.lit(v, tuple(dom[i] for i in ix))
                else:
                    l = 0
                    for i in ix:
                        l = M.disj(l, lits[i])
                r = M.disj(r, M.conj(l, go(k)))
            cm[n] = r
            return r
        return go(c)

    def subst_atom(self, t, dom, hit, fn, memo):
        M = self.M
        if t.op == "is":
            x = self.subst(t.a[0], hit, fn, memo)
            return [self.is_(x, t.a[1], l) for l in dom]
        if t.op == "isv":
            r = self.is_(self.subst(t.a[0], hit, fn, memo), t.a[1], t.a[2])
        elif t.op == "eq":
            r = self.eq(self.subst(t.a[0], hit, fn, memo), self.subst(t.a[1], hit, fn, memo))
        elif t.op == "lt":
            r = self.lt_c(self.subst(t.a[0], hit, fn, memo), self.subst(t.a[1], hit, fn, memo))
        else:
            r = self.truth(self.subst(t, hit, fn, memo))
        return [M.neg(r), r]

    def mkcond(self, c):
        if c == 1:
            return one(TRUE)
        if c == 0:
            return one(FALSE)
        return one(T("cond", c, self.ctags(c)))

    def array_item(self, c, is_d):
        """(array, iteration) when a condition is about an item of a written-out array."""
        M = self.M
        for v in M.support(c):
            if not is_d(loop_tags(M.vars[v][0])):
                continue
            for x in subterms(M.vars[v][0]):
                if x.op in ("item", "next") and x.a[0].op == "agg" and x.a[0].a[0] == "array" and 0 < len(x.a[0].a[3]) <= 12 and is_d((("n", x.a[1]),)):
                    return x.a[0], x.a[1]
        return None

    def quant(self, c, lo, tag, approx=False):
        """Exists an iteration: bind the items of the loop that is left."""
        M = self.M

        def is_d(tags):
            return any(x[0] == "n" and (x[1] == tag or (isinstance(x[1], int) and x[1] > lo)) for x in tags)
        if c < 2 or not is_d(self.ctags(c)):
            return c
        arr = self.array_item(c, is_d)
        if arr is not None:
            # some element of a written-out array: one of them
            src, n = arr
            r = 0
            for x in src.a[3]:
                def fn(t, x=x):
                    if t.op == "item" and t.a[1] == n and t.a[0] is src:
                        return x
                    if t.op == "next" and t.a[1] == n and t.a[0] is src:
                        return self.some(x)
                    return None
                r = M.disj(r, self.subst_c(c, lambda tags: any(y[0] == "n" and y[1] == n for y in tags), fn, {}))
            return self.quant(r, lo, tag)
        dv = {}

        def dvar(v):
            r = dv.get(v)
            if r is None:
                r = dv[v] = is_d(loop_tags(M.vars[v][0]))
            return r
        memo = {}

        def go(f, depth):
            if f < 2:
                return f
            r = memo.get(f)
            if r is not None:
                return r
            sup = M.support(f)
            inv = [v for v in sup if not dvar(v)]
            if len(inv) == len(sup):
                r = f
            elif inv and depth < 16:
                v = min(inv)
                dom = M.vars[v][1]
                by = {}
                for lab in dom:
                    by.setdefault(M.restrict(f, {v: lab}), []).append(lab)
                r = 0
                for g, labs in by.items():
                    r = M.disj(r, M.conj(M.lit(v, tuple(labs)), go(g, depth + 1)))
            elif inv:
                r = M.exists(f, dvar)
            else:
                r = self.bind(f, is_d)
            memo[f] = r
            return r
        return go(c, 0)

    def bind(self, g, is_d):
        M = self.M
        none = {}
        for v in M.support(g):
            t, dom = M.vars[v]
            if t.op == "is" and t.a[0].op == "next":
                none[v] = "None"
        if none and M.restrict(g, none) == 1:
            return 1
        if len(none) == 1 and len(M.support(g)) == 1:
            t = M.vars[next(iter(none))][0].a[0]
            if t.a[1] in self.gempty:
                return M.neg(self.gempty[t.a[1]])
            return M.neg(self.truth(T("call", "is_empty", (t.a[0],))))
        tags = sorted((x for x in self.ctags(g) if is_d((x,))), key=lambda x: (isinstance(x[1], tuple), x[1]))
        depth = 0
        for v in M.support(g):
            for x in subterms(M.vars[v][0]):
                if x.op == "any":
                    depth = max(depth, x.a[2])
        ren = {x[1]: -(1 + i + depth) for i, x in enumerate(tags)}

        def fn(t):
            if t.op in ("item", "next", "idx") and t.a[-1] in ren:
                # the source may itself mention bound items
                src = self.subst(t.a[0], is_d, fn, memo)
                return T(t.op, src, ren[t.a[-1]])
            return None
        memo = {}
        g2 = self.subst_c(g, is_d, fn, memo)
        if g2 < 2:
            return g2
        free = frozenset(x for x in self.ctags(g2) if not bound(x))
        r = self.truth(T("any", g2, free, depth + len(tags)))
        # something that holds of an element is in a collection that has one
        for x in sorted({x for v in M.support(g) for x in subterms(M.vars[v][0]) if x.op in ("item", "next") and x.a[-1] in ren
                         and not is_d(loop_tags(x.a[0])) and not any(y.op == "phi" for y in subterms(x.a[0]))}, key=repr):
            n = x.a[-1]
            r = M.conj(r, M.neg(self.gempty[n] if n in self.gempty else self.truth(T("call", "is_empty", (x.a[0],)))))
        return r

    def leave_sub(self, tag):
        def hit(tags):
            return tag in tags

        def fn(t):
            if t.op == "loop" and t.a[1] == tag:
                return t.a[0]
            return None
        return hit, fn, self.unloop_memo.setdefault(tag, {})

    def leave_val(self, v, c, tag, lo):
        """Value carried out of a loop by an edge taken under `c`."""
        M = self.M
        hit, fn, memo = self.leave_sub(tag)
        out = []
        for g, t in v:
            t = self.subst(t, hit, fn, memo)
            g = self.subst_c(g, hit, fn, memo)
            if t.op == "cond":
                t = self.mkcond(self.quant(M.conj(c, t.a[0]), lo, tag) if self.dep(t.a[0], lo, tag) else t.a[0])[0][1]
            if g != 1 and self.dep(g, lo, tag):
                g = self.quant(M.conj(c, g), lo, tag)
            out.append((g, self.requant(t, M.conj(c, g), lo, tag)))
        if len(out) == 1:
            return one(out[0][1])
        return self.norm(self.disjoint(out), 400)

    def dep(self, c, lo, tag):
        return any(x[0] == "n" and (x[1] == tag or (isinstance(x[1], int) and x[1] > lo)) for x in self.ctags(c))

    def touched(self, v, lo, tag):
        for g, t in v:
            if tag in loop_tags(t):
                return True
            if g != 1:
                tg = self.ctags(g)
                if tag in tg or self.dep(g, lo, tag):
                    return True
            if t.op == "cond" and (tag in loop_tags(t) or self.dep(t.a[0], lo, tag)):
                return True
            if has_ite(t) and any(x.op == "ite" and self.dep(x.a[0], lo, tag) for x in subterms(t)):
                return True
        return False

    def leave_loop(self, st, c, tag, lo):
        """State and condition on an edge out of a loop other than its natural
        exit: some iteration took it."""
        hit, fn, memo = self.leave_sub(tag)
        c0, c = c, self.subst_c(c, hit, fn, memo)
        if c == 0 and c0 != 0:
            # what the first iteration finds never takes this edge: a later one does, with what an earlier one left
            def carry(t):
                return T("carried", t.a[0]) if t.op == "loop" and t.a[1] == tag else None
            c = self.subst_c(c0, hit, carry, {})
        for k in list(st):
            if self.touched(st[k], lo, tag):
                st[k] = self.leave_val(st[k], c, tag, lo)
        return self.quant(c, lo, tag), self.rekey(st, tag)

    def selections(self, fn, tag, cl, sl):
        """Variables an iteration replaces depending on how what they hold compares: what they are left with after the
        loop does not show that, so each replacement is an event."""
        M = self.M
        for cell in sorted(sl, key=str):
            if cell[0] == "@" or len(sl[cell]) > 12:
                continue
            for g, t in sl[cell]:
                if t.op in ("loop", "mut") or has_iter(t) or tag not in self.ctags(g):
                    continue
                for v in M.support(g):
                    x = M.vars[v][0]
                    if x.op == "lt" and any(y.op == "loop" and y.a[1] == tag and y.a[2] == str(cell) for y in subterms(x)):
                        self.ev("select", fn, M.conj(cl, g), 0, args=(one(t),))
                        break

    def carried(self, fn, tag, c, st):
        """What an iteration of a loop that only ends by breaking out leaves to the next one."""
        M = self.M
        used = set()

        def uses(t):
            for y in subterms(t):
                if y.op == "loop" and y.a[1] == tag:
                    used.add(y.a[2])
        for v in M.support(c):
            uses(M.vars[v][0])
        for e in self.events:
            for v in M.support(e.cond):
                uses(M.vars[v][0])
            for a in e.args or ():
                for g, t in a if isinstance(a, tuple) else ():
                    uses(t)
        for cell in sorted(st, key=str):
            if cell[0] == "@" or len(st[cell]) > 12 or not (cell[0] == "*" or str(cell) in used):
                continue
            for g, t in st[cell]:
                if t.op not in ("loop", "mut", "grow", "arg", "uninit", "bot", "iter", "ptr"):
                    self.ev("select", fn, M.conj(c, g), 0, args=(one(t),))

    def finish_loop(self, tag, lo, c0, cb, sb, cl, sl):
        """State after a loop: no iteration (cb, sb) or some iteration (cl, sl);
        `c0` is the condition under which the loop was entered."""
        M = self.M
        hit, fn, memo = self.leave_sub(tag)
        cb = self.subst_c(cb, hit, fn, memo)
        cl = self.subst_c(cl, hit, fn, memo)
        gone = M.conj(c0, M.neg(M.disj(cb, cl)))
        post = M.conj(c0, M.neg(self.quant(gone, lo, tag)))
        out = {}
        for k, vb in sb.items():
            if self.touched(vb, lo, tag):
                vb = Val(tuple((self.subst_c(g, hit, fn, memo), self.subst(t, hit, fn, memo)) for g, t in vb))
                if any(self.dep(g, lo, tag) for g, _ in vb):
                    vb = self.leave_val(vb, cb, tag, lo)
            vl = sl.get(k) if sl is not None else None
            if vl is None or vl is vb:
                out[k] = vb
                continue
            if self.touched(vl, lo, tag):
                vl = [(self.subst_c(g, hit, fn, memo), self.subst(t, hit, fn, memo)) for g, t in vl]
            if len(vb) == len(vl) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(vb, vl)):
                out[k] = vb
                continue
            if len(vb) == 1 and self.isbool(vb[0][1]) and all(self.isbool(t) for _, t in vl):
                z = self.truth(vb[0][1])
                r, u = 0, 0
                for g, t in vl:
                    r = M.disj(r, M.conj(g, self.truth(t)))
                def every(f):
                    # an iteration that does not leave the loop: any iteration will do
                    some = M.disj(cl, gone)
                    return some if f and M.conj(some, M.neg(M.disj(f, gone))) == 0 else f
                r1 = self.quant(every(M.conj(cl, M.conj(r, M.neg(z)))), lo, tag)
                r0 = self.quant(every(M.conj(cl, M.conj(M.neg(r), z))), lo, tag)
                out[k] = self.mkcond(M.disj(M.conj(z, M.neg(r0)), M.conj(M.neg(z), r1)))
                continue
            if len(vb) == 1:
                r = self.loop_fields(vb[0][1], vl, c0, cl, lo, tag)
                if r is not None:
                    out[k] = one(r)
                    continue
            vl = self.explode(vl, 400)
            base = {t for _, t in vb}
            new = sorted(((g, t) for g, t in vl if t not in base), key=lambda x: render(x[1]))
            alts = []
            used = 0
            for g, t in new:
                if t.op == "cond" and self.dep(t.a[0], lo, tag):
                    t = self.mkcond(self.quant(M.conj(cl, t.a[0]), lo, tag))[0][1]
                q = self.quant(M.conj(cl, g), lo, tag)
                if M.conj(c0, q) == M.conj(c0, M.neg(used)) and used == 0:
                    pass
                q = M.conj(q, M.neg(used))
                if q:
                    alts.append((q, self.requant(t, M.conj(cl, g), lo, tag)))
                    used = M.disj(used, q)
            for g, t in vb:
                g = M.conj(g, M.neg(used))
                if g:
                    alts.append((g, t))
            out[k] = self.norm(alts, 60)
        if sl is not None:
            for k in sl:
                if k not in out:
                    out[k] = self.leave_val(sl[k], cl, tag, lo) if self.touched(sl[k], lo, tag) else sl[k]
        return post, self.rekey(out, tag)

    def rekey(self, st, tag):
        """What references made in the loop point to, outside of it."""
        hit, fn, memo = self.leave_sub(tag)
        for k in [k for k in st if k[0] == "@" and hit(loop_tags(k[1]))]:
            k2 = ("@", strip_outer(self.subst(k[1], hit, fn, memo)))
            v = st.pop(k)
            st.setdefault(k2, v)
        return st

    def loop_fields(self, b, vl, c0, cl, lo, tag):
        """Fields of `b` written by some iteration, each under its own guard."""
        M = self.M
        fields = {}
        for g, t in vl:
            ups = {}
            while t.op == "upd" and t is not b:
                ups.setdefault(t.a[1], t.a[2])
                t = t.a[0]
            if t is not b:
                return None
            for p, x in ups.items():
                fields.setdefault(p, []).append((g, x))
        if not fields:
            return None
        names = {tuple(x[1] for x in p) for p in fields}
        if any(n[:i] in names for n in names for i in range(1, len(n))):
            return None
        r = b
        for p in sorted(fields, key=str):
            old = b
            for q in p:
                old = self.field(old, q[0], q[1], None)
            alts, used = [], 0
            for g, x in sorted(self.explode(fields[p], 400), key=lambda y: render(y[1])):
                if x is old:
                    continue
                q = M.conj(self.quant(M.conj(cl, g), lo, tag), M.neg(used))
                if q:
                    alts.append((q, self.requant(x, M.conj(cl, g), lo, tag)))
                    used = M.disj(used, q)
            if used != 1:
                alts.append((M.neg(used), old))
            r = self.upd(r, p, self.chain(alts))
        return r

    # ---- places -------------------------------------------------------------
    def load(self, fn, fid, p, st):
        v = st.get((fid, p["l"]))
        if v is None:
            v = one(T("uninit", fn["locals"][p["l"]][0] or "_%d" % p["l"]))
        pr = p.get("p")
        if not pr:
            return v
        alts = []
        for c, t in v:
            alts.extend(self.proj(t, c, pr, st, fid))
        if len(alts) == 1:
            return self.explode(Val(((1, alts[0][1]),)))
        return self.explode(self.norm(alts))

    def proj(self, t, c, pr, st, fid):
        cur = [(c, t)]
        var = None
        for e in pr:
            nxt = []
            for c, t in cur:
                if e[0] == "d":
                    if t.op == "ptr":
                        v = self.read_ptr(t, st)
                        for vc, x in v:
                            cc = self.M.conj(c, vc)
                            if cc:
                                nxt.append((cc, x))
                    elif t.op == "ite" and ptrs(t):
                        todo = list(self.explode(Val(((c, t),))))
                        for c2, t2 in todo:
                            if t2.op == "ptr":
                                for vc, x in self.read_ptr(t2, st):
                                    cc = self.M.conj(c2, vc)
                                    if cc:
                                        nxt.append((cc, x))
                            else:
                                nxt.append((c2, t2))
                    else:
                        x = st.get(("@", strip_outer(t)))
                        if x is not None:
                            nxt += [(self.M.conj(c, vc), y) for vc, y in x if self.M.conj(c, vc)]
                        else:
                            nxt.append((c, t))
                elif e[0] == "v":
                    nxt.append((c, t))
                elif e[0] == "f":
                    if t.op == "ptr":
                        nxt.append((c, T("ptr", t.a[0], t.a[1] + ((var, e[1]),))))
                    else:
                        nxt.append((c, self.field(t, var, e[1], e[2])))
                elif e[0] == "i":
                    iv = st.get((fid, e[1]))
                    ix = self.single(iv) if iv else T("?")
                    nxt.append((c, self.elem(t, ix)))
                elif e[0] == "c":
                    nxt.append((c, T("elem", t, T("const", "%d_usize" % (-e[1] - 1 if e[2] else e[1]), "usize"))))
                else:
                    nxt.append((c, T("sub", t, str(e[1:]))))
            var = e[1] if e[0] == "v" else None
            cur = nxt
        return cur

    def read_ptr(self, t, st):
        cell, path = t.a
        v = st.get(cell)
        if v is None and cell[0] == "@":
            v = one(cell[1])
        if v is None:
            return one(T("f", T("cell", str(cell)), None, ".".join(p[1] for p in path), ""))
        if path:
            def g(x):
                for q in path:
                    x = self.field(x, q[0], q[1], q[2] if len(q) > 2 else None)
                return x
            v = self.map1(v, g)
        return self.explode(v)

    def write_ptr(self, t, val, st, cond):
        cell, path = t.a
        old = st.get(cell)
        if old is None:
            old = one(cell[1] if cell[0] == "@" else T("cell", str(cell)))
        if not path:
            st[cell] = val
            return
        x = self.gsingle(val, cond)
        st[cell] = self.norm([(oc, self.upd(o, path, x)) for oc, o in old])

    def places(self, v):
        """[(cond, pointer)] of a mutable reference, None when one is unknown."""
        out = []
        for c, t in v:
            if t.op == "ptr":
                out.append((c, t))
            elif opaque_ref(t):
                out.append((c, T("ptr", ("@", strip_outer(t)), ())))
            else:
                return None
        return out

    def read_places(self, ps, st):
        if len(ps) == 1:
            return self.read_ptr(ps[0][1], st)
        return self.norm([(self.M.conj(c, vc), x) for c, p in ps for vc, x in self.read_ptr(p, st)])

    def write_places(self, ps, val, st, cond):
        if len(ps) == 1:
            self.write_ptr(ps[0][1], val, st, cond)
            return
        for c, p in ps:
            old = self.read_ptr(p, st)
            nc = self.M.neg(c)
            self.write_ptr(p, self.norm([(self.M.conj(vc, c), x) for vc, x in val] + [(self.M.conj(oc, nc), o) for oc, o in old]), st, cond)

    def lvalues(self, fn, fid, p, st):
        """Guarded list of (cond, cell, path) a place denotes."""
        cur = [(1, (fid, p["l"]), ())]
        var = None
        ty = fn["locals"][p["l"]][1] if p.get("p") else ""
        for e in p.get("p", ()):
            nxt = []
            for c, cell, path in cur:
                if e[0] == "d":
                    mr = is_mutref(ty)
                    v = self.read_ptr(T("ptr", cell, path), st) if cell in st else one(T("?"))
                    hit = False
                    for vc, t in v:
                        if t.op == "ptr":
                            hit = True
                            nxt.append((self.M.conj(c, vc), t.a[0], t.a[1]))
                        elif mr and opaque_ref(t):
                            hit = True
                            nxt.append((self.M.conj(c, vc), ("@", strip_outer(t)), ()))
                    if not hit:
                        nxt.append((c, cell, path))
                elif e[0] == "f":
                    nxt.append((c, cell, path + ((var, e[1]),)))
                elif e[0] == "v":
                    nxt.append((c, cell, path))
                else:
                    nxt.append((c, cell, path + ((None, "[]"),)))
            var = e[1] if e[0] == "v" else None
            ty = proj_type(ty, e)
            cur = nxt
        return cur

    def store(self, fn, fid, p, val, st, cond):
        if not p.get("p"):
            st[(fid, p["l"])] = val
            return
        lv = self.lvalues(fn, fid, p, st)
        for c, cell, path in lv:
            old = st.get(cell)
            if old is None:
                old = one(cell[1] if cell[0] == "@" else T("cell", str(cell)))
            x = self.gsingle(val, cond) if path else None
            if path:
                alts = [(oc, self.upd(o, path, x)) for oc, o in old]
            else:
                alts = list(val)
            if len(lv) > 1:
                nc = self.M.neg(c)
                alts = [(self.M.conj(cc, c), x) for cc, x in alts] + [(self.M.conj(oc, nc), o) for oc, o in old]
            st[cell] = self.norm(alts)

    def operand(self, fn, fid, o, st):
        if "l" in o:
            return self.load(fn, fid, o, st)
        if "k" in o:
            k = o["k"]
            conv = k["fn"] in ("core::convert::Into::into", "core::convert::From::from")
            return one(T("fnitem", k.get("res") or k["fn"], k["fn"], *([tuple(k.get("ta") or [])] if conv else [])))
        txt = o["c"]
        if txt.startswith("const "):
            txt = txt[6:]
        if o["t"] == "bool":
            return one(TRUE if txt == "true" else FALSE)
        if "u" in o:
            return one(T("const", o["u"], o["t"]))
        return one(T("const", txt, o["t"]))

    def assign(self, fn, fid, s, st, cond):
        p, r = s[1], s[2]
        v = self.rvalue(fn, fid, r, st, cond, s)
        if p.get("p"):
            last = [e for e in p["p"] if e[0] == "f"]
            if last and last[-1][2] and last[-1][2] != "upvar":
                lvs = self.lvalues(fn, fid, p, st)
                base = None
                if lvs and lvs[0][1] in st:
                    base = self.read_ptr(T("ptr", lvs[0][1], lvs[0][2][:-1]), st) if lvs[0][2] else st[lvs[0][1]]
                self.ev("write", fn, cond, s[3], key=last[-1][2] + "." + last[-1][1], args=(v,), data=base)
        self.store(fn, fid, p, v, st, cond)

    def rvalue(self, fn, fid, r, st, cond, s):
        M = self.M
        k = r[0]
        if k == "use":
            return self.operand(fn, fid, r[1], st)
        if k == "ref":
            if r[1] == "mut":
                lv = self.lvalues(fn, fid, r[2], st)
                if len(lv) == 1:
                    return one(T("ptr", lv[0][1], lv[0][2]))
                return self.norm([(c, T("ptr", cell, path)) for c, cell, path in lv])
            return self.load(fn, fid, r[2], st)
        if k == "raw":
            return self.load(fn, fid, r[1], st)
        if k == "discr":
            v = self.load(fn, fid, r[1], st)
            return self.map1(v, lambda t: T("discr", t, r[2]))
        if k == "cast":
            return self.operand(fn, fid, r[2], st)
        if k == "un":
            v = self.operand(fn, fid, r[2], st)
            if r[1] == "Not":
                return self.cond_val(M.neg(self.truthv(v))) if self.boolish(v) else self.map1(v, lambda t: T("bnot", t))
            if r[1] == "PtrMetadata":
                return self.map1(v, lambda t: T("call", "builtin::len", (t,)))
            return self.map1(v, lambda t: T("un", r[1], t))
        if k == "bin":
            o = r[1]
            sg = self.gsingle if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else self.single
            a = sg(self.operand(fn, fid, r[2], st), cond)
            b = sg(self.operand(fn, fid, r[3], st), cond)
            if o == "Eq":
                return self.cond_val(self.eq(a, b))
            if o == "Ne":
                return self.cond_val(M.neg(self.eq(a, b)))
            if o == "Gt":
                return self.cond_val(self.lt(b, a))
            if o == "Lt":
                return self.cond_val(self.lt(a, b))
            if o == "Ge":
                return self.cond_val(M.neg(self.lt(a, b)))
            if o == "Le":
                return self.cond_val(M.neg(self.lt(b, a)))
            if o in ("BitAnd", "BitOr", "BitXor") and self.isbool(a) and self.isbool(b):
                x, y = self.truth(a), self.truth(b)
                if o == "BitAnd":
                    return self.cond_val(M.conj(x, y))
                if o == "BitOr":
                    return self.cond_val(M.disj(x, y))
                return self.cond_val(M.disj(M.conj(x, M.neg(y)), M.conj(M.neg(x), y)))
            if o.endswith("WithOverflow"):
                return one(T("agg", "tuple", None, ("0", "1"), (T("bin", o[:-12], a, b), FALSE)))
            return one(T("bin", o, a, b))
        if k == "agg":
            d = r[1]
            ops = [self.gsingle(self.operand(fn, fid, o, st), cond) for o in r[2]]
            a = d["a"]
            if a == "adt":
                adt = d["adt"]
                v = d["v"] if self.is_enum(adt) else None
                if v is None and (adt in self.F.adts) and not self.F.adts[adt]["enum"]:
                    v = None
                elif v is None:
                    v = d["v"]
                    if adt.rsplit("::", 1)[-1] == v:
                        v = None
                t = T("agg", adt, v, tuple(d["fs"][:len(ops)]), tuple(ops))
                if v is not None and adt not in (OPTION, CF, POLL):
                    self.ev("agg", fn, cond, s[3], key=adt + "::" + v, args=tuple(one(o) for o in ops), data=t)
                elif v is None and adt not in (OPTION, RESULT):
                    self.ev("agg", fn, cond, s[3], key=adt, args=tuple(one(o) for o in ops), data=t)
                # keep guarded operands of Option/Result payloads
                if len(r[2]) == 1:
                    ov = self.operand(fn, fid, r[2][0], st)
                    if len(ov) > 1:
                        return self.norm([(c, T("agg", adt, v, tuple(d["fs"][:1]), (x,))) for c, x in ov])
                return one(t)
            if a == "tuple":
                return one(T("agg", "tuple", None, tuple(str(i) for i in range(len(ops))), tuple(ops)))
            if a == "array":
                return one(T("agg", "array", None, tuple(str(i) for i in range(len(ops))), tuple(ops)))
            if a in ("closure", "coroutine"):
                return one(T("agg", a, d["d"], tuple(d["fs"][:len(ops)]), tuple(ops)))
            return one(T("agg", a, None, (), tuple(ops)))
        if k == "repeat":
            return one(T("repeat", self.single(self.operand(fn, fid, r[1], st), cond)))
        return one(T("other", str(r[1:])[:80]))

    def elem(self, t, ix):
        """Element access; walking all indices is walking the collection."""
        if ix.op == "loop" and ix.a[0].op == "const" and ix.a[0].a[0].startswith("0"):
            return T("item", root_iter(t), ix.a[1])
        if ix.op == "item" and ix.a[0].op == "agg" and ix.a[0].a[0].endswith("::Range"):
            lo, hi = ix.a[0].a[3]
            if lo.op == "const" and lo.a[0].startswith("0") and hi.op == "call" and hi.a[0] == "builtin::len" and root_iter(hi.a[1][0]) is root_iter(t):
                return T("item", root_iter(t), ix.a[1])
        return T("elem", t, ix)

    def lt_c(self, a, b):
        return self.lt(a, b)

    def lt(self, a, b):
        M = self.M
        for x, l in ((a, True), (b, False)):
            if x.op == "ite":
                f = (lambda y: self.lt(y, b)) if l else (lambda y: self.lt(a, y))
                return M.disj(M.conj(x.a[0], f(x.a[1])), M.conj(M.neg(x.a[0]), f(x.a[2])))
        if a.op == "loop" and a.a[0].op == "const" and a.a[0].a[0].startswith("0") and b.op == "call" and b.a[0] == "builtin::len":
            return self.is_(T("next", root_iter(b.a[1][0]), a.a[1]), OPTION, "Some")
        if a.op == "const" and b.op == "const":
            try:
                return 1 if int(a.a[0].split("_")[0]) < int(b.a[0].split("_")[0]) else 0
            except ValueError:
                pass
        if self.intof(a) in (0, 1) and self.lenof(b) is not None:
            return self.lenc(self.lenof(b), ("1", "2+") if self.intof(a) == 0 else ("2+",))
        if self.intof(b) in (1, 2) and self.lenof(a) is not None:
            return self.lenc(self.lenof(a), ("0",) if self.intof(b) == 1 else ("0", "1"))
        if self.unsigned(a) and self.intof(a) == 0:
            return M.neg(self.eq(b, a))
        if self.unsigned(b) and self.intof(b) == 1:
            return self.eq(a, T("const", b.a[0].replace("1", "0", 1), b.a[1]))
        return self.truth(T("lt", a, b))

    def unsigned(self, t):
        return t.op == "const" and len(t.a) > 1 and t.a[1] in ("usize", "u8", "u16", "u32", "u64", "u128")

    def isbool(self, t):
        return t is TRUE or t is FALSE or t.op in ("cond", "not")

    def boolish(self, v):
        return True

    def switch(self, fn, fid, t, st, cond, outs):
        M = self.M
        v = self.operand(fn, fid, t[1], st)
        arms = t[3]
        rest = cond
        if t[2] == "bool":
            c = self.truthv(v)
            for val, tgt in arms:
                cc = c if val else M.neg(c)
                outs.append((tgt, M.conj(cond, cc), st))
                rest = M.conj(rest, M.neg(cc))
            outs.append((t[4], rest, st))
            return
        by = {}
        for val, tgt in arms:
            c = 0
            for vc, x in v:
                c = M.disj(c, M.conj(vc, self.swcond(x, val, t[2])))
            outs.append((tgt, M.conj(cond, c), st))
            rest = M.conj(rest, M.neg(c))
        if rest:
            outs.append((t[4], rest, st))

    def swcond(self, x, val, ty="int"):
        if x.op == "discr":
            adt = x.a[1].lstrip("&").replace("mut ", "")
            dm = self.discr_map(adt)
            if dm is not None and val in dm:
                return self.is_(x.a[0], adt, dm[val])
            return self.truth(T("discreq", x.a[0], adt, val))
        if x.op == "const":
            tx = x.a[0].split("_")[0]
            if tx.startswith("'"):
                try:
                    return 1 if ord(eval(tx)) == val else 0
                except Exception:
                    pass
            if tx.lstrip("-").isdigit():
                return 1 if int(tx) == val else 0
        if ty == "char":
            return self.eq(x, T("const", "'%c'" % val if 32 <= val < 127 and val not in (39, 92) else "%d_" % val, ty))
        return self.eq(x, T("const", "%d_%s" % (val, ty), ty))

    # ---- calls ------------------------------------------------------------
    def call(self, fn, fid, t, st, cond):
        M = self.M
        f = t[1]
        args = [self.restrict(self.operand(fn, fid, a, st), cond) for a in t[2]]
        if "k" in f:
            k = f["k"]
            if k["fn"] == "core::convert::TryInto::try_into":
                r = self.conv_key(k, "try_from")
                if r is not None or len(k.get("ta") or []) == 2:
                    k = dict(k, fn="core::convert::TryFrom::try_from", res=r, ta=k["ta"][::-1])
            tkey = k["fn"]
            key = k.get("res") or tkey
        else:
            # call through a value (closure in a local, fn pointer)
            fv = self.operand(fn, fid, f, st)
            tkey = key = "<indirect>"
            k = {"fn": key, "ta": []}
            args = [fv] + args
        e = self.ev("call", fn, cond, t[5], key=key, tkey=tkey, args=tuple(args), data=k, macro=t[6])
        self.last_state = None
        self.assigned = False
        val, st, cond2 = self.apply(fn, fid, key, tkey, k, args, st, cond, t[5])
        if e is not None:
            e.res = val
            if self.assigned and (tkey in ASSIGNS or self.assigned == "call"):
                e.kind = "assign"
            if self.last_state is not None and self.last_state[0] == key:
                e.state = self.last_state[1]
        if t[4] >= 0:
            st = st if st is not None else {}
            self.store(fn, fid, t[3], val, st, cond)
        return st, cond2

    def fresh(self, key):
        n = self.site.get(key, 0) + 1
        self.site[key] = n
        return n

    def deref_val(self, v, st):
        """Read through mutable references, for use inside opaque terms."""
        alts = []
        ch = False
        for c, t in v:
            if t.op == "ptr":
                ch = True
                for vc, x in self.read_ptr(t, st):
                    cc = self.M.conj(c, vc)
                    if cc:
                        alts.append((cc, x))
            else:
                alts.append((c, t))
        return self.norm(alts) if ch else v

    def opaque(self, key, args, st, cond):
        """Unknown call: result term, havoc of what it may write."""
        if key.endswith(("Map::get_mut", "Map::contains_key")):
            name = key.rsplit("::", 1)[0] + "::get"
            if key.endswith("_key"):
                return self.mkcond(self.is_(self.opaque(name, args, st, cond), OPTION, "Some"))[0][1]
        else:
            name = key
        ats = []
        muts = []
        vals = []
        # in a loop the choices of earlier iterations would pile up
        apart = self.apart and not any(self.frame_loops)
        for a in args:
            for _, t in a:
                for p in ptrs(t):
                    muts.append(p)
            d = self.deref_val(a, st)
            vals.append(d)
            guarded = apart or len(ats) == 1 and name.endswith("Map::get") and not any(ptrs(t) for _, t in a)
            ats.append(self.lift(self.gsingle(d, cond)) if guarded else self.single(d, cond))
        self.last_state = (key, tuple(vals))
        ats = [self.deref_agg(t, st) for t in ats]
        for t in ats:
            if has_iter(t):
                self.escape_iters(t, st, cond)
        extra = ()
        if muts and not is_view(key):
            extra = (self.fresh(key),)
            for p in muts:
                v = self.read_ptr(p, st)
                self.write_ptr(p, self.map1(v, lambda x: T("mut", x, key, *extra)), st, cond)
        if name.endswith("str::contains") and len(ats) == 2 and ats[1].op == "agg" and ats[1].a[0] == "array":
            # any of the characters
            c = 0
            for x in ats[1].a[3]:
                c = self.M.disj(c, self.truth(T("call", name, (ats[0], x))))
            return self.mkcond(c)[0][1]
        return self.split_call(name, ats, [any(ptrs(t) for _, t in a) for a in args], extra, cond, apart)

    def split_call(self, name, ats, mut, extra, cond, apart=False):
        """The call's result; one call per alternative of a chosen argument, as if each choice made its own call."""
        alts = [(1, ())]
        for t, m in zip(ats, mut):
            whole = t
            if apart and has_ite(t):
                t, m = self.lift(t), False
            if m or t.op not in ("ite", "cond"):
                alts = [(c, ts + (t,)) for c, ts in alts]
                continue
            if t.op == "cond":
                xs = ((t.a[0], TRUE), (self.M.neg(t.a[0]), FALSE))
            else:
                xs = self.explode(one(t))
            n = [(self.M.conj(c, d), ts + (x,)) for c, ts in alts for d, x in xs]
            n = [(c, ts) for c, ts in n if self.M.conj(c, cond)]
            if not n or len(n) > 4:
                n = [(c, ts + (self.flat(whole),)) for c, ts in alts]
            alts = n
        return self.chain([(c, T("call", name, ts, *extra)) for c, ts in alts])

    def deref_agg(self, t, st):
        if t.op == "ite":
            return T("ite", t.a[0], self.deref_agg(t.a[1], st), self.deref_agg(t.a[2], st), *t.a[3:])
        if t.op == "agg" and ptrs(t) and t.a[0] not in ("closure", "coroutine"):
            vs = tuple(self.single(self.deref_val(one(x), st)) for x in t.a[3])
            return T("agg", t.a[0], t.a[1], t.a[2], vs)
        return t

    def want_inline(self, key):
        if len(self.stack) > self.MAXDEPTH or key in self.stack:
            return False
        fn = self.F.fns.get(key)
        if fn is None or key in self.no_inline:
            return False
        if "{closure" in key:
            return True
        if self.inline_extra(key):
            return True
        if self.baseline is not None and key not in self.baseline and not fn.get("derived"):
            return True
        if self.inl is not None:
            return key in self.inl      # decided on the reference, so that both sides agree
        if fn.get("derived"):
            return False
        nb = sum(1 for b in fn["blocks"] if not b.get("cl"))
        if nb <= self.small and not cfg_of(fn).loops and not fn.get("async"):
            return True
        return False

    def apply(self, fn, fid, key, tkey, k, args, st, cond, line):
        """Returns (Val, store, cond)."""
        M = self.M
        nm = tkey
        # normalise impl'd std methods to their trait method
        self.cut = 0
        r = self.intrinsic(fn, fid, key, tkey, k, args, st, cond, line)
        if r is not None:
            if self.cut and tkey.startswith(("core::option::Option::", "core::result::Result::", "bool::then")):
                return r[0], r[1], M.conj(r[2], M.neg(self.cut)) or r[2]
            return r
        if self.want_inline(key):
            v, st2 = self.eval_fn(self.F.fns[key], args, cond, st)
            c2 = self.last_cond if v[0][1] is not BOT else 0
            return v, st2, (c2 or cond)
        # closures handed to an unknown callee: analyse their bodies here
        for i, a in enumerate(args):
            for c, t in a:
                if t.op == "agg" and t.a[0] in ("closure",):
                    self.closure_events(key, t, args, i, st, M.conj(cond, c))
        res = self.opaque(key, args, st, cond)
        return one(res), st, cond

    def closure_events(self, key, t, args, idx, st, cond):
        cf = self.F.fns.get(t.a[1])
        if cf is None or t.a[1] in self.stack or len(self.stack) > self.MAXDEPTH:
            return None
        params = []
        n = cf["argc"] - 1
        src = None
        if idx > 0:
            src = self.single(self.deref_val(args[0], st), cond)
        for j in range(n):
            if src is not None and j == n - 1:
                params.append(one(T("item", root_iter(src), 0)))
            else:
                params.append(one(T("cparam", key, j)))
        v = self.call_closure(t, params, st, cond)
        if v is not None:
            self.ev("cret", {"key": self.stack[-1]}, cond, 0, key=key, args=(one(T("item", root_iter(src), 0)) if src is not None else one(UNIT), v))
        return v

    def call_closure(self, t, params, st, cond):
        """Inline closure `t`; `params` are the (untupled) arguments."""
        cf = self.F.fns.get(t.a[1]) if t.op == "agg" else None
        if t.op == "fnitem":
            return None
        if cf is None or t.a[1] in self.stack or len(self.stack) > self.MAXDEPTH:
            return None
        self.last_cond = cond
        v, st2 = self.eval_fn(cf, [one(t)] + params, cond, st)
        # propagate effects on captured cells
        for c_, v_ in st2.items():
            st[c_] = v_
        self.cut = 0 if v[0][1] is BOT else self.M.conj(cond, self.M.neg(self.last_cond))
        return v

    def apply_fn(self, fterm, params, st, cond):
        """Value of calling closure/fn item `fterm`."""
        if fterm.op == "agg" and fterm.a[0] == "closure":
            v = self.call_closure(fterm, params, st, cond)
            if v is not None:
                return v
        if fterm.op == "fnitem":
            k2, tk2 = fterm.a[:2]
            if len(fterm.a) > 2:
                return self.call_conv(k2, tk2, {"fn": tk2, "res": k2, "ta": list(fterm.a[2])}, params, st, cond)
            if k2.endswith("::{ctor}"):
                adt, v = k2[:-8].rsplit("::", 1)
                if k2[:-8] in self.F.adts:
                    adt, v = k2[:-8], None
                if adt in self.F.adts or adt in (OPTION, RESULT):
                    return one(T("agg", adt, v, tuple(str(i) for i in range(len(params))), tuple(self.gsingle(p) for p in params)))
            if is_transparent(tk2) or is_transparent(k2):
                return params[0]
            r = self.intrinsic({"key": self.stack[-1]}, None, k2, tk2, {"fn": tk2, "res": k2, "ta": []}, list(params), st, cond, 0) if k2 not in self.F.fns else None
            if r is not None:
                if r[1] is not None and r[1] is not st:
                    st.update(r[1])
                return r[0]
            self.ev("call", {"key": self.stack[-1]}, cond, 0, key=k2, tkey=tk2, args=tuple(params), data={"fn": tk2, "ta": []})
            if self.want_inline(k2):
                v, st2 = self.eval_fn(self.F.fns[k2], list(params), cond, st)
                for c_, v_ in st2.items():
                    st[c_] = v_
                return v
            return one(self.opaque(k2, params, st, cond))
        return one(T("call", "<indirect>", tuple([fterm] + [self.single(self.deref_val(p, st)) for p in params])))

    def call_conv(self, k2, tk2, k, params, st, cond):
        r = self.intrinsic({"key": self.stack[-1]}, None, k2, tk2, k, list(params), st, cond, 0)
        if r is None:
            return params[0]
        if r[1] is not None and r[1] is not st:
            st.update(r[1])
        return r[0]

    def opt(self, t, variant, adt=OPTION):
        return self.field(t, variant, "0", adt)

    def some(self, t):
        return T("agg", OPTION, "Some", ("0",), (t,))

    NONE = T("agg", OPTION, "None", (), ())

    def ok(self, t):
        return T("agg", RESULT, "Ok", ("0",), (t,))

    def err(self, t):
        return T("agg", RESULT, "Err", ("0",), (t,))

    def intrinsic(self, fn, fid, key, tkey, k, args, st, cond, line):
        M = self.M
        if tkey in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
            f = self.single(self.deref_val(args[0], st), cond)
            tup = args[1]
            if all(t.op == "agg" and t.a[0] == "tuple" and len(t.a[3]) == len(tup[0][1].a[3]) for _, t in tup):
                ps = [[(c, t.a[3][i]) for c, t in tup] for i in range(len(tup[0][1].a[3]))]
                if f.op == "agg" and f.a[0] == "closure":
                    v = self.call_closure(f, ps, st, cond)
                    if v is not None:
                        return v, st, cond
                elif f.op == "fnitem":
                    v = self.apply_fn(f, ps, st, cond)
                    self.assigned = "call"
                    return v, st, cond
                else:
                    return one(T("call", "<indirect>", tuple([f] + [self.single(self.deref_val(p, st)) for p in ps]))), st, cond
            return None
        if tkey.startswith("core::cmp::PartialOrd::") and len(args) == 2 and key not in self.F.fns:
            m = tkey[23:]
            if m in ("lt", "gt", "le", "ge"):
                a, b = [self.deref_val(x, st) for x in args]
                if m in ("gt", "le"):
                    a, b = b, a
                r = 0
                for c1, x in a:
                    for c2, y in b:
                        r = M.disj(r, M.conj(M.conj(c1, c2), self.lt(x, y)))
                return self.mkcond(r if m in ("lt", "gt") else M.neg(r)), st, cond
        if key.startswith("json_syntax::object::Entry::into_") and key.endswith(("_value", "_key")) and len(args) == 1:
            return self.map1(self.deref_val(args[0], st), lambda t: self.field(t, None, key.rsplit("_", 1)[1], "json_syntax::object::Entry")), st, cond
        if tkey == "core::ops::try_trait::Try::branch":
            adt = k.get("self", RESULT)
            return self.map1(args[0], lambda t: T("branch", t, adt) if not (t.op == "agg" and t.a[0] == "x") else t), st, cond
        if tkey == "core::ops::try_trait::FromResidual::from_residual":
            out = []
            for c, t in args[0]:
                if t.op == "residual":
                    if t.a[1] == OPTION:
                        out.append((c, self.NONE))
                    else:
                        pv = one(self.field(t.a[0], "Err", "0", RESULT))
                        ck = self.conv_key(k)
                        if ck in self.F.fns and self.want_inline(ck):
                            pv, _ = self.eval_fn(self.F.fns[ck], [pv], M.conj(cond, c), st)
                        out += [(M.conj(c, pc), self.err(x)) for pc, x in pv]
                else:
                    out.append((c, T("agg", RESULT, "Err", ("0",), (t,)) if k.get("self") != OPTION else self.NONE))
            return self.norm(out), st, cond
        if tkey == "core::ops::try_trait::Try::from_output":
            w = self.some if k.get("self") == OPTION else self.ok
            return self.map1(args[0], w), st, cond
        if tkey == "core::future::future::Future::poll" :
            d = self.deref_val(args[0], st)
            out = []
            s2 = st
            t = self.single(d, cond)
            if t.op in ("loop",):
                t = t.a[0]
            if t.op == "agg" and t.a[0] == "coroutine" and t.a[1] in self.F.fns and t.a[1] not in self.stack:
                root = t.a[1].split("::{closure")[0]
                if any(s.split("::{closure")[0] == root for s in self.stack) or self.want_inline_async(root):
                    v, s2 = self.await_term(t, cond, st)
                    return self.norm([(c, T("poll", x)) for c, x in v]) if len(v) > 1 else one(T("poll", v[0][1])), s2, cond
            # opaque await: anything mutably captured may change
            for p in ptrs(t):
                if p.a[0] in st:
                    v = self.read_ptr(p, st)
                    n = self.fresh("await")
                    self.write_ptr(p, self.map1(v, lambda x: T("mut", x, "await", n)), st, cond)
            if t.op == "agg" and t.a[0] == "coroutine":
                t = T("call", t.a[1].split("::{closure")[0], tuple(self.deref_agg(x, st) if x.op != "ptr" else self.single(self.read_ptr(x, st)) for x in t.a[3]), self.fresh("aw"))
            return one(T("poll", t)), st, cond
        if tkey in ("core::future::get_context", "core::future::async_await::get_context") or key.endswith("::get_context"):
            return one(T("cx")), st, cond
        if is_transparent(tkey) or is_transparent(key):
            # conversions and iteration defined in the workspace are looked through
            if tkey in ("core::convert::Into::into", "core::convert::From::from"):
                jk = json_kind(k.get("ta") or [], tkey.endswith("into"))
                if jk:
                    return self.map1(self.deref_val(args[0], st), lambda t: T("agg", JVALUE, jk, ("0",), (t,))), st, cond
                ck = self.conv_key(k) if tkey.endswith("Into::into") else key
                if ck in self.F.fns and self.want_inline(ck):
                    v, st2 = self.eval_fn(self.F.fns[ck], args, cond, st)
                    return v, st2, cond
            elif tkey.endswith("IntoIterator::into_iter") and key in self.F.fns and self.want_inline(key):
                return None
            if tkey == "core::clone::Clone::clone" or tkey == "core::ops::deref::Deref::deref" or not any(t.op == "ptr" for _, t in args[0]):
                return self.deref_val(args[0], st) if tkey in ("core::clone::Clone::clone",) else args[0], st, cond
            return args[0], st, cond
        if tkey == "core::cmp::PartialEq::eq" or tkey == "core::cmp::PartialEq::ne":
            if key not in self.F.fns:
                key = self.eq_key(k) or key
            if key in self.F.fns and not self.F.fns[key].get("derived") and self.want_inline(key):
                v, st2 = self.eval_fn(self.F.fns[key], args, cond, st)
                if tkey.endswith("ne"):
                    v = self.cond_val(M.neg(self.truthv(v)))
                return v, st2, cond
            r = 0
            for c1, a in self.deref_val(args[0], st):
                for c2, b in self.deref_val(args[1], st):
                    c = M.conj(c1, c2)
                    if c:
                        r = M.disj(r, M.conj(c, self.eq(a, b)))
            if tkey.endswith("ne"):
                r = M.neg(r)
            return self.cond_val(r), st, cond
        if tkey.startswith("core::option::Option::") or tkey.startswith("core::result::Result::"):
            r = self.optres(tkey, k, args, st, cond)
            if r is not None:
                return r, st, cond
        if tkey in ("bool::then_some", "bool::then"):
            c = self.truthv(self.deref_val(args[0], st))
            v = args[1] if tkey.endswith("some") else (self.apply_fn(self.single(args[1]), [], st, M.conj(cond, c)) if M.conj(cond, c) else one(BOT))
            return self.norm([(M.conj(c, vc), self.some(t)) for vc, t in v] + [(M.neg(c), self.NONE)]), st, cond
        if key.startswith(JVALUE + "::"):
            r = self.jvalue(key[len(JVALUE) + 2:], args, st, cond)
            if r is not None:
                return r, st, cond
        if tkey == "core::ops::index::Index::index" and len(args) == 2:
            b = self.single(self.deref_val(args[0], st), cond)
            i = self.single(self.deref_val(args[1], st), cond)
            if i.op == "agg" and i.a[0].endswith("::RangeTo") and i.a[2] == ("end",):
                # `x[..n]` is `x[0..n]`
                i = T("agg", i.a[0][:-2], i.a[1], ("start", "end"), (T("const", "0_usize", "usize"),) + i.a[3])
            if key not in self.F.fns:
                return one(self.elem(b, i)), st, cond
        if tkey == "core::ops::index::IndexMut::index_mut" and len(args[0]) == 1 and args[0][0][1].op == "ptr" and key not in self.F.fns:
            p = args[0][0][1]
            return one(T("ptr", p.a[0], p.a[1] + ((None, "[]"),))), st, cond
        r = self.iter_call(key, tkey, k, args, st, cond)
        if r is not None:
            return r, st, cond
        r = self.grow_call(fn, key, tkey, k, args, st, cond, line)
        if r is not None:
            return r, st, cond
        if tkey == "core::iter::traits::iterator::Iterator::next":
            cells = {str(p.a[0]) for _, t in args[0] for p in ptrs(t)}
            gd = self.map1(self.deref_val(args[0], st), lambda x: drained(x, cells))
            d = self.single(gd, cond)
            it = iter_term(d)
            if it is not None:
                items = self.pull(it, st, cond)
                rest = 1
                out = []
                for c, x in items:
                    out.append((c, self.some(x)))
                    rest = M.conj(rest, M.neg(c))
                out.append((rest, self.NONE))
                n = self.fresh("nextc")
                for _, t in args[0]:
                    for p in ptrs(t):
                        v = self.read_ptr(p, st)
                        self.write_ptr(p, self.map1(v, lambda x: T("mut", x, "next", n)), st, cond)
                return self.norm(out, 60), st, cond
            none, d = self.source(gd, cond)
            src = root_iter(d)
            k = nth_next(gd)
            if k is not None and not none:
                # not a loop's
                for _, t in args[0]:
                    for p in ptrs(t):
                        v = self.read_ptr(p, st)
                        self.write_ptr(p, self.map1(v, lambda x: T("mut", x, "next", 0)), st, cond)
                if k == 0:
                    g = 0
                    for c, x in gd:
                        g = M.disj(g, M.conj(c, M.neg(self.empty(root_iter(x)))))
                    self.iters += 1
                    x = T("item", src, self.iters)
                elif k == 1:
                    g = self.lenc(src, ("2+",))
                    x = T("elem", src, T("const", "1_usize", "usize"))
                else:
                    x = T("call", "nth", (src, T("const", "%d_usize" % k, "usize")))
                    g = self.is_(x, OPTION, "Some")
                    x = self.field(x, "Some", "0", OPTION)
                return self.norm([(c, y) for c, y in ((g, self.some(x)), (M.neg(g), self.NONE)) if c]), st, cond
            self.iters += 1
            n = self.iters
            for _, t in args[0]:
                for p in ptrs(t):
                    v = self.read_ptr(p, st)
                    self.write_ptr(p, self.map1(v, lambda x: T("mut", x, "next", n)), st, cond)
            if len(gd) > 1 or has_ite(gd[0][1]):
                e = 0
                for c, x in gd:
                    e = M.disj(e, M.conj(c, self.empty(root_iter(x))))
                self.gempty[n] = M.simplify(e, cond)
            if none:
                return Val(((M.neg(none), T("next", src, n)), (none, self.NONE))), st, cond
            return one(T("next", src, n)), st, cond
        if tkey == "core::mem::swap" or tkey == "core::mem::take" or tkey == "core::mem::replace":
            p = self.places(args[0])
            if p is None:
                return None
            old = self.read_places(p, st)
            if tkey.endswith("take"):
                self.write_places(p, self.default_of((k.get("ta") or [""])[0], st, cond), st, cond)
                self.assigned = True
                return old, st, cond
            if tkey.endswith("replace"):
                self.write_places(p, args[1], st, cond)
                self.assigned = True
                return old, st, cond
            q = self.places(args[1])
            if q is None:
                if len(args[1]) == 1:
                    # a place reached through an iterator: its content is the item
                    self.write_places(p, args[1], st, cond)
                    return one(UNIT), st, cond
                return None
            o2 = self.read_places(q, st)
            self.write_places(p, o2, st, cond)
            self.write_places(q, old, st, cond)
            self.assigned = True
            return one(UNIT), st, cond
        if re.match(r"(once_cell::\w+|core::cell::once|std::sync::once_lock)::Once(Cell|Lock)::(new|take)$", key):
            new = one(T("call", "<" + key.rpartition("::")[0] + " as core::default::Default>::default", ()))
            if key.endswith("new"):
                return new, st, cond
            p = self.places(args[0])
            if p is not None:
                old = self.read_places(p, st)
                self.write_places(p, new, st, cond)
                self.assigned = "call"
                return old, st, cond
        if tkey == "core::ops::bit::Not::not":
            return self.cond_val(M.neg(self.truthv(self.deref_val(args[0], st)))), st, cond
        if key.startswith("core::str::") and key.endswith("::is_empty"):
            return None
        return None

    def jvalue(self, name, args, st, cond):
        """json_syntax::Value::{is,as,into}_*: tests and projections of the variant."""
        M = self.M
        how, _, rest = name.partition("_")
        mut = rest.endswith("_mut")
        v = JKIND.get(rest[:-4] if mut else rest)
        if how not in ("is", "as", "into") or v is None or v == "Null" and how != "is":
            return None
        x = self.deref_val(args[0], st)
        g = 0
        for c, t in x:
            g = M.disj(g, M.conj(c, self.is_(t, JVALUE, v)))
        if how == "is":
            return self.cond_val(g)
        if mut:
            out = []
            for c, p in args[0]:
                if p.op != "ptr":
                    q = self.field(p, v, "0", JVALUE)
                else:
                    q = T("ptr", p.a[0], p.a[1] + ((v, "0"),))
                out.append((M.conj(c, g), self.some(q)))
        else:
            out = [(M.conj(c, self.is_(t, JVALUE, v)), self.some(self.field(t, v, "0", JVALUE))) for c, t in x if self.is_(t, JVALUE, v)]
        out.append((M.neg(g), self.NONE))
        return self.norm([(c, t) for c, t in out if c])

    # ---- iterators ----------------------------------------------------------
    def iter_call(self, key, tkey, k, args, st, cond):
        """Iterator adaptors are lazy terms; consumers pull items from them and
        yield the same normal form as the hand-written loop."""
        M = self.M
        if tkey.startswith(ITER):
            n = tkey[len(ITER):]
        elif tkey in ("core::iter::traits::collect::FromIterator::from_iter",):
            n = "collect"
        elif tkey == "core::iter::traits::collect::Extend::extend":
            n = "extend"
        elif tkey == "core::iter::traits::collect::IntoIterator::into_iter" and k.get("self", "").endswith(OPTION):
            return self.map1(args[0], lambda t: T("iter", "opt", t))
        elif key in ("core::option::Option::iter", "core::option::Option::into_iter"):
            return self.map1(args[0], lambda t: T("iter", "opt", t))
        elif tkey in ("core::iter::sources::once::once", "core::iter::once"):
            return self.map1(args[0], lambda t: T("iter", "once", t))
        elif tkey in ("core::iter::sources::empty::empty", "core::iter::empty"):
            return one(T("iter", "empty"))
        else:
            m = key.rsplit("::", 1)[-1]
            if m in ("keys", "values", "into_keys", "into_values") and len(args) == 1 and is_container(key[:-len(m) - 2]) and "Object" not in key:
                return self.map1(self.deref_val(args[0], st), lambda t: T("iter", m.replace("into_", ""), t))
            if (m == "iter_mut" or (tkey.endswith("IntoIterator::into_iter"))) and len(args) == 1 and len(args[0]) == 1 and args[0][0][1].op == "ptr":
                p = args[0][0][1]
                if m == "iter_mut" and not (key.startswith("[T]") or is_container(key[:-10]) or key.startswith("alloc::")):
                    return None
                inner = self.single(self.read_ptr(p, st), cond)
                if iter_term(inner) is not None or inner.op in ("mut",) or key in self.F.fns:
                    return None
                return one(T("iter", "imut", p))
            if m == "iter" and len(args) == 1 and key not in self.F.fns and (key.startswith("[T]::") or is_container(key[:-6])):
                v = self.deref_val(args[0], st)
                if len(v) > 1 and any(x is EMPTY for _, x in v):
                    return self.map1(v, lambda t: t if t is EMPTY else T("call", key, (t,)))
            if m == "contains" and len(args) == 2 and (key.startswith("[T]::") or key.startswith("alloc::vec::Vec") or key.startswith("core::slice")):
                r, lo = 0, self.iters
                for c, x in self.pull(self.single(self.deref_val(args[0], st), cond), st, cond):
                    for c2, y in self.deref_val(args[1], st):
                        r = M.disj(r, M.conj(M.conj(c, c2), self.eq(x, y)))
                tag = (self.frames, 0)
                self.frames += 1
                return self.cond_val(self.quant(r, lo, tag))
            return None
        if n in ADAPTORS:
            ex = tuple(self.single(a, cond) for a in args[1:])
            if len(args[0]) > 1 and any(is_none(x) for _, x in args[0]):
                return self.map1(args[0], lambda t: T("iter", n, t, *ex))
            src = self.single(args[0], cond)
            return one(T("iter", n, src, *ex))
        if n in ("cloned", "copied"):
            return args[0]
        if n == "extend":
            if not (len(args[0]) == 1 and args[0][0][1].op == "ptr"):
                return None
            p = args[0][0][1]
            lo = self.iters
            items = self.pull(self.single(args[1], cond), st, cond)
            kind = self.grow_kind(k.get("self", "") or key)
            arr = root_iter(items[0][1].a[0]) if len(items) == 1 and items[0][1].op == "item" else None
            if kind is not None and arr is not None and arr.op == "agg" and arr.a[0] == "array" and len(arr.a[3]) <= 12:
                for x in arr.a[3]:
                    self.grow(p, kind, [(1, x)], st, cond)
                return one(UNIT)
            if kind is None:
                for c, x in items:
                    self.ev("items", {"key": self.stack[-1]}, M.conj(cond, c), 0, key=key, args=(one(x),))
                return None
            self.grow(p, kind, items, st, cond, lo)
            return one(UNIT)
        if n not in ("any", "all", "find", "find_map", "position", "for_each", "collect", "fold", "count"):
            return None
        sv = self.deref_val(args[0], st)
        none, src = self.source(sv, cond)
        if n == "collect" and pushed(src):
            ta = (k.get("ta") or ["", ""])[-1] if tkey.startswith(ITER) else k.get("self", "")
            if self.grow_kind(ta) == "push":
                return sv        # a list collected into a list
        if n in ("for_each", "fold"):
            f = self.single(args[-1], cond)
            tag = (self.frames, 0)
            self.frames += 1
            lo = self.iters
            s0 = dict(st)
            self.widen_ptrs([f, src], st, tag)
            items = self.pull(src, st, cond, none)
            if n == "fold":
                acc = args[1]
                accl = self.map1(acc, lambda t: T("loop", t, tag, "acc"))
            out = []
            rest = 1
            for c, x in items:
                ps = [one(x)] if n == "for_each" else [accl, one(x)]
                r = self.gcall(f, ps, st, c, cond)
                out += [(M.conj(c, vc), t) for vc, t in r]
                rest = M.conj(rest, M.neg(c))
            self.settle(st, s0, tag, lo)
            if n == "for_each":
                return one(UNIT)
            hit, fn_, memo = self.leave_sub(tag)
            return self.exists_first([(c, self.subst(t, hit, fn_, memo)) for c, t in out], acc, lo, tag)
        tag = (self.frames, 0)
        self.frames += 1
        fs = [self.single(a, cond) for a in args[1:]]
        lo = self.iters
        s0 = dict(st)
        self.widen_ptrs([src] + fs, st, tag)
        fl = self.frame_loops[-1] if self.frame_loops else ()
        if n == "collect" and self.frame_loops:
            self.frame_loops[-1] = fl + (tag,)
        items = self.pull(src, st, cond, none)
        res = None
        if n in ("any", "all"):
            r = 0
            for c, x in items:
                v = self.truthv(self.gcall(fs[0], [one(x)], st, c, cond))
                r = M.disj(r, M.conj(c, v if n == "any" else M.neg(v)))
            r = self.quant(r, lo, tag)
            res = self.cond_val(r if n == "any" else M.neg(r))
        elif n in ("find", "position"):
            out = []
            for c, x in items:
                v = M.conj(c, self.truthv(self.gcall(fs[0], [one(x)], st, c, cond)))
                y = x if n == "find" else T("idx", root_iter(iter_base(src)), self.iters)
                out.append((v, self.some(y)))
            res = self.exists_first(out, one(self.NONE), lo, tag)
        elif n == "find_map":
            out = []
            for c, x in items:
                for vc, t in self.gcall(fs[0], [one(x)], st, c, cond):
                    g = M.conj(M.conj(c, vc), self.is_(t, OPTION, "Some"))
                    if g:
                        out.append((g, self.field(t, "Some", "0", OPTION)))
            u = 0
            for g, _ in out:
                u = M.disj(u, g)
            if len(out) > 1:
                out = [(u, self.requant(self.chain(self.disjoint(out)), u, lo, tag))]
            res = self.exists_first([(g, self.some(t)) for g, t in out], one(self.NONE), lo, tag)
        elif n == "count":
            u = 0
            for c, x in items:
                u = M.disj(u, c)
            z = T("const", "0_usize", "usize")
            res = self.exists_first([(u, T("bin", "Add", z, T("const", "1_usize", "usize")))], one(z), lo, tag)
        elif n == "collect":
            ta = (k.get("ta") or ["", ""])[-1] if tkey.startswith(ITER) else k.get("self", "")
            wrap = "Result" if ta.startswith(("std::result::Result<", RESULT)) else "Option" if ta.startswith(("std::option::Option<", OPTION)) else None
            inner = ta
            if wrap:
                inner = ta[ta.index("<") + 1:] if "<" in ta else ta
            kind = self.grow_kind(inner) or "collect"
            errs, outs = [], []
            adt, good = (RESULT, "Ok") if wrap == "Result" else (OPTION, "Some")
            for c, x in items:
                if wrap:
                    g = self.is_(x, adt, good)
                    bad = M.conj(c, M.neg(g))
                    if bad:
                        errs.append((bad, self.err(self.field(x, "Err", "0", RESULT)) if wrap == "Result" else self.NONE))
                    c = M.conj(c, g)
                    x = self.field(x, good, "0", adt)
                if wrap == "Result":
                    self.cont[tag] = M.disj(self.cont.get(tag, 0), c)
                if c:
                    if kind != "cat":
                        self.ev("grow", {"key": self.stack[-1]}, M.conj(cond, c), 0, key=kind, args=(one(EMPTY), one(x)))
                    t = T("grow", EMPTY, kind, x)
                    outs.append((c, (self.ok(t) if wrap == "Result" else self.some(t)) if wrap else t))
            e = EMPTY
            e = (self.ok(e) if wrap == "Result" else self.some(e)) if wrap else e
            outs = sorted(outs, key=lambda x: render(x[1])) if len(outs) > 1 else outs
            res = self.exists_first(errs + outs, one(e), lo, tag)
            if self.frame_loops:
                self.frame_loops[-1] = fl
        self.settle(st, s0, tag, lo)
        hit, fn_, memo = self.leave_sub(tag)
        return self.map1(res, lambda t: self.subst(t, hit, fn_, memo)) if res is not None else None

    def exists_first(self, alts, base, lo, tag):
        """Guarded value of a loop-like consumer: the first alternative some
        iteration reaches, else the initial value."""
        M = self.M
        hit, fn, memo = self.leave_sub(tag)
        out, used = [], 0
        for c, t in alts:
            c = self.subst_c(c, hit, fn, memo)
            if t.op == "cond":
                t = self.mkcond(self.quant(t.a[0], lo, tag))[0][1]
            c = M.conj(self.quant(c, lo, tag), M.neg(used))
            if c:
                out.append((c, t))
                used = M.disj(used, c)
        for c, t in base:
            c = M.conj(c, M.neg(used))
            if c:
                out.append((c, t))
        return self.norm(out, 60)

    def settle(self, st, s0, tag, lo):
        """Writes made by closures of an iterator consumer, as after a loop."""
        sl = dict(st)
        _, out = self.finish_loop(tag, lo, 1, 1, {k: s0.get(k, v) for k, v in sl.items()}, 1, sl)
        st.clear()
        st.update(out)

    def disjoint(self, alts):
        M = self.M
        used, out = 0, []
        for c, t in alts:
            c = M.conj(c, M.neg(used))
            if c:
                out.append((c, t))
                used = M.disj(used, c)
        return out

    def widen_ptrs(self, ts, st, tag):
        marks = set()
        for t in ts:
            for p in ptrs(t):
                marks.add((p.a[0], p.a[1]))
        for cell, path in marks:
            v = st.get(cell)
            if v is None:
                continue

            def w(t):
                cur = t
                for q in path:
                    cur = self.field(cur, q[0], q[1], None)
                if cur.op == "ptr" or (cur.op == "loop" and cur.a[1] == tag):
                    return t
                return self.upd(t, path, T("loop", cur, tag, str(cell)))
            st[cell] = self.map1(v, w)

    def gcall(self, f, params, st, c, cond):
        """Call `f` when `c` holds (under `cond`); its writes are guarded by c."""
        M = self.M
        cc = M.conj(cond, c)
        if cc == 0:
            return one(BOT)
        st2 = dict(st)
        v = self.apply_fn(f, params, st2, cc)
        if c == 1:
            st.update(st2)
            return v
        nc = M.neg(c)
        for k2, nv in st2.items():
            ov = st.get(k2)
            if ov is None:
                st[k2] = nv
            elif ov is not nv and ov != nv:
                st[k2] = self.norm([(M.conj(c, vc), t) for vc, t in nv] + [(M.conj(nc, vc), t) for vc, t in ov], 60)
        return v

    def source(self, v, cond):
        """The collection an iterator walks, and the condition under which it is a written-out empty one."""
        none, some = 0, []
        for c, x in v:
            if is_none(x):
                none = self.M.disj(none, c)
            else:
                some.append((c, x))
        if none and some:
            return none, self.single(Val(tuple(some)), cond)
        return 0, self.single(v, cond)

    def pull(self, t, st, cond, none=0):
        """Guarded items an iterator may yield: [(condition, item)]."""
        M = self.M
        if none:
            return [(M.conj(M.neg(none), c), x) for c, x in self.pull(t, st, cond)]
        it = iter_term(t)
        if it is None:
            if t.op == "ptr":
                t = self.single(self.read_ptr(t, st), cond)
                it = iter_term(t)
        if it is None:
            if t is EMPTY:
                return []
            src = root_iter(t)
            if src.op == "agg" and src.a[0] == "array" and not src.a[3]:
                return []
            if src.op == "phi" and len(src.a[0]) <= 4 and any(iter_term(x) is not None for x in src.a[0]):
                out = []
                for x in src.a[0]:
                    out += self.pull(x, st, cond)
                return out
            self.iters += 1
            n = self.iters
            nx = T("next", src, n)
            return [(self.is_(nx, OPTION, "Some"), T("item", src, n))]
        k = it.a[0]
        if k == "empty":
            return []
        if k == "once":
            return [(1, it.a[1])]
        if k == "opt":
            return [(self.is_(it.a[1], OPTION, "Some"), self.field(it.a[1], "Some", "0", OPTION))]
        if k == "imut":
            p = it.a[1]
            src = root_iter(self.single(self.read_ptr(p, st), cond))
            self.iters += 1
            n = self.iters
            return [(self.is_(T("next", src, n), OPTION, "Some"), T("ptr", p.a[0], p.a[1] + ((None, "[]%d" % n),)))]
        if k in ("keys", "values"):
            f = "0" if k == "keys" else "1"
            return [(c, self.field(x, None, f, "tuple")) for c, x in self.pull(it.a[1], st, cond)]
        items = self.pull(it.a[1], st, cond)
        f = it.a[2] if len(it.a) > 2 else None
        out = []
        if k == "enumerate":
            idx = T("idx", root_iter(iter_base(it.a[1])), self.iters)
            return [(c, T("agg", "tuple", None, ("0", "1"), (idx, x))) for c, x in items]
        if k == "chain":
            rest = 1
            for c, x in items:
                rest = M.conj(rest, M.neg(c))
            return items + [(M.conj(rest, c), x) for c, x in self.pull(f, st, cond)]
        if k == "zip":
            o2 = self.pull(f, st, cond)
            return [(M.conj(c, c2), T("agg", "tuple", None, ("0", "1"), (x, y))) for c, x in items for c2, y in o2]
        if k == "flatten":
            for c, x in items:
                out += [(M.conj(c, c2), y) for c2, y in self.pull(x, st, M.conj(cond, c))]
            return out
        for c, x in items:
            v = self.gcall(f, [one(x)], st, c, cond)
            if k == "map":
                out += [(M.conj(c, vc), y) for vc, y in v]
            elif k == "inspect":
                out.append((c, x))
            elif k == "filter":
                out.append((M.conj(c, self.truthv(v)), x))
            elif k == "filter_map":
                for vc, y in v:
                    g = M.conj(M.conj(c, vc), self.is_(y, OPTION, "Some"))
                    if g:
                        out.append((g, self.field(y, "Some", "0", OPTION)))
            elif k == "flat_map":
                for vc, y in v:
                    g = M.conj(c, vc)
                    if g:
                        if self.is_(y, OPTION, "Some") in (0, 1) and y.op == "agg":
                            y = T("iter", "opt", y)
                        out += [(M.conj(g, c2), z) for c2, z in self.pull(y, st, M.conj(cond, g))]
        return [(c, x) for c, x in out if c]

    def escape_iters(self, t, st, cond):
        """An iterator chain handed to code that is not modelled: what it yields."""
        if t.op == "iter" or t.op in ("agg", "phi", "upd", "call", "mut", "loop"):
            its = [x for x in iters_in(t)]
        else:
            return
        for it in its:
            key = ("esc", it)
            if key in self.site:
                continue
            self.site[key] = 1
            st2 = dict(st)
            for c, x in self.pull(it, st2, cond):
                self.ev("items", {"key": self.stack[-1] if self.stack else "?"}, self.M.conj(cond, c), 0, key="iter", args=(one(T("ibase", root_iter(iter_base(it)))), one(x)))

    def grow_kind(self, p):
        p = p.lstrip("&").replace("mut ", "").strip()
        if "<" in p:
            p = p[:p.index("<")]
        n = p.rsplit("::", 1)[-1]
        if n in ("String", "SmallString"):
            return "cat"
        if n in ("Vec", "SmallVec", "VecDeque"):
            return "push"
        if n in ("HashSet", "IndexSet", "BTreeSet", "HashMap", "IndexMap", "BTreeMap"):
            return "insert"
        return None

    def cat(self, a, b):
        return T("grow", a, "cat", b)

    def text_call(self, key, tkey, k, args, st, cond):
        """Formatting and string concatenation: texts are sequences of parts."""
        if tkey == "core::hint::must_use" or key in ("alloc::fmt::format", "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst"):
            return args[0]
        if key in ("core::fmt::rt::Argument::new_display",):
            return self.deref_val(args[0], st)
        if key == "core::fmt::Arguments::new" and len(args) == 2:
            tp, xs = self.single(args[0], cond), self.single(args[1], cond)
            if tp.op == "const" and tp.a[0].startswith('b"') and xs.op == "agg" and xs.a[0] == "array":
                parts = template(tp.a[0])
                if parts is not None and sum(1 for x in parts if x is None) == len(xs.a[3]):
                    r, i = EMPTY, 0
                    for x in parts:
                        if x is None:
                            r = self.cat(r, xs.a[3][i])
                            i += 1
                        else:
                            r = self.cat(r, T("const", '"' + x + '"', "&str"))
                    return one(r)
            return None
        if key.startswith("<alloc::string::String as core::ops::arith::Add") and len(args) == 2:
            if key.endswith("::add"):
                return one(self.cat(self.single(args[0], cond), self.single(self.deref_val(args[1], st), cond)))
            if key.endswith("::add_assign") and len(args[0]) == 1 and args[0][0][1].op == "ptr":
                self.grow(args[0][0][1], "cat", list(self.deref_val(args[1], st)), st, cond)
                return one(UNIT)
        f = None
        if key in ("core::fmt::Formatter::write_str", "core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_char", "<core::fmt::Formatter as core::fmt::Write>::write_str",
                   "<core::fmt::Formatter as core::fmt::Write>::write_fmt", "<core::fmt::Formatter as core::fmt::Write>::write_char"):
            f, x = args[0], args[1]
        elif tkey == "core::fmt::Display::fmt" and len(args) == 2 and key not in self.F.fns:
            f, x = args[1], args[0]
        if f is not None and len(f) == 1 and f[0][1].op == "ptr":
            self.grow(f[0][1], "cat", list(self.deref_val(x, st)), st, cond)
            return one(self.ok(UNIT))
        if key in ("[T]::concat", "alloc::slice::concat", "[T]::join", "alloc::slice::join"):
            t = self.single(self.deref_val(args[0], st), cond)
            if t.op == "agg" and t.a[0] == "array":
                r = EMPTY
                for i, x in enumerate(t.a[3]):
                    if i and len(args) == 2:
                        r = self.cat(r, self.single(self.deref_val(args[1], st), cond))
                    r = self.cat(r, x)
                return one(r)
        return None

    def default_of(self, ty, st, cond):
        """The default value of a type."""
        if self.grow_kind(ty):
            return one(EMPTY)
        if re.match(r"(std|core)::option::Option<", ty):
            return one(self.NONE)
        if ty == "bool":
            return one(FALSE)
        if re.match(r"[iu](8|16|32|64|128|size)$", ty):
            return one(T("const", "0_" + ty, ty))
        h = ty.split("<")[0]
        k = "<%s as core::default::Default>::default" % h
        if k in self.F.fns:
            return self.apply_fn(T("fnitem", k, "core::default::Default::default"), [], st, cond)
        return one(T("default"))

    def grow_call(self, fn, key, tkey, k, args, st, cond, line):
        i = key.rfind("::")
        base, m = key[:i], key[i + 2:]
        if "fmt" in tkey or "ops::arith" in tkey or tkey == "core::hint::must_use" or m in ("concat", "join"):
            r = self.text_call(key, tkey, k, args, st, cond)
            if r is not None:
                return r
        if (tkey == "core::default::Default::default" and self.grow_kind(k.get("self", ""))) or (not args and empty_ctor(key)) or (m == "with_capacity" and is_container(base)):
            return one(EMPTY)
        if key.endswith("box_assume_init_into_vec_unsafe") or key.endswith("::into_vec"):
            t = self.single(args[0], cond)
            arr = None
            for x in subterms(t):
                if x.op == "agg" and x.a[0] == "array":
                    arr = x
                    break
            if arr is not None and len(arr.a[3]) <= 12:
                r = EMPTY
                for x in arr.a[3]:
                    self.ev("grow", {"key": self.stack[-1]}, cond, 0, key="push", args=(one(r), one(x)))
                    r = T("grow", r, "push", x)
                return one(r)
            return None
        if m in GROW and is_container(base) and len(args) in (2, 3) and len(args[0]) == 1 and args[0][0][1].op == "ptr":
            if base.startswith("json_syntax") and m == "insert":
                kind = "set"
            else:
                kind = "insert" if m == "insert" and self.grow_kind(base) == "insert" else "cat" if self.grow_kind(base) == "cat" else "push"
                if m == "insert" and kind == "cat":
                    kind = "push"
                if m == "insert" and kind == "push":
                    kind = "insertat"
            if len(args) == 3:
                x = T("agg", "tuple", None, ("0", "1"), tuple(self.gsingle(self.deref_val(a, st), cond) for a in args[1:]))
                xs = [(1, x)]
            else:
                xs = list(self.deref_val(args[1], st))
            p = args[0][0][1]
            old = self.single(self.read_ptr(p, st), cond)
            self.grow(p, kind, xs, st, cond)
            if kind in ("push", "cat"):
                return one(UNIT)
            n = self.fresh(key)
            return one(T("call", key, (old, self.single(Val(xs), cond)), n))
        if m == "new_unchecked" and len(args) == 1 and len(args[0]) == 1 and args[0][0][1].op == "const" and key not in self.F.fns:
            return args[0]      # a checked literal
        if m == "resize" and base == "alloc::vec::Vec" and len(args) == 3 and len(args[0]) == 1 and args[0][0][1].op == "ptr" and all(x is EMPTY for _, x in self.read_ptr(args[0][0][1], st)):
            v = T("call", "alloc::vec::from_elem", (self.gsingle(self.deref_val(args[2], st), cond), self.single(self.deref_val(args[1], st), cond)))
            self.write_ptr(args[0][0][1], one(v), st, cond)
            self.assigned = "call"
            return one(UNIT)
        if m in ENTRY:
            self.entry_ty = ((k.get("ta") or []) + ["", ""])[1]
            r = self.entry_call(key, args, st, cond)
            if r is not None:
                self.assigned = "call"
                return r[0]
        if m in ("append", "extend_from_slice") and is_container(base) and len(args) == 2 and args[0][0][1].op == "ptr" and len(args[0]) == 1:
            a1 = self.single(self.deref_val(args[1], st), cond)
            lo = self.iters
            items = self.pull(a1, st, cond)
            self.grow(args[0][0][1], self.grow_kind(base) or "push", items, st, cond, lo)
            if args[1][0][1].op == "ptr" and m == "append":
                self.write_ptr(args[1][0][1], one(EMPTY), st, cond)
            return one(UNIT)
        if m == "len" and len(args) == 1 and (is_container(base) or base in ("[T]", "str", "core::slice", "core::str")):
            return self.map1(self.deref_val(args[0], st), lambda t: T("const", "0_usize", "usize") if t is EMPTY else T("call", "builtin::len", (root_iter(t),)))
        if m == "is_empty" and len(args) == 1 and (is_container(base) or base in ("[T]", "str")) :
            return self.map1(self.deref_val(args[0], st), lambda t: TRUE if t is EMPTY else T("call", "is_empty", (root_iter(t),)))
        if m == "contains_key" and is_container(base):
            g = self.opaque(base + "::get", [self.deref_val(a, st) for a in args], st, cond)
            return self.cond_val(self.is_(g, OPTION, "Some"))
        return None

    def entry_call(self, key, args, st, cond):
        """A map's entry is its slot for the key: occupied when the map holds the key."""
        M = self.M
        base, _, m = key.rpartition("::")
        if m == "entry" and len(args) == 2 and is_container(base) and base.endswith("Map") and len(args[0]) == 1 and args[0][0][1].op == "ptr":
            kv = self.deref_val(args[1], st)
            g = self.opaque(base + "::get", [self.read_ptr(args[0][0][1], st), kv], st, cond)
            k = self.gsingle(kv, cond)
            return one(T("entry", base, args[0][0][1], k, g)), cond
        if not base.endswith(("::Entry", "::OccupiedEntry", "::VacantEntry")) or not args or len(args[0]) != 1 or args[0][0][1].op != "entry":
            return None
        mp, p, k, g = args[0][0][1].a
        held = self.is_(g, OPTION, "Some")
        slot = lambda: one(self.field(self.opaque(mp + "::get_mut", [one(p), one(k)], st, cond), "Some", "0", OPTION))
        if m == "key":
            return one(k), cond
        if base.endswith("::OccupiedEntry"):
            return (slot(), cond) if m in ("get", "get_mut", "into_mut") else None
        free = M.conj(cond, M.neg(held))
        if m in ("insert", "insert_entry") and base.endswith("::VacantEntry"):
            free, v = cond, args[1]
        elif m == "or_insert":
            v = args[1]
        elif m == "or_insert_with":
            v = self.apply_fn(self.single(args[1]), [], st, free) if free else one(BOT)
        elif m == "or_insert_with_key":
            v = self.apply_fn(self.single(args[1]), [one(k)], st, free) if free else one(BOT)
        elif m == "or_default":
            v = self.default_of(self.entry_ty, st, free)
        else:
            return None
        if free:
            x = T("agg", "tuple", None, ("0", "1"), (k, self.gsingle(self.deref_val(v, st), free)))
            self.grow(p, "insert", [(1 if free == cond else M.neg(held), x)], st, cond)
        return slot(), cond

    def grow(self, p, kind, items, st, cond, lo=None):
        M = self.M
        old = self.read_ptr(p, st)
        out, rest = [], 1
        b = self.single(old, cond)
        for c, x in items:
            if kind != "cat":
                self.ev("grow", {"key": self.stack[-1]}, M.conj(cond, c), 0, key=kind, args=(one(b), one(x)))
        if lo is not None:
            alts = [(M.conj(c, oc), T("grow", o, kind, x)) for c, x in items for oc, o in old]
            self.write_ptr(p, self.exists_first(alts, old, lo, ("ext",)), st, cond)
            return
        for c, x in items:
            for oc, o in old:
                g = M.conj(M.conj(rest, c), oc)
                if g and M.conj(g, cond):
                    out.append((g, T("grow", o, kind, x)))
            rest = M.conj(rest, M.neg(c))
        for oc, o in old:
            g = M.conj(rest, oc)
            if g:
                out.append((g, o))
        self.write_ptr(p, self.norm(out, 60), st, cond)

    def conv_key(self, k, m="from"):
        """The workspace `From` impl behind an `into()` or a `?`."""
        ta = k.get("ta") or []
        if len(ta) != 2:
            return None
        u, s = ta[0], ta[1]
        if k["fn"].endswith("from_residual"):
            u, s = generic_args(u), generic_args(s)
            if len(u) != 2 or len(s) != 2:
                return None
            u, s = u[1], s[1]
        else:
            u, s = s, u
        if u == s:
            return None
        idx = self.F.__dict__.get("_" + m)
        if idx is None:
            idx = self.F.__dict__["_" + m] = {}
            tr = " as core::convert::From<" if m == "from" else " as core::convert::TryFrom<"
            for key in self.F.fns:
                if key.endswith(">::" + m) and tr in key and key.startswith("<"):
                    a, b = key[1:-len(">::" + m)].split(tr, 1)
                    a, b = type_head(a), type_head(b[:-1])
                    idx[(a, b)] = key
                    # types are printed through re-exports
                    sh = (a[0], a[2], b[0], b[2])
                    idx[sh] = None if sh in idx else key
        h, g = type_head(u), type_head(s)
        return idx.get((h, g)) or (idx.get((h, type_head("T"))) if m == "from" else None) or idx.get((h[0], h[2], g[0], g[2]))

    def eq_key(self, k):
        """The workspace comparison behind a comparison of references."""
        ta = [x.lstrip("&") for x in k.get("ta") or []]
        if len(ta) != 2:
            return None
        idx = self.F.__dict__.get("_eqidx")
        if idx is None:
            idx = self.F.__dict__["_eqidx"] = {}
            tr = " as core::cmp::PartialEq"
            for key in self.F.fns:
                if key.startswith("<") and key.endswith(">::eq") and tr in key:
                    a, b = key[1:-len(">::eq")].split(tr, 1)
                    b = b[1:-1] if b else a
                    a, b = type_head(a), type_head(b)
                    sh = (a[0], a[2], b[0], b[2])
                    idx[sh] = None if sh in idx else key
        h, g = type_head(ta[0]), type_head(ta[1])
        r = idx.get((h[0], h[2], g[0], g[2]))
        return r

    def want_inline_async(self, root):
        return self.want_inline(root) or (self.inline_extra(root)) or (self.baseline is not None and root in self.F.fns and root not in self.baseline)

    def optres(self, tkey, k, args, st, cond):
        M = self.M
        name = tkey.rsplit("::", 1)[1]
        adt = OPTION if "Option" in tkey else RESULT
        good = "Some" if adt == OPTION else "Ok"
        bad = "None" if adt == OPTION else "Err"
        if name in ("take",) or name in ("insert", "replace") and adt == OPTION:
            p = self.places(args[0])
            if p is None:
                return None
            old = self.read_places(p, st)
            self.write_places(p, one(self.NONE) if name == "take" else self.map1(args[1], self.some), st, cond)
            self.assigned = True
            return args[1] if name == "insert" else old
        if name in ("get_or_insert", "get_or_insert_with", "get_or_insert_default"):
            p = self.places(args[0])
            if p is None or adt != OPTION:
                return None
            old = self.read_places(p, st)
            g = 0
            for c, t in old:
                g = M.disj(g, M.conj(c, self.is_(t, adt, good)))
            if name == "get_or_insert":
                d = args[1]
            elif name.endswith("default"):
                d = self.default_of((k.get("ta") or [""])[0], st, M.conj(cond, M.neg(g)))
            else:
                d = self.apply_fn(self.single(args[1]), [], st, M.conj(cond, M.neg(g)))
                old = self.read_places(p, st)
            self.write_places(p, self.norm([(M.conj(c, g), t) for c, t in old] + [(M.conj(c, M.neg(g)), self.some(t)) for c, t in d]), st, cond)
            self.assigned = True
            return self.norm([(c, T("ptr", t.a[0], t.a[1] + (("Some", "0"),))) for c, t in p])
        x = self.deref_val(args[0], st)

        def isg():
            r = 0
            for c, t in x:
                r = M.disj(r, M.conj(c, self.is_(t, adt, good)))
            return r

        def payload(which=good):
            return self.norm([(M.conj(c, self.is_(t, adt, which)), self.field(t, which, "0", adt)) for c, t in x if self.is_(t, adt, which)]) if any(self.is_(t, adt, which) for _, t in x) else one(BOT)

        def join(c, a, b):
            return self.norm([(M.conj(c, ac), t) for ac, t in a] + [(M.conj(M.neg(c), bc), t) for bc, t in b])
        if name in ("is_some", "is_ok"):
            return self.cond_val(isg())
        if name in ("is_none", "is_err"):
            return self.cond_val(M.neg(isg()))
        if name in ("unwrap", "expect", "unwrap_unchecked"):
            g = isg()
            e = self.ev("unwrap", {"key": self.stack[-1]}, M.conj(cond, M.neg(g)), self.events[-1].line if self.events else 0,
                        key=tkey, args=(x,))
            return payload()
        if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            g = isg()
            if name == "unwrap_or":
                d = args[1]
            elif name == "unwrap_or_default":
                d = self.default_of((k.get("ta") or [""])[0], st, cond)
            else:
                d = self.apply_fn(self.single(args[1]), [payload("Err")] if adt == RESULT else [], st, M.conj(cond, M.neg(g)))
            return join(g, payload(), d)
        if name in ("map", "and_then", "is_some_and", "is_ok_and", "map_or", "map_or_else", "is_none_or"):
            g = isg()
            fi = {"map_or": 2, "map_or_else": 2}.get(name, 1)
            cg = M.conj(cond, g)
            if cg == 0:
                r = one(BOT)
            else:
                r = self.apply_fn(self.single(args[fi]), [payload()], st, cg)
            if name == "map":
                w = self.some if adt == OPTION else self.ok
                r = self.map1(r, w)
                if adt == OPTION:
                    return join(g, r, one(self.NONE))
                return join(g, r, self.map1(payload("Err"), self.err))
            if name == "and_then":
                if adt == OPTION:
                    return join(g, r, one(self.NONE))
                return join(g, r, self.map1(payload("Err"), self.err))
            if name in ("is_some_and", "is_ok_and"):
                return self.cond_val(M.conj(g, self.truthv(r)))
            if name == "is_none_or":
                return self.cond_val(M.disj(M.neg(g), self.truthv(r)))
            if name == "map_or":
                return join(g, r, args[1])
            return join(g, r, self.apply_fn(self.single(args[1]), [payload("Err")] if adt == RESULT else [], st, M.conj(cond, M.neg(g))))
        if name == "map_err":
            g = isg()
            cb = M.conj(cond, M.neg(g))
            r = self.apply_fn(self.single(args[1]), [payload("Err")], st, cb) if cb else one(BOT)
            return join(g, self.map1(payload(), self.ok), self.map1(r, self.err))
        if name in ("ok_or", "ok_or_else"):
            g = isg()
            cb = M.conj(cond, M.neg(g))
            e = args[1] if name == "ok_or" else (self.apply_fn(self.single(args[1]), [], st, cb) if cb else one(BOT))
            return join(g, self.map1(payload(), self.ok), self.map1(e, self.err))
        if name == "ok":
            return join(isg(), self.map1(payload(), self.some), one(self.NONE))
        if name == "err":
            return join(M.neg(isg()), self.map1(payload("Err"), self.some), one(self.NONE))
        if name in ("or", "or_else"):
            g = isg()
            if name == "or":
                d = args[1]
            else:
                d = self.apply_fn(self.single(args[1]), [payload("Err")] if adt == RESULT else [], st, M.conj(cond, M.neg(g)))
            return join(g, x, d)
        if name == "and":
            return join(isg(), args[1], one(self.NONE) if adt == OPTION else self.map1(payload("Err"), self.err))
        if name == "xor" and adt == OPTION:
            y = self.deref_val(args[1], st)
            h = 0
            for c, t in y:
                h = M.disj(h, M.conj(c, self.is_(t, adt, good)))
            return join(isg(), join(h, one(self.NONE), x), y)
        if name == "zip" and adt == OPTION:
            y = self.deref_val(args[1], st)
            h, ys = 0, []
            for c, t in y:
                h = M.disj(h, M.conj(c, self.is_(t, adt, good)))
                ys.append((M.conj(c, self.is_(t, adt, good)), self.field(t, good, "0", adt)))
            a, b = self.gsingle(payload()), self.gsingle(self.norm(ys)) if h else BOT
            return join(M.conj(isg(), h), one(self.some(T("agg", "tuple", None, ("0", "1"), (a, b)))), one(self.NONE))
        if name in ("filter",):
            g = isg()
            r = self.apply_fn(self.single(args[1]), [payload()], st, M.conj(cond, g))
            c = M.conj(g, self.truthv(r))
            return join(c, x, one(self.NONE))
        if name in ("flatten", "transpose"):
            if name == "flatten" and adt == OPTION:
                return join(isg(), payload(), one(self.NONE))
            if name == "transpose" and adt == RESULT:
                r = [(M.neg(isg()), self.some(t)) for t in ()]
                for c, t in payload():
                    h = self.is_(t, OPTION, "Some")
                    r.append((M.conj(M.conj(isg(), c), h), self.some(self.ok(self.field(t, "Some", "0", OPTION)))))
                    r.append((M.conj(M.conj(isg(), c), M.neg(h)), self.NONE))
                for c, t in payload("Err"):
                    r.append((M.conj(M.neg(isg()), c), self.some(self.err(t))))
                return self.norm(r)
            if name == "transpose" and adt == OPTION:
                g = isg()
                p = payload()
                r = []
                for c, t in p:
                    okc = self.is_(t, RESULT, "Ok")
                    r.append((M.conj(M.conj(g, c), okc), self.ok(self.some(self.field(t, "Ok", "0", RESULT)))))
                    r.append((M.conj(M.conj(g, c), M.neg(okc)), self.err(self.field(t, "Err", "0", RESULT))))
                r.append((M.neg(g), self.ok(self.NONE)))
                return self.norm(r)
        return None


def generic_args(t):
    """Top-level generic arguments of a printed type."""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, depth, cur = [], 0, ""
    for ch in t[i + 1:-1]:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def type_head(t):
    """Reference level, crate and name of a printed type."""
    t = t.strip()
    r = ""
    while t.startswith("&"):
        r += "&"
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(" ", 1)[-1]
        if t.startswith("mut "):
            t = t[4:]
    if t.startswith("<"):
        return (r, "", t)
    if "<" in t:
        t = t[:t.index("<")]
    ps = t.split("::")
    return (r, ps[0] if len(ps) > 1 else "", ps[-1])


def nth_next(gd):
    """How often an iterator has been advanced by straight-line code; None when it is a loop's."""
    ks = set()
    for _, t in gd:
        k = 0
        while t.op == "mut" and t.a[1] == "next" and t.a[2] == 0:
            k += 1
            t = t.a[0]
        if t.op in ("loop", "mut", "phi", "ite", "bot", "uninit"):
            return None
        ks.add(k)
    return ks.pop() if len(ks) == 1 else None


def loop_tags(t):
    """Loops whose widening marks occur in a term."""
    r = t._loops
    if r is None:
        r = set()
        if t.op == "loop":
            r.add(t.a[1])
        elif t.op in ("item", "next", "idx"):
            if t.a[1] != 0:
                r.add(("n", t.a[1]))
        elif t.op in ("any", "cond"):
            r |= t.a[1]
        elif t.op == "ite":
            r |= t.a[3]
        for x in t.a:
            if isinstance(x, T):
                r |= loop_tags(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, T):
                        r |= loop_tags(y)
        r = t._loops = frozenset(r)
    return r


def bound(x):
    return x[0] == "n" and isinstance(x[1], int) and x[1] < 0


def has_iter(t):
    r = t._it
    if r is None:
        r = t.op == "iter"
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    r = has_iter(x)
                elif isinstance(x, (tuple, frozenset)):
                    r = any(isinstance(y, T) and has_iter(y) for y in x)
                if r:
                    break
        t._it = r
    return r


def has_ite(t):
    r = t._ite
    if r is None:
        r = t.op == "ite"
        if not r and t.op in ("upd", "phi", "agg", "loop", "mut", "grow"):
            for x in t.a:
                if isinstance(x, T):
                    r = has_ite(x)
                elif isinstance(x, (tuple, frozenset)):
                    r = any(isinstance(y, T) and has_ite(y) for y in x)
                if r:
                    break
        t._ite = r
    return r


def json_kind(ta, into):
    """The kind of JSON value a conversion into one makes."""
    if len(ta) != 2:
        return None
    src, dst = ta if into else ta[::-1]
    if not re.fullmatch(r"json_(ld_)?syntax::Value", dst):
        return None
    h = src.lstrip("&").split("<")[0].rsplit("::", 1)[-1].split(" ")[-1]
    return {"Object": "Object", "str": "String", "String": "String", "SmallString": "String", "Vec": "Array", "bool": "Boolean", "NumberBuf": "Number", "Number": "Number"}.get(h)


def is_view(key):
    """Library functions that only hand out a reference into their argument."""
    if key.startswith("json_ld"):
        return False
    m = key.rsplit("::", 1)[-1]
    return m in ("as_object_mut", "as_array_mut", "get_unique_mut", "get_mut", "last_mut", "first_mut", "as_mut", "deref_mut", "as_value_mut", "values_mut", "get_full_mut2")


def is_mutref(ty):
    return re.match(r"&('\S+ )?mut ", ty) is not None


def proj_type(ty, e):
    """The type of a projection of a place of type `ty`, where it is easily told."""
    if e[0] == "f" and ty.startswith("(") and e[1].isdigit():
        parts, d, cur = [], 0, ""
        for ch in ty[1:-1]:
            if ch == "," and d == 0:
                parts.append(cur.strip())
                cur = ""
                continue
            d += ch in "(<[" 
            d -= ch in ")>]"
            cur += ch
        parts.append(cur.strip())
        i = int(e[1])
        return parts[i] if i < len(parts) else ""
    if e[0] == "d":
        m = re.match(r"&('\S+ )?(mut )?", ty)
        return ty[m.end():] if m else ""
    return ""


ASSIGNS = {"core::mem::swap", "core::mem::take", "core::mem::replace", "core::option::Option::take", "core::option::Option::insert", "core::option::Option::replace",
           "core::option::Option::get_or_insert", "core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert_default"}


def opaque_ref(t):
    return strip_outer(t).op in ("call", "f", "item", "elem")


def strip_outer(t):
    while t.op in ("loop", "mut"):
        t = t.a[0]
    return t


def template(c):
    """Parts of a compiled format template: texts, None for an argument."""
    try:
        b = eval(c)
    except Exception:
        return None
    out, i = [], 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return out if i == len(b) else None
        if x < 0x80:
            n = x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
        elif x == 0xC0:
            out.append(None)
            continue
        else:
            return None
        try:
            out.append(b[i:i + n].decode())
        except UnicodeDecodeError:
            return None
        i += n
    return None


def pushed(t):
    """A list built here by appending."""
    if t.op in ("loop",):
        return pushed(t.a[0])
    if t.op == "ite":
        return pushed(t.a[1]) and pushed(t.a[2])
    if t.op == "phi":
        return all(pushed(x) for x in t.a[0])
    if t.op == "grow":
        return t.a[1] == "push" and pushed(t.a[0])
    return t is EMPTY or t == EMPTY


def iter_term(t):
    while t.op in ("loop", "mut"):
        t = t.a[0]
    return t if t.op == "iter" else None


def iters_in(t, seen=None):
    """Outermost iterator chains inside a term."""
    if t.op == "iter":
        yield t
        return
    for x in t.a:
        if isinstance(x, T):
            yield from iters_in(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T):
                    yield from iters_in(y)


def iter_base(t):
    while True:
        it = iter_term(t)
        if it is None or len(it.a) < 2:
            return t
        t = it.a[1]


def is_none(t):
    """An iterator over a written-out empty collection."""
    while True:
        t = root_iter(t)
        it = iter_term(t)
        if it is None:
            return t is EMPTY
        if it.a[0] not in ("map", "filter", "filter_map", "rev", "enumerate", "peekable", "skip", "take", "keys", "values", "take_while", "skip_while", "flat_map"):
            return False
        t = it.a[1]


# a collection that started empty and has been handed out or written in a loop: not known to be empty
HELD = T("mut", EMPTY, "held", 0)


def drained(t, cells):
    """An iterator over nothing, which only taking from it has changed, is still over nothing."""
    x = t
    while x.op == "mut" and x.a[1] == "next" or x.op == "loop" and x.a[2] in cells:
        x = x.a[0]
    return x if x is EMPTY else t


def root_iter(t):
    """The collection an iterator term walks over."""
    while True:
        if t.op in ("loop", "mut"):
            while t.op in ("loop", "mut"):
                t = t.a[0]
            if t is EMPTY:
                return HELD
        elif t.op == "call" and t.a[1] and (t.a[0].endswith("::iter") or t.a[0].endswith("::into_iter") or t.a[0].endswith("::iter_mut")):
            t = t.a[1][0]
        else:
            return t


def strip(t, memo={}):
    """Forget loop widening and mutation marks: where a value came from."""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("loop", "mut"):
        r = strip(t.a[0])
    else:
        na = []
        for x in t.a:
            if isinstance(x, T):
                na.append(strip(x))
            elif isinstance(x, tuple):
                na.append(tuple(strip(y) if isinstance(y, T) else y for y in x))
            elif isinstance(x, frozenset):
                na.append(frozenset(strip(y) for y in x))
            else:
                na.append(x)
        if t.op == "call" and len(na) == 3:
            na = na[:2]
        r = T(t.op, *na)
    memo[t] = r
    return r
