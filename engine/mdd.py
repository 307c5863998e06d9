"""Small hash-consed multi-valued decision diagrams.

A variable is an *atom*: a canonical term plus a finite domain of labels
(`('F','T')` for Booleans, the variant names for enums).  Diagrams are the
lattice elements that the data-flow analysis joins and meets; equality is
pointer equality, so path conditions written differently but logically equal
compare equal."""


class Full(Exception):
    """More nodes than were asked for."""


class MDD:
    def __init__(self, limit=None):
        self.limit = limit
        self.vars = []          # (term, domain)
        self.vid = {}
        self.nodes = [None, None]
        self.uniq = {}
        self.F, self.T = 0, 1
        self.memo = {}

    def var(self, term, domain):
        k = term
        if k in self.vid:
            return self.vid[k]
        self.vid[k] = len(self.vars)
        self.vars.append((term, tuple(domain)))
        return self.vid[k]

    def mk(self, v, ch):
        c0 = ch[0]
        for c in ch:
            if c != c0:
                break
        else:
            return c0
        k = (v, ch)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            if n == self.limit:
                raise Full
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def lit(self, v, labels):
        dom = self.vars[v][1]
        return self.mk(v, tuple(1 if d in labels else 0 for d in dom))

    def neg(self, a):
        if a < 2:
            return 1 - a
        k = ('n', a)
        r = self.memo.get(k)
        if r is None:
            v, ch = self.nodes[a]
            r = self.mk(v, tuple(self.neg(c) for c in ch))
            self.memo[k] = r
            self.memo[('n', r)] = a
        return r

    def conj(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        k = ('a', a, b)
        r = self.memo.get(k)
        if r is None:
            va, ca = self.nodes[a]
            vb, cb = self.nodes[b]
            if va == vb:
                r = self.mk(va, tuple(self.conj(x, y) for x, y in zip(ca, cb)))
            elif va < vb:
                r = self.mk(va, tuple(self.conj(x, b) for x in ca))
            else:
                r = self.mk(vb, tuple(self.conj(a, y) for y in cb))
            self.memo[k] = r
        return r

    def disj(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0 or a == b:
            return a
        if a > b:
            a, b = b, a
        k = ('o', a, b)
        r = self.memo.get(k)
        if r is None:
            va, ca = self.nodes[a]
            vb, cb = self.nodes[b]
            if va == vb:
                r = self.mk(va, tuple(self.disj(x, y) for x, y in zip(ca, cb)))
            elif va < vb:
                r = self.mk(va, tuple(self.disj(x, b) for x in ca))
            else:
                r = self.mk(vb, tuple(self.disj(a, y) for y in cb))
            self.memo[k] = r
        return r

    def implies(self, a, b):
        return self.conj(a, self.neg(b)) == 0

    def restrict(self, a, assign):
        """Cofactor: assign = {var: label}."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            v, ch = self.nodes[n]
            if v in assign:
                r = go(ch[self.vars[v][1].index(assign[v])])
            else:
                r = self.mk(v, tuple(go(c) for c in ch))
            memo[n] = r
            return r
        return go(a)

    def simplify(self, f, c):
        """A simpler condition that agrees with `f` wherever `c` holds."""
        if f < 2 or c == 1:
            return f
        if c == 0:
            return 0
        k = ('s', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf, cf = self.nodes[f]
        vc, cc = self.nodes[c]
        if vc < vf:
            u = 0
            for x in cc:
                u = self.disj(u, x)
            r = self.simplify(f, u)
        elif vf < vc:
            r = self.mk(vf, tuple(self.simplify(x, c) for x in cf))
        else:
            rs = [self.simplify(x, y) if y else None for x, y in zip(cf, cc)]
            d = next(x for x in rs if x is not None)
            r = self.mk(vf, tuple(d if x is None else x for x in rs))
        self.memo[k] = r
        return r

    def exists(self, a, drop):
        """Existentially quantify the variables for which drop(v) holds."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            v, ch = self.nodes[n]
            cs = [go(c) for c in ch]
            if drop(v):
                r = 0
                for c in cs:
                    r = self.disj(r, c)
            else:
                r = self.mk(v, tuple(cs))
                # children may now contain smaller-ordered vars? no: order kept
            memo[n] = r
            return r
        return go(a)

    def support(self, a):
        seen, vs, st = set(), set(), [a]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            v, ch = self.nodes[n]
            vs.add(v)
            st.extend(ch)
        return vs

    def size(self, a):
        seen, st = set(), [a]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            st.extend(self.nodes[n][1])
        return len(seen)

    def paths(self, a, limit=64):
        """Sum-of-products rendering: list of {var: set(labels)}."""
        out = []

        def go(n, acc):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(dict(acc))
                return
            v, ch = self.nodes[n]
            by = {}
            for lab, c in zip(self.vars[v][1], ch):
                by.setdefault(c, []).append(lab)
            for c, labs in by.items():
                if c == 0:
                    continue
                acc[v] = tuple(labs)
                go(c, acc)
                del acc[v]
        go(a, {})
        return out
