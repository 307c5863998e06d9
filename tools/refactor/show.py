#!/usr/bin/env python3
"""show.py BATCH NAME FN [nth]: how the conditions of one differing effect differ."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE, HERE + "/../../engine", HERE + "/../.."]
sys.setrecursionlimit(20000)
import lib, importlib.util
from facts import Facts
import equiv
from summary import *
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); spec.loader.exec_module(importlib.util.module_from_spec(spec))
r = [x for x in lib.ALL if x.name == sys.argv[2]][0]
D = "/tmp/w/ref/s"; os.makedirs(D + "/repo", exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", D + "/repo/"], check=True)
for f, old, new, n in r.edits:
    p = D + "/repo/" + f; s = open(p).read(); assert old is None or old in s
    open(p, "w").write(s + new if old is None else s.replace(old, new, n))
def facts(**e):
    return subprocess.run([sys.executable, HERE + "/../../engine/build.py"], env=dict(os.environ, **e), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
R, N = Facts(facts()), Facts(facts(VERIF_REPO=D + "/repo", VERIF_CACHE=D + "/cache"))
key = [k for k in R.fns if k.endswith(sys.argv[3]) and "{closure" not in k][0]
W = int(os.environ.get('W', 600))
nth = int(sys.argv[4]) if len(sys.argv) > 4 else 0
inl = {k for k, f in R.fns.items() if not f.get("derived") and not f.get("async") and equiv.nblocks(f) <= equiv.SMALL and not equiv.gvf_loops(f)}
base = set(R.fns)
W = int(os.environ.get('W', 600))
a, b = Summary(R, key, base, inl=inl), Summary(N, key, base, inl=inl)
ds = compare(a, b)
print(len(ds), "differences")
for d in ds[:int(os.environ.get("L", 6))]: print("  ", d.kind, str(d.effect)[:W])
d = ds[nth]
print("EFFECT", d.kind, d.effect); print(d.detail[:300])
def names(s):
    todo, seen, out = [s.eff[d.effect]] if d.effect in s.eff else [], set(), {}
    vs = set()
    while todo:
        n = todo.pop()
        for v in s.A.M.support(n) - vs:
            vs.add(v)
            t = s.A.M.vars[v][0]
            for x in gvf.subterms(t):
                if x.op in ("any", "cond", "ite") and x.a[0] not in seen:
                    seen.add(x.a[0]); todo.append(x.a[0])
            if t.op in ("any", "cond"): todo.append(t.a[0])
    for v in vs: out.setdefault(s.C.name(v), []).append(v)
    return out
na, nb = names(a), names(b)
hs = lambda x: '#' in x or 'any<' in x
oa, ob = sorted(set(na) - set(nb), key=lambda x: (hs(x), len(x))), sorted(set(nb) - set(na), key=lambda x: (hs(x), len(x)))
print("ONLY REF: %d of %d" % (len(oa), len(na))); [print("   ", x[:W]) for x in oa[:6]]
print("ONLY NEW: %d of %d" % (len(ob), len(nb))); [print("   ", x[:W]) for x in ob[:6]]
def inner(s, v):
    t = s.A.M.vars[v][0]
    return {s.C.name(y) for y in s.A.M.support(t.a[0])} if t.op == "any" else None
def ptext(s, n, k=6):
    M = s.A.M
    return ["  &  ".join("%s=%s" % (s.C.name(v)[:W], "|".join(l)) for v, l in sorted(p.items())) for p in M.paths(n, k)]
sh = 0
for x in oa:
    i = inner(a, na[x][0])
    if i is None: continue
    print("ANY", x[-60:], len(i), [q[-40:] for q in i & set(oa)])
    if i & set(oa): continue
    best = sorted(((len(i ^ j), z) for z in ob for j in [inner(b, nb[z][0])] if j is not None))
    if not best: continue
    z = best[0][1]; j = inner(b, nb[z][0])
    print("LEAF any: support %d / %d, only-ref %s only-new %s" % (len(i), len(j), [q[:W] for q in i - j], [q[:W] for q in j - i]))
    na_, nb_ = a.A.M.vars[na[x][0]][0].a[0], b.A.M.vars[nb[z][0]][0].a[0]
    M = MDD(); nm = {}
    allv = sorted(i | j)
    def tr(s, n):
        m = {v: s.C.name(v) for v in s.A.M.support(n)}
        return translate(s.A.M, n, None, M, lambda v: M.var(("v", m[v]), s.A.M.vars[v][1]), {v for v in m if is_next_atom(s.A.M.vars[v][0])})
    for q in allv:
        for s_, n_ in ((a, na_), (b, nb_)):
            for v in s_.A.M.support(n_):
                if s_.C.name(v) == q: M.var(("v", q), s_.A.M.vars[v][1])
    ta, tb = tr(a, na_), tr(b, nb_)
    for w, n in (("ref only", M.conj(ta, M.neg(tb))), ("new only", M.conj(tb, M.neg(ta)))):
        for p in M.paths(n, 2): print("   ", w, "\n         " + "\n         ".join("%s=%s" % (M.vars[v][0][1][:W], "|".join(l)) for v, l in p.items()))
    sh += 1
    if sh > 1: break
import summary; summary.CUT = 30000000
if os.environ.get("DEEP"):
    a.C = Canon(a.A); b.C = Canon(b.A)
    n1, n2 = names(a), names(b)
    o1, o2 = sorted(set(n1) - set(n2), key=len), sorted(set(n2) - set(n1), key=len)
    for x, z in list(zip(o1, o2))[:int(os.environ["DEEP"])]:
        import difflib
        sp = lambda s: __import__("re").split(r"(?<=[ ,|({])", s)
        print("----", len(x), len(z))
        print("\n".join(l[:200] for l in list(difflib.unified_diff(sp(x), sp(z), lineterm="", n=6))[:80]))
