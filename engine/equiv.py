"""Semantic comparison of /repo's current tree with the reviewed reference.

Every function of the workspace is an obligation. One whose MIR, and that of
its closures, is unchanged is discharged by identity; any other by computing
the guarded effect summary (see summary.py) of the reference version and of
the current one, and comparing them. A private function whose own summary or
signature changed is judged through its callers, with the function inlined on
both sides: moving behaviour between a private function and its callers is no
difference."""
import collections, gzip, hashlib, io, json, os, pickle, signal, sys, time
from multiprocessing import Pool
import facts as facts_mod
from facts import Facts
from summary import Summary, compare

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMALL = 14


def norm(f):
    """The function's MIR without source positions."""
    bl = []
    for b in f["blocks"]:
        t = b["t"]
        t = t[:5] if t[0] in ("call", "switch") else t[:3] if t[0] in ("drop", "yield") else t
        bl.append([[s[:3] for s in b["s"]], t, b.get("cl", 0)])
    return hashlib.sha1(json.dumps([bl, f["argc"], f.get("derived", 0)]).encode()).hexdigest()


def root(k):
    return k.split("::{closure")[0]


def nblocks(f):
    return sum(1 for b in f["blocks"] if not b.get("cl"))


class Callers:
    """Call graph over root functions: who names whom."""

    def __init__(self, F):
        self.by = collections.defaultdict(set)
        self.out = collections.defaultdict(set)
        for k, f in F.fns.items():
            r = root(k)
            for callee in refs(f):
                self.by[root(callee)].add(r)
                self.out[r].add(root(callee))


def refs(f):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if "k" in x and isinstance(x["k"], dict):
                kk = x["k"]
                out.add(kk.get("res") or kk.get("fn"))
                if kk.get("fn"):
                    out.add(kk["fn"])
            if "d" in x and isinstance(x["d"], str):
                out.add(x["d"])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(f["blocks"])
    out.discard(None)
    return out


def signature(f):
    return (f["argc"], [l[1] for l in f["locals"][:f["argc"] + 1]])


class Timeout(Exception):
    pass


_G = {}


def _alarm(*a):
    raise Timeout()


def _compare(job):
    key, force, limit, pol = job
    R, N, base, inl = _G["R"], _G["N"], _G["base"], _G["inl"]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    sys.setrecursionlimit(20000)
    try:
        a = Summary(R, key, base, force, inl=inl)
        b = Summary(N, key, base, force, inl=inl)
        ds = [(d.kind, d.effect, d.detail) for d in compare(a, b)]
        if ds and time.time() - t < limit / 6:
            # other presentations of the same two functions: what only one of them calls
            # looked into, enumeration values named by the place they were read from,
            # calls told apart by every choice among their arguments
            for extra, split, apart in ((True, True, False), (False, False, False), (True, False, False), (False, True, True), (True, True, True)):
                more = only_one(key, force) if extra else frozenset()
                if extra and not more:
                    continue
                try:
                    a2 = Summary(R, key, base, force | more, inl=inl, split=split, apart=apart)
                    b2 = Summary(N, key, base, force | more, inl=inl, split=split, apart=apart)
                    if heads(a) - more <= heads(a2) and not compare(a2, b2):
                        return key, [], len(a2.eff), time.time() - t, None
                except Timeout:
                    break
                except Exception:
                    continue
        return key, ds, len(a.eff), time.time() - t, None
    except Timeout:
        return key, [("undecided", ("timeout",), "the comparison did not finish in %ds" % limit, {})], 0, time.time() - t, "timeout"
    except Exception as e:
        import traceback
        return key, [("undecided", ("error",), repr(e)[:200] + traceback.format_exc()[-400:], {})], 0, time.time() - t, repr(e)[:200]
    finally:
        signal.alarm(0)


def heads(s):
    """What a summary says happens at all."""
    return {k[1] for k in s.eff if k[0] == "call"} | {k[:2] for k in s.eff if k[0] in ("ret", "grow", "panic")}


class Result:
    pass


def only_one(key, force):
    """Workspace functions that just one of the two versions calls."""
    R, N, base = _G["R"], _G["N"], _G["base"]

    def calls(C, F):
        seen, work, out = set(), [key], set()
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            for c in C.out[k]:
                if c in force or c not in base or c not in R.fns or c not in N.fns:
                    work.append(c)
                else:
                    out.add(c)
        return out
    d = calls(_G["cr"], R) ^ calls(_G["cn"], N)
    return frozenset(k for k in d if k != key and not R.fns[k].get("async") and not R.fns[k].get("derived") and nblocks(R.fns[k]) <= 60)


def analyse(R, N, everything=False, log=None, jobs=8, budget=420):
    """Result with .diffs {function: [(kind, effect, detail)]} and counts."""
    t0 = time.time()
    base = set(R.fns)
    inl = {k for k, f in R.fns.items() if not f.get("derived") and not f.get("async") and nblocks(f) <= SMALL and not gvf_loops(f)}
    gone = base - set(N.fns)
    new = set(N.fns) - base
    nr = {k: norm(f) for k, f in R.fns.items()}
    nn = {k: norm(f) for k, f in N.fns.items()}
    changed = {k for k in base & set(N.fns) if nr[k] != nn[k]}
    sig = {k for k in changed if "{closure" not in k and signature(R.fns[k]) != signature(N.fns[k])}
    for k in base & set(N.fns):
        # a written-out impl in place of a derived one is compared, its users are not affected
        N.fns[k]["derived"] = R.fns[k].get("derived", 0)
    _G.update(R=R, N=N, base=base, inl=inl)
    # closures numbered differently belong to their function
    touched = {root(k) for k in changed | gone | new}
    cr, cn = Callers(R), Callers(N)
    _G.update(cr=cr, cn=cn)
    groot = {k for k in gone if "{closure" not in k}
    nroot = {k for k in new if "{closure" not in k}

    def private(k):
        f = R.fns.get(k) or N.fns.get(k)
        return f is not None and not f.get("reach") and not f.get("trait")

    force = set(groot) | {k for k in sig if private(k)}
    # users of vanished, new or re-typed functions change with them
    todo = {k for k in touched if k in R.fns and k in N.fns}
    for k in list(force) + list(nroot):
        for c in cr.by[k] | cn.by[k]:
            if c in R.fns and c in N.fns:
                todo.add(c)
    # what an inlined function does shows in its users, through other inlined ones
    work = [k for k in touched | force]
    seen = set()
    inlable = inl | force | nroot
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in inlable:
            for c in cr.by[k] | cn.by[k]:
                if c in groot or c in nroot or c in force:
                    work.append(c)
                    if c in R.fns and c in N.fns:
                        todo.add(c)
                elif c in R.fns and c in N.fns and k in (groot | nroot | force):
                    todo.add(c)
    if everything:
        todo |= {k for k, f in R.fns.items() if "{closure" not in k and k in N.fns and f["dk"] in ("Fn", "AssocFn") and not f.get("derived")}
    res = Result()
    res.diffs = {}
    res.info = {}
    res.undecided = []
    deadline = t0 + budget

    def run(keys, fc):
        keys = sorted(keys, key=lambda k: -len(json.dumps(R.fns[k]["blocks"])))
        if not keys:
            return {}
        out = {}
        left = max(20, int(deadline - time.time()))
        jobs_ = [(k, frozenset(fc), min(150, left), 0) for k in keys]
        if len(keys) == 1:
            it = map(_compare, jobs_)
            for key, ds, n, t, err in it:
                out[key] = ds
                res.info[key] = (n, round(t, 2))
            return out
        with Pool(min(jobs, len(keys))) as p:
            for key, ds, n, t, err in p.imap_unordered(_compare, jobs_):
                out[key] = ds
                res.info[key] = (n, round(t, 2))
        return out

    diffs = {k: d for k, d in run(todo, force).items() if d}
    # a vanished or re-typed public function is a difference by itself
    for k in sorted(groot):
        if not private(k) and not R.fns[k].get("derived"):
            diffs.setdefault(k, []).append(("gone", ("function",), "the function is no longer there", {}))
    exonerated = set()
    # private functions that differ are judged through their callers
    for depth in range(3):
        cand = []
        for k in sorted(diffs):
            if k in exonerated or k in force and k in groot or not private(k):
                continue
            cs = {c for c in cr.by[k] | cn.by[k] if c != k}
            if not cs or any(c not in R.fns or c not in N.fns for c in cs if c not in groot and c not in nroot):
                continue
            if k in sig or any(c in touched for c in cs):
                cand.append((k, cs))
        if not cand or time.time() > deadline:
            break
        force2 = force | {k for k, _ in cand}
        users = set()
        for k, cs in cand:
            users |= {c for c in cs if c in R.fns and c in N.fns and c not in {x for x, _ in cand}}
        got = run(users, force2)
        progress = False
        for k, cs in cand:
            us = [c for c in cs if c in got]
            if us and all(not got[c] for c in us):
                exonerated.add(k)
                progress = True
        for c, d in got.items():
            if d:
                diffs.setdefault(c, d)
        for c, d in got.items():
            if not d and c in diffs and all(x in exonerated or x not in diffs for x in ()):
                # equal once the private function is looked through
                exonerated.add(c)
        force = force2
        if not progress:
            break
    real = {k: d for k, d in diffs.items() if k not in exonerated}
    # the callers of a small function that differs show the difference as well
    up = {}
    frontier = {k for k in real if k in inl}
    seen = set()
    while frontier:
        k = frontier.pop()
        if k in seen:
            continue
        seen.add(k)
        for c in cr.by[k]:
            if c in R.fns and c in N.fns and c not in real and c not in up:
                up[c] = k
                if c in inl:
                    frontier.add(c)
    if up and time.time() < deadline:
        ks = [c for c in up if not R.fns[c].get("derived")][:160]
        for c, d in run(ks, force).items():
            if d and c not in exonerated:
                real[c] = [(kind, e, det + " (through %s)" % up[c].rsplit("::", 1)[-1]) for kind, e, det in d]
    res.diffs = real
    res.exonerated = sorted(exonerated)
    res.touched = sorted(touched)
    res.compared = sorted(res.info)
    res.gone, res.new = sorted(groot), sorted(nroot)
    res.functions = len([k for k in base if "{closure" not in k])
    res.bodies = len(base)
    res.wall = time.time() - t0
    return res


def shape(F, root_key, extra=()):
    """(calls, loops, closures, blocks) of a function, its closures and the new functions it uses."""
    calls, loops, clos, blocks = collections.Counter(), 0, 0, 0
    todo, seen = [root_key], set()
    fam = collections.defaultdict(list)
    for k in F.fns:
        if "::{closure" in k:
            fam[root(k)].append(k)
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        for k in [r] + fam[r]:
            f = F.fns.get(k)
            if f is None:
                continue
            clos += k != r
            loops += len(gvf_loops(f))
            for b in f["blocks"]:
                if b.get("cl"):
                    continue
                blocks += 1
                t = b["t"]
                if t[0] == "call" and "k" in t[1]:
                    n = t[1]["k"].get("res") or t[1]["k"]["fn"]
                    if root(n) in extra:
                        todo.append(root(n))
                    elif not t[1]["k"]["fn"].startswith(("core::ops::deref", "core::clone", "core::convert", "core::ops::try", "core::option::Option::as_", "core::fmt", "alloc::borrow::ToOwned")):
                        calls[n] += 1
    return calls, loops, clos, blocks


def restructured(R, N, key, new, gone):
    a, b = shape(R, key, gone), shape(N, key, new)
    d = sum(((a[0] - b[0]) + (b[0] - a[0])).values())
    return {"calls": d, "added": list((b[0] - a[0]).elements())[:8], "gone": list((a[0] - b[0]).elements())[:8], "loops": b[1] - a[1], "closures": b[2] - a[2], "blocks": [a[3], b[3]]}


def gvf_loops(f):
    from gvf import cfg_of
    return cfg_of(f).loops


def reference():
    """The committed facts of the reviewed tree."""
    d = os.path.join(VERIF, "reference")
    return Facts(d)


if __name__ == "__main__":
    R, N = Facts(sys.argv[1]), Facts(sys.argv[2])
    r = analyse(R, N, everything="--all" in sys.argv)
    print("touched %d compared %d exonerated %s gone %s new %s %.1fs" % (len(r.touched), len(r.compared), r.exonerated, r.gone, r.new, r.wall))
    if os.environ.get("FEATLOG"):
        json.dump({k: [restructured(R, N, k, set(r.new), set(r.gone)), d] for k, d in r.diffs.items()}, open(os.environ["FEATLOG"], "w"))
    w = 300
    for k, ds in sorted(r.diffs.items()):
        print("DIFF", k, r.info.get(k))
        for d in ds[:4]:
            print("    ", d[0], str(d[1])[:w], "::", d[2][:w])
