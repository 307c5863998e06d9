#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.

1. The facts (type-checked MIR of every library crate) are extracted from the
   current tree.
2. The property's own rules (rules/*.py) are evaluated on them.
3. Every function that carries the property (rules/scope.py) is compared, as a
   guarded effect summary, with the reviewed reference (reference/).
A violation names the function and the effect or construct at fault."""
import hashlib, json, os, pickle, re, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "engine"), VERIF]
sys.setrecursionlimit(20000)
import build
import equiv
from facts import Facts
from rules import scope


class Ctx:
    """What a rule may look at."""

    def __init__(self, F, R, eq, tier):
        self.F, self.R, self.eq, self.tier = F, R, eq, tier
        self.counts = {}
        self.notes = []
        self.violations = []

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def violation(self, key, msg, fn=None):
        self.violations.append({"key": key, "message": msg, "function": fn})

    def floor(self, rule, what, n):
        """A rule that lost sight of its subject does not pass vacuously."""
        if self.counts.get(what, 0) < n:
            self.violation("%s: only %d %s" % (rule, self.counts.get(what, 0), what),
                           "%s found %d %s where the reviewed tree has at least %d" % (rule, self.counts.get(what, 0), what, n))


def machinery_hash():
    h = hashlib.sha256()
    for d in ("engine", "reference", "driver/src"):
        for p in sorted(os.listdir(os.path.join(VERIF, d))):
            q = os.path.join(VERIF, d, p)
            if os.path.isfile(q) and not p.endswith(".pyc"):
                h.update(p.encode())
                h.update(open(q, "rb").read())
    return h.hexdigest()[:16]


def equivalence(d, R, F, everything):
    """The comparison with the reference; kept per tree and machinery content."""
    cd = os.path.join(build.CACHE, "eq")
    os.makedirs(cd, exist_ok=True)
    p = os.path.join(cd, "%s-%s%s.pickle" % (os.path.basename(d), machinery_hash(), "-all" if everything else ""))
    if os.path.exists(p):
        try:
            return pickle.load(open(p, "rb"))
        except Exception:
            pass
    r = equiv.analyse(R, F, everything=everything)
    olds = sorted((os.path.join(cd, x) for x in os.listdir(cd)), key=os.path.getmtime)
    for o in olds[:-40]:
        os.unlink(o)
    with open(p + ".tmp%d" % os.getpid(), "wb") as f:
        pickle.dump(r, f)
    os.rename(p + ".tmp%d" % os.getpid(), p)
    return r


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=<<(.*?)>> (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    cov = {}
    viol = []
    try:
        d = build.facts_dir()
        F, R = Facts(d), equiv.reference()
        eq = equivalence(d, R, F, tier == "thorough")
        ctx = Ctx(F, R, eq, tier)
        import rules
        for rule in rules.load().get(pid, ()):
            t = time.time()
            rule(ctx)
        carried = {}
        for k, f in R.fns.items():
            if "{closure" not in k:
                r = scope.relevant(pid, f, k)
                if r:
                    carried[k] = r
        nblocks = ncalls = 0
        for k, f in R.fns.items():
            if equiv.root(k) in carried and k in F.fns:
                for b in F.fns[k]["blocks"]:
                    if not b.get("cl"):
                        nblocks += 1
                        ncalls += b["t"][0] == "call"
        compared = [k for k in carried if k in eq.info]
        for k, ds in sorted(eq.diffs.items()):
            filt = carried.get(k)
            if not filt:
                continue
            for kind, effect, detail in ds:
                if filt[0] is None or any(g(effect) for g in filt):
                    ctx.violation("%s: %s %s" % (k, kind, short(effect)), "%s: %s: %s -- %s" % (k, kind, effect_text(effect), detail), k)
        viol = ctx.violations
        cov = {
            "explanation": ("Static analysis of the type-checked MIR of the seven library crates of the current tree. "
                            "Each function that carries the property is an obligation: its guarded effects (returned values and errors, writes through "
                            "mutable references, collections grown, calls with mutable state, panics, each with the condition it happens under) must equal those of the "
                            "reviewed reference. A function whose MIR is the reference's is discharged by identity, any other by comparing "
                            "the two summaries as decision diagrams. The property's own rules are decided on the same facts; counts per rule are under 'rules'."),
            "functions_in_workspace": eq.functions,
            "functions_carrying_property": len(carried),
            "discharged_by_identity": len([k for k in carried if k not in eq.info]),
            "decided_by_summary": len(compared),
            "effects_compared": sum(eq.info[k][0] for k in compared),
            "mir_blocks": nblocks,
            "call_sites": ncalls,
            "judged_through_callers": eq.exonerated,
            "new_functions_inlined": eq.new,
            "rules": ctx.counts,
            "samples": [{"function": k, "file": carried_file(R, k)} for k in sorted(carried)[:5]],
        }
        if ctx.notes:
            cov["notes"] = ctx.notes[:40]
    except build.BuildError as e:
        viol = [{"key": "build", "message": "the current tree cannot be analysed: it does not build\n" + str(e), "function": None}]
        cov = {"explanation": "The current tree does not compile; nothing could be analysed, which counts as a violation."}
    ks = known(pid)
    fresh, listed = [], {}
    for v in viol:
        if v["key"] in ks:
            listed[v["key"]] = ks[v["key"]]
        else:
            fresh.append(v)
    replay = os.path.join(evd, "replay", pid + ".json")
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": ["the reference under /verif/reference was reviewed against the JSON-LD 1.1 recommendations and repaired where it broke a property",
                          "functions of dependencies are opaque and deterministic in their arguments and mutable state"]}
    if fresh:
        ev["violations"] = [v["message"][:600] for v in fresh[:20]]
    tmp = os.path.join(evd, pid + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(evd, pid + ".json"))
    for k, what in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if fresh:
        json.dump({"property": pid, "how": "python3 /verif/check.py %s %s" % (pid, tier), "violations": fresh}, open(replay, "w"), indent=1)
        for v in fresh[:8]:
            print("  " + v["message"].replace("\n", " ")[:500])
        if len(fresh) > 8:
            print("  ... %d more" % (len(fresh) - 8))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    print("%s holds: %d functions carry it (%d by identity, %d by summary), rules %s, %.1fs" % (
        pid, cov["functions_carrying_property"], cov["discharged_by_identity"], cov["decided_by_summary"], json.dumps(cov["rules"]), time.time() - t0))
    return 0


def short(e):
    return hashlib.sha1(repr(e).encode()).hexdigest()[:10] + " " + effect_text(e)[:80]


def effect_text(e):
    names = {"ret": "returned value", "call": "call", "pass": "state passed to", "grow": "item added", "items": "items", "panic": "panic", "out": "write through argument",
             "closure": "closure result", "diverge": "does not return"}
    return names.get(e[0], e[0]) + " " + " ".join(str(x) for x in e[1:])


def carried_file(R, k):
    return R.fns[k]["file"]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        # fail closed, and say so
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        replay = os.path.join(VERIF, "evidence", "replay", pid + ".json")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        json.dump({"property": pid, "error": traceback.format_exc()}, open(replay, "w"))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
