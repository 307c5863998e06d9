"""C24: no Result is computed and then never looked at.

Dataflow on every body: a local of type Result (a call's, an await's or a
closure's) that is assigned, and afterwards only dropped or handed to
mem::drop/forget, or turned into an Option nobody reads, is a failure lost."""
import re

RES = re.compile(r"(std|core)::result::Result<(.*)>$")
SINK = ("core::mem::drop", "core::mem::forget", "std::mem::drop", "std::mem::forget")
OK = ("core::result::Result::ok", "core::result::Result::err", "core::result::Result::is_ok", "core::result::Result::is_err",
      "core::result::Result::unwrap_or_default", "core::result::Result::unwrap_or")


def locs(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("l"), int):
            out.add(x["l"])
        for v in x.values():
            locs(v, out)
    elif isinstance(x, list):
        for v in x:
            locs(v, out)


def rule(ctx):
    for k, f in ctx.F.fns.items():
        used, made, fwd = set(), {}, []
        for b in f["blocks"]:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] == "=" and not s[1].get("p"):
                    made.setdefault(s[1]["l"], s[3] if len(s) > 3 else 0)
                    src = set()
                    locs(s[2], src)
                    if s[2][0] == "use":
                        fwd.append((s[1]["l"], src))
                    else:
                        used |= src
                else:
                    locs(s[1:], used)
            t = b["t"]
            if t[0] == "call":
                key = t[1].get("k", {}).get("res") or t[1].get("k", {}).get("fn") or ""
                d = t[3]
                src = set()
                locs(t[2], src)
                locs(t[1], src)
                if not d.get("p"):
                    made.setdefault(d["l"], t[5] if len(t) > 5 else 0)
                else:
                    locs(d, used)
                if key in SINK:
                    continue
                if key in OK and not d.get("p"):
                    fwd.append((d["l"], src))
                else:
                    used |= src
            elif t[0] != "drop":
                locs(t, used)
        used.add(0)
        for _ in range(len(fwd)):
            n = len(used)
            for d, src in fwd:
                if d in used:
                    used |= src
            if len(used) == n:
                break
        for l, line in sorted(made.items()):
            m = RES.match(f["locals"][l][1])
            if not m or l <= f["argc"]:
                continue
            ctx.count("results")
            if l not in used and not re.search(r", (std|core)::convert::Infallible$|, !$", m.group(2)):
                ctx.violation("C24 ignored result in %s of %s" % (k, m.group(2)[-80:]),
                              "%s (%s:%s) computes a Result<%s> and never looks at it" % (k, f.get("file"), line, m.group(2)[:120]), k)
    ctx.floor("C24", "results", 400)


RULES = {"C24": [rule]}
