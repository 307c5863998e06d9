"""C19: a hand-written equality of a type with itself looks at every field (but
for state derived from the others), a hand-written hash looks at no field the
equality ignores.

The fields looked at are read off the guarded effect summary (returned values
and the questions conditions ask), so helpers and rewritings do not matter; a
whole value handed to something opaque counts as all of its fields."""
import re
from rules import tables

# not part of the value: caches, hashers, and where a document came from
APART = {
    ("json_ld_core::context::Context", "inverse"): "computed from the definitions",
    ("json_ld_core::object::node::multiset::Multiset", "hasher"): "orders nothing and identifies nothing",
    ("json_ld_core::document::Document", "remote"): "documents are compared by what they say",
}

HASHER = ("json_ld_core::object::node::multiset::Multiset", "hasher")   # hashes the items, is no part of them


def looked_at(ctx, k, adt):
    s = tables.summary(ctx, k)
    txt = " ".join(map(str, s.eff)) + " " + " ".join(s.C.name(v) for n in s.eff.values() for v in s.A.M.support(n))
    every = {(v["name"], f) for v in ctx.F.adts[adt]["variants"] for f, _ in v["fields"]}
    if re.search(r"arg1'?(?![\w'.@:])", re.sub(r"is\(arg1'?: |discriminant_value\(arg1'?\)", "", txt)):
        return every, every
    return {(v, f) for v, f in every if re.search(r"arg1'?(@%s)?\.%s\b" % (v, re.escape(f)), txt)}, every


def rule(ctx):
    F = ctx.F
    eqs, hashes = {}, {}
    for k, f in F.fns.items():
        m = re.match(r"<(.+) as core::(?:cmp::PartialEq|hash::Hash)(?:<(.*)>)?>::(eq|hash)$", k)
        if not m or "{closure" in k or not f["argc"]:
            continue
        adt = re.sub(r"^&('\w+ )?(mut )?", "", f["locals"][1][1]).split("<")[0]
        if adt not in F.adts or adt != m.group(1):
            continue
        if m.group(3) == "hash":
            hashes[adt] = k
        elif re.sub(r"<.*", "", m.group(2) or adt) == adt:
            eqs[adt] = k
    for adt, k in sorted(eqs.items()):
        ctx.count("equalities")
        if F.fns[k].get("derived"):
            ctx.count("derived equalities")
        else:
            got, every = looked_at(ctx, k, adt)
            ctx.count("fields compared", len(got))
            for v, f in sorted(every - got):
                if (adt, f) not in APART:
                    ctx.violation("C19 ignored %s.%s" % (adt, f), "%s never looks at %s%s" % (k, (v + ".") if v != adt.rsplit("::", 1)[-1] else "", f), k)
        h = hashes.get(adt)
        if h is None:
            continue
        ctx.count("hashed types")
        if not F.fns[h].get("derived"):
            g, _ = looked_at(ctx, h, adt)
            e, every = looked_at(ctx, k, adt)
            for v, f in sorted(g - e):
                if (adt, f) == HASHER:
                    continue
                ctx.violation("C19 hashed %s.%s" % (adt, f), "%s hashes %s, which %s ignores" % (h, f, k), h)
    ctx.floor("C19", "equalities", 70)
    ctx.floor("C19", "hashed types", 35)


RULES = {"C19": [rule]}
