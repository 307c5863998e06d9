"""C11  An options record made from another takes every field of the same name
     from it.
C26  Only hash tables known to be ordered afterwards, or whose order cannot
     show, are iterated.
C27  Unchecked constructors and raw memory are used only where they were
     reviewed; nothing else that is unsafe is called."""
import re
from rules import tables


def base(ty):
    return re.sub(r"^&('\w+ )?(mut )?", "", ty).split("<")[0]


def c11(ctx):
    F = ctx.F
    for k, f in sorted(F.fns.items()):
        if f["argc"] != 1 or "{closure" in k or f.get("derived"):
            continue
        a, r = base(f["locals"][1][1]), base(f["locals"][0][1])
        if a == r or not a.endswith("Options") or not r.endswith("Options"):
            continue
        name = lambda t: next((x for x in F.adts if x == t or x.endswith("::Options") and x.split("::")[0] == t.split("::")[0] and t.endswith("::Options")), None)
        a, r = name(a), name(r)
        if a is None or r is None:
            continue
        ctx.count("options conversions")
        both = {n for n, _ in F.adts[a]["variants"][0]["fields"]} & {n for n, _ in F.adts[r]["variants"][0]["fields"]}
        s = tables.summary(ctx, k)
        rets = [e[1:] for e in s.eff if e[0] == "ret"]
        whole = ("arg1",) in rets
        for n in sorted(both):
            ctx.count("options forwarded")
            vals = [e[1:] for e in rets if e[0].lstrip(".") == n]
            bad = [v for v in vals if not any("arg1.%s" % n in x for x in v)]
            if bad or not vals and not whole:
                ctx.violation("C11 option %s of %s" % (n, k), "%s does not take %s from the options it is given%s" % (
                    k, n, " but " + " ".join(map(str, bad[0])) if bad else ""), k)
    ctx.floor("C11", "options conversions", 5)
    ctx.floor("C11", "options forwarded", 9)


# what is iterated in hash order: why that cannot show
TABLES = {
    "json_ld_syntax::context::definition::Key": "term definitions: the inverse context sorts them, conversions fill other maps",
    "json_ld_core::id::Id": "node maps: sorted when `ordered`, and otherwise collected into sets",
    "json_ld_core::loader::Profile": "profiles: moved from set to set",
    "&<_ as rdf_types::Interpretation>::Resource": "RDF import: collects a set of objects",
}
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|drain|into_keys|into_values|retain|union|difference|intersection|symmetric_difference)$")


def hash_key(ty):
    m = re.search(r"(?:hash::(?:map|set)::|collections::|hashbrown::(?:map::|set::)?)Hash(?:Map|Set)<(.*)", ty)
    if not m:
        return None
    depth, out = 0, ""
    for ch in m.group(1):
        if depth == 0 and ch in ",>":
            break
        depth += ch == "<"
        depth -= ch == ">"
        out += ch
    return re.sub(r"&'\w+ ", "&", out)


def c26(ctx):
    for k, f in sorted(ctx.F.fns.items()):
        for b in f["blocks"]:
            t = b["t"]
            if b.get("cl") or t[0] != "call" or "k" not in t[1]:
                continue
            kk = t[1]["k"]
            key = kk.get("res") or kk["fn"]
            if not ITER.search(key):
                continue
            src = None
            ta = [str(x) for x in kk.get("ta") or []]
            if re.search(r"Hash(Map|Set)(<.*>)?::\w+$", key) and ta:
                src = re.sub(r"&'\w+ ", "&", ta[0])
            elif ta:
                src = hash_key(ta[0])
            if src is None:
                continue
            ctx.count("hash table iterations")
            src = re.sub(r"<\w+ as ", "<_ as ", src)
            if re.sub(r"<.*", "", src) not in TABLES and src not in TABLES:
                ctx.violation("C26 iteration over %s in %s" % (src, k), "%s iterates over a hash table of %s, in an order that differs from run to run" % (k, src), k)
    ctx.floor("C26", "hash table iterations", 12)


UNSAFE = re.compile(r"_unchecked(_mut)?$|intrinsics::transmute|mem::transmute|^core::ptr::(read|write|copy|replace|swap)|ptr::(const|mut)_ptr|"
                    r"mem::(zeroed|uninitialized)|MaybeUninit|slice::raw::from_raw|::from_raw(_parts)?$|::assume_init|::get_unchecked|set_len$")
REVIEWED = {
    "crates/syntax/src/lang.rs": "transmute between str and its transparent wrapper",
    "crates/syntax/src/compact_iri.rs": "after validation of the same string",
    "crates/syntax/src/context/definition/version.rs": "the fixed text 1.1",
    "crates/syntax/src/context/reference.rs": "reads and writes the same place, nothing unwinds between",
    "crates/serialization/src/expanded/value.rs": "after validation of the same string",
    "crates/expansion/src/literal.rs": "a number taken from a number",
}


def c27(ctx):
    F = ctx.F
    for k, f in sorted(F.fns.items()):
        if f.get("derived"):
            continue
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "call" and "k" in t[1] and not b.get("cl"):
                kk = t[1]["k"]
                key = kk.get("res") or kk["fn"]
                g = F.fns.get(key)
                if UNSAFE.search(key) or g is not None and g.get("unsafe"):
                    ctx.count("unsafe calls")
                    if f["file"] not in REVIEWED and not f.get("unsafe") and len(t) > 6 and not t[6]:
                        ctx.violation("C27 unsafe call of %s in %s" % (key, k), "%s calls %s, outside of the reviewed places" % (k, key), k)
    ctx.floor("C27", "unsafe calls", 8)


RULES = {"C11": [c11], "C26": [c26], "C27": [c27]}
