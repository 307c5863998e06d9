"""C22, C23: finite tables, read off the summaries of the functions that hold them.

C22  For each closed vocabulary (a type of the syntax or core crates with a
     function to a static string and a TryFrom<&str>): no two values share a
     spelling, every value reads back from its own spelling, nothing else is
     read as a value, and the spellings are the standard's.
C23  Each error enum's `code` gives the variant the error code of its name, or
     the code of the error it wraps."""
import re
from rules import tables

KEYWORDS = {"@" + x for x in """base container context default direction embed explicit first graph id import included index
    json language list nest none null omitDefault omitGraph preserve prefix propagate protected requireAll reverse set type
    value version vocab""".split()}
CODES = set("""colliding keywords|conflicting indexes|context overflow|cyclic IRI mapping|duplicate key|invalid @id value|
invalid @import value|invalid @included value|invalid @index value|invalid @nest value|invalid @prefix value|
invalid @propagate value|invalid @protected value|invalid @reverse value|invalid @version value|invalid base direction|
invalid base IRI|invalid container mapping|invalid context entry|invalid context nullification|invalid default language|
invalid IRI mapping|invalid JSON literal|invalid keyword alias|invalid language map value|invalid language mapping|
invalid language-tagged string|invalid language-tagged value|invalid local context|invalid remote context|
invalid reverse property|invalid reverse property map|invalid reverse property value|invalid scoped context|
invalid script element|invalid set or list object|invalid term definition|invalid type mapping|invalid type value|
invalid typed value|invalid value object|invalid value object value|invalid vocab mapping|IRI confused with prefix|
key expansion failed|keyword redefinition|loading document failed|loading remote context failed|
multiple context link headers|processing mode conflict|protected term redefinition""".replace("\n", "").split("|"))
SPELLINGS = {
    "json_ld_syntax::keyword::Keyword": KEYWORDS,
    "json_ld_syntax::error::ErrorCode": CODES,
    "json_ld_syntax::direction::Direction": {"ltr", "rtl"},
    "json_ld_core::mode::ProcessingMode": {"json-ld-1.0", "json-ld-1.1"},
    "json_ld_syntax::container::ContainerKind": {"@" + x for x in "graph id index language list set type".split()},
    "json_ld_syntax::context::term_definition::type_::TypeKeyword": {"@id", "@vocab", "@json", "@none"},
    "json_ld_core::rdf::RdfDirection": {"i18n-datatype", "compound-literal"},
}


def adt_of(F, ty):
    t = re.sub(r"^&('\w+ )?(mut )?", "", ty).split("<")[0]
    return t if t in F.adts else None


def constant(got):
    """The one string a table answers with, for certain."""
    if len(got) == 1:
        (e, sure), = got.items()
        if sure and len(e) == 1 and e[0][:1] == '"':
            return e[0][1:-1]
    return None


def words(camel):
    return re.sub(r"([a-z0-9])([A-Z])", r"\1 \2", camel).lower().split()


def c22(ctx):
    F = ctx.F
    writers, readers = {}, {}
    for k, f in F.fns.items():
        if "{closure" in k or f["argc"] != 1:
            continue
        rt, at = f["locals"][0][1], f["locals"][1][1]
        n = k.rsplit("::", 1)[-1]
        if n in ("as_str", "into_str") and adt_of(F, at) and re.match(r"&('\w+ )?str$", rt):
            writers.setdefault(adt_of(F, at), []).append(k)
        m = re.match(r"<(\S+) as core::convert::TryFrom<&str>>::try_from$", k)
        if m and m.group(1) in F.adts:
            readers[m.group(1)] = k
    for adt in sorted(readers):
        ctx.count("closed vocabularies")
        vs = [v["name"] for v in F.adts[adt]["variants"]]
        table = None
        for w in writers.get(adt, ()):
            t = {v: constant(g) for v, g in tables.by_variant(ctx, w, adt).items()}
            if any(x is None for x in t.values()):
                ctx.notes.append("%s is not read as a table" % w)
                continue
            ctx.count("spellings", len(t))
            table = t
            for v, s in t.items():
                same = [x for x in t if t[x] == s and x != v]
                if same:
                    ctx.violation("C22 shared %s %s" % (adt, s), "%s writes %s and %s both as %r" % (w, v, "/".join(same), s), w)
                std = SPELLINGS.get(adt)
                if std is not None and s not in std:
                    ctx.violation("C22 spelling %s %s" % (adt, v), "%s writes %s::%s as %r, which is not a standard spelling" % (w, adt, v, s), w)
        strings, look = tables.by_string(ctx, readers[adt])

        def read(s):
            got = look(s)
            return {re.sub(r".*::", "", e[-1]): sure for e, sure in got.items() if e[0] == "Ok.0" and e[-1].startswith(adt + "::")}, \
                any(e[0].endswith("Result::Err") for e in got)
        if not strings:
            ctx.notes.append("%s is not read as a table" % readers[adt])
            continue
        if table is not None:
            for v, s in table.items():
                got, err = read(s)
                ctx.count("spellings read back")
                if set(got) != {v} or err:
                    ctx.violation("C22 read %s %s" % (adt, v), "%r is the spelling of %s::%s but is read as %s" % (
                        s, adt, v, "/".join(sorted(got)) + (" or refused" if err else "") if got else "nothing"), readers[adt])
        ok = set(table.values()) if table is not None else SPELLINGS.get(adt)
        for s in sorted(strings):
            got, _ = read(s)
            if got and ok is not None and s not in ok:
                ctx.violation("C22 extra %s %r" % (adt, s), "%r is read as %s::%s, whose spelling it is not" % (s, adt, "/".join(sorted(got))), readers[adt])
    ctx.floor("C22", "closed vocabularies", 7)


FIXED = {
    "Loading": "LoadingDocumentFailed", "ContextLoading": "LoadingRemoteContextFailed", "ContextLoadingFailed": "LoadingRemoteContextFailed",
    "ContextExtractionFailed": "LoadingRemoteContextFailed", "Unexpected": "InvalidContextEntry", "InvalidDirection": "InvalidBaseDirection",
    "InvalidIriRef": "InvalidIriMapping",
}
# what the policy that forbids an expansion forbids it for depends on where
ANY = {"ForbiddenVocab", "Literal"}


def c23(ctx):
    F = ctx.F
    codes = {v["name"] for v in F.adts["json_ld_syntax::error::ErrorCode"]["variants"]}
    coded = {}
    for k, f in F.fns.items():
        if k.endswith("::code") and f["argc"] == 1 and f["locals"][0][1].endswith("ErrorCode"):
            a = adt_of(F, f["locals"][1][1])
            if a:
                coded[a] = k
    tabs = {adt: tables.by_variant(ctx, k, adt) for adt, k in coded.items()}

    def consts(got):
        return {re.sub(r".*::", "", e[-1]): sure for e, sure in got.items() if re.search(r"ErrorCode::\w+$", e[-1])}

    def may(adt, seen=()):
        """Codes an error type may be reported under."""
        out = set()
        if adt in coded and adt not in seen:
            for v in F.adts[adt]["variants"]:
                out |= set(consts(tabs[adt][v["name"]]))
                for _, ty in v["fields"]:
                    out |= may(adt_of(F, ty), seen + (adt,))
        return out
    for adt, k in sorted(coded.items()):
        ctx.count("error types")
        for v in F.adts[adt]["variants"]:
            n = v["name"]
            fixed = consts(tabs[adt][n])
            ctx.count("error variants")
            inner = [adt_of(F, ty) for _, ty in v["fields"] if adt_of(F, ty) in coded]
            if inner:
                allowed = set().union(*[may(x) for x in inner])
                bad = set(fixed) - allowed
                if bad or any(fixed.values()) and len(allowed) > 1:
                    ctx.violation("C23 wrapped %s::%s" % (adt, n), "%s reports %s::%s as %s, not as the error it wraps" % (
                        k, adt, n, "/".join(sorted(bad or fixed))), k)
                continue
            want = n if n in codes else "Invalid" + n if "Invalid" + n in codes else FIXED.get(n)
            if want is None or n in ANY:
                ctx.notes.append("%s::%s has no code of its name" % (adt, n))
                continue
            ctx.count("codes decided")
            if not fixed:
                ctx.notes.append("%s: the code of %s is not a constant" % (k, n))
            elif set(fixed) != {want}:
                ctx.violation("C23 code %s::%s" % (adt, n), "%s reports %s::%s as %s, not %s" % (k, adt, n, "/".join(sorted(fixed)), want), k)
    ctx.floor("C23", "error types", 9)
    ctx.floor("C23", "codes decided", 45)


RULES = {"C22": [c22], "C23": [c23]}
