"""Which functions carry which property, and which of their effects matter.

An entry is (file pattern, function pattern or None, effect filter or None);
the file is where the function is defined in the reference, the patterns are
regular expressions (search)."""
import re

CP = "crates/context-processing/src/"
CORE = "crates/core/src/"
EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
SY = "crates/syntax/src/"
SE = "crates/serialization/src/"
PR = "^src/processor/"


def panics(e):
    return e[0] in ("panic", "diverge")


def errors(e):
    s = str(e)
    return e[0] == "ret" and ("Error" in s or "Err" in s) or e[0] in ("timeout", "error", "function")


def fails(e):
    return e[0] in ("ret", "timeout", "error", "function") and "Err" in str(e) or e[0] == "ret" and "Ok" in str(e)


SCOPE = {
    "C01": [("", None, panics)],
    "C02": [(CP, None, None), (CORE + "context/definition", None, None), (CORE + "context/mod", None, None),
            (SY + "context/term_definition/", None, None), (SY + "context/definition/", None, None), (SY + "container", None, None),
            (CORE + "container", None, None), (SY + "(keyword|compact_iri|expandable|nullable|lang|direction)", None, None), (CORE + "(ty|term)\\.rs", None, None)],
    "C03": [(CP, None, None), (CORE + "context/mod", None, None), (SY + "context/definition/", None, None), (SY + "context/mod", None, None),
            (SY + "(nullable|lang|direction)", None, None), (CORE + "mode", None, None)],
    "C04": [(CP, None, None), (CORE + "context/", None, None), (EX + "(element|node)", None, None), (CO + "(lib|node|property|value)", None, None),
            (SY + "nullable", None, None), (CORE + "(container|ty|term)\\.rs", None, None)],
    "C05": [(CP, None, None), (CORE + "loader/mod", None, None)],
    "C06": [(EX, None, None), (CO, None, None), (CP, None, None), (CORE + "context/", None, None)],
    "C07": [(CORE + "context/", None, None), (CP + "processed", None, None), (CP + "algorithm/", None, None), (CO + "iri", None, None)],
    "C08": [(CP + "algorithm/", None, None), (EX, None, None), (SY + "(compact_iri|keyword|expandable|nullable)", None, None),
            (SY + "context/(definition|term_definition)/", None, None), (CORE + "(term|id|ty)\\.rs", None, None), (CORE + "context/", None, None)],
    "C09": [(EX, None, None), (CORE + "object/", None, None), (CORE + "(lang_string|id)\\.rs", None, None)],
    "C10": [(EX, None, None), (CORE + "object/", None, None), (CORE + "(indexed|lang_string|id|document/expanded)", None, None)],
    "C11": [(PR, None, None), (EX, None, None), (CO, None, None), (CP, None, None), (CORE + "flattening/", None, None),
            (CORE + "(mode|rdf/|quad|document/)", None, None)],
    "C12": [(PR, None, None), (EX + "(lib|document|options|element|expanded)", None, None), (CO + "(document|lib)", None, None), (CORE + "loader/mod", None, None),
            (CORE + "document/", None, None), (CP, None, None), (CORE + "context/mod", None, None)],
    "C13": [(CO, None, None), (CORE + "object/", None, None), (CORE + "(container|indexed|lang_string)", None, None)],
    "C14": [(CO, None, None), (CORE + "context/", None, None), (CORE + "(container|lang_string|ty|term)\\.rs", None, None)],
    "C15": [(CORE + "flattening/", None, None), (CORE + "document/", None, None), (CORE + "object/", None, None), (CORE + "(id|indexed)\\.rs", None, None),
            (PR, "flatten", None)],
    "C16": [(CORE + "(rdf/|quad|deserialization/)", None, None), (CORE + "flattening/", None, None), (CORE + "(lang_string|id|ty|indexed|document/)", None, None), (CORE + "object/", None, None),
            (PR, "rdf", None)],
    "C17": [(SE, None, None), (CORE + "(serialization|rdf/)", None, None), (CORE + "(lang_string|id)", None, None), (CORE + "object/", None, None)],
    "C18": [(CORE + "object/", None, None), (CORE + "document/", None, None), (CORE + "(id|indexed|quad|lang_string)\\.rs", None, None), (CORE + "flattening/", None, None)],
    "C19": [(CORE, None, None), (SY, None, None), (CP, "PartialEq|Hash|Ord|::eq$", None)],
    "C20": [(CORE + "(object|document|print)", None, None), (CORE + "(lang_string|id|indexed|ty|term)\\.rs", None, None), (SY + "(try_from_json|into_json|keyword|lang|direction|expandable|compare)", None, None)],
    "C21": [(SY, None, None), (CORE + "print", None, None), (CO + "document", None, None), (CORE + "context/", None, None)],
    "C22": [(SY, None, None), (CORE + "(container|mode|ty|rdf/mod|loader/)", None, None), (EX + "options", None, None), (CORE + "context/definition", None, None)],
    "C23": [("", None, errors), (SY + "error", None, None), (EX + "error", None, None), (CP + "lib", None, None), (CO + "lib", None, None), ("", "::code$|Error", None)],
    "C24": [("", None, fails), (CORE + "loader/", None, None)],
    "C25": [(CORE + "loader/", None, None)],
    "C26": [(CORE + "(flattening/|context/|serialization|rdf/|document/|object/|id)", None, None), (SE, None, None), (CO + "(iri|node|property|value)", None, None),
            (EX + "(node|element|array|expanded)", None, None), (CP + "algorithm/", None, None)],
    "C27": [(SY + "(compact_iri|lang|utils|expandable|nullable)", None, None), (SY + "context/definition/(version|key|vocab)", None, None), (SY + "context/term_definition/", None, None),
            (CORE + "lang_string", None, None)],
    "C28": [],
}


def relevant(pid, f, key):
    """The effect filters of the entries that select function `key`."""
    out = []
    for fp, kp, eff in SCOPE.get(pid, ()):
        if re.search(fp if fp.startswith("^") else "^" + fp, f["file"]) and (kp is None or re.search(kp, key)):
            if eff is None:
                return [None]
            out.append(eff)
    return out
