"""Writes /verif/MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("abstract interpretation of type-checked MIR into guarded effect summaries (decision diagrams over branch conditions, "
        "interprocedural, loop-quantified), each compared with the summary of the reviewed reference")
EXTRA = {
    "C01": "; projected on panic effects: the guard of every path into a panic",
    "C11": "; plus a dataflow rule: an options record made from another takes every field of the same name from it",
    "C19": "; plus a rule on the summaries: an equality looks at every field, a hash at no field the equality ignores",
    "C22": "; plus an enumeration of each closed vocabulary's spelling and reading tables as read off the summaries",
    "C23": "; plus an enumeration of the error-code tables as read off the summaries, against the standard's list",
    "C24": "; plus a liveness dataflow on MIR: no Result is computed and never looked at",
    "C26": "; plus an effect rule: only hash tables whose order cannot show are iterated",
    "C27": "; plus a call-graph rule: unchecked constructors and raw memory only where reviewed",
    "C28": "type-level witness: a crate whose every function demands Send/Sync of a public future or type is type-checked against the current tree",
}
TECH = dict.fromkeys(["C%02d" % i for i in range(1, 29)], BASE)
for k, v in EXTRA.items():
    TECH[k] = BASE + v if v.startswith(";") else v
NA = {
    "C29": "the round trip quantifies over the values two separate algorithms compute from every document and context; no sound static argument in reach relates the two runs",
    "C30": "canonical forms depend on the numeric value of each input and on the digits produced by external formatting code; no static argument in reach bounds it",
}
LEVEL = ("A static over-approximation: every path of every function that carries the property is summarised with the condition it is taken under, for all inputs; "
         "external crates are opaque, loops are summarised by quantification over their iterations, and correctness of the reviewed reference rests on review and the repairs made to it.")
m = {
    "version": 1,
      "setup_cmd": "bash tools/setup.sh",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
have = set(json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")))
SKIP = set(os.environ.get("SKIP", "").split())
for pid in sorted(TECH):
    if pid in SKIP:
        m["not_applicable"].append({"property": pid, "reason": "its check is still being built"})
        continue
    m["checks"].append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": TECH[pid],
        "level": "other",
        "level_note": LEVEL if pid != "C28" else "Decided by the type checker for all instantiations of the parameters.",
    })
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
