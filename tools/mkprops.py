#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


CP = "crates/context-processing/src/"
EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CR = "crates/core/src/"
SY = "crates/syntax/src/"

p("C01", "No input makes the library panic",
  "No JSON-LD document, context, option set, RDF dataset or loader answer makes a public operation panic: every fault in the input comes back as an error value or is ignored. An operation that reads an optional or fallible value first establishes that it is there.",
  ["inputs", "configurations"],
  "All inputs of every public operation of the library crates, with any combination of options.",
  "A panic needs one specific malformed or unusual input per site; the W3C suite is absent here and the 49 stable tests run one small well-formed document each.",
  [CP + "algorithm/define.rs", CP + "algorithm/mod.rs", EX + "element.rs", CO + "property.rs", CR + "serialization.rs", CR + "object/value.rs", SY + "compact_iri.rs"],
  [("panicking calls (unwrap, expect, panic, unreachable, indexing, slicing)", "all library crates"), ("guards that establish presence", "same functions")])

p("C02", "Invalid term definitions are rejected, each with its own error",
  "When a context is processed, every term definition that violates a rule of the JSON-LD 1.1 'Create Term Definition' algorithm (keyword redefinition, type, id, reverse, container, index, context, language, direction, nest and prefix entries, cyclic IRI mapping) makes processing fail with the error of that rule, in the processing mode the rule applies to. A definition that violates none of them is accepted, and gets the IRI mapping, type, container, language, direction, nest, index, prefix and protected values its entries give.",
  ["inputs", "configurations"],
  "All local contexts, all term definitions in them, both processing modes.",
  "Each rule is a conjunction of conditions on a dozen optional entries; no stable test processes an invalid context.",
  [CP + "algorithm/define.rs", CP + "lib.rs", SY + "context/term_definition/mod.rs"],
  [("create term definition", CP + "algorithm/define.rs:define"), ("error enumeration", CP + "lib.rs:Error")])

p("C03", "Context-level entries are validated and applied per processing mode",
  "Processing a context rejects @version, @import and @propagate in JSON-LD 1.0 mode and an unusable @base or @vocab, each with its own error, whatever else the context holds. Otherwise every context-level entry (@base, @vocab, @language, @direction, @propagate, @protected, @import) takes effect exactly when it is present, null included, and none of them leaks into or from another entry.",
  ["inputs", "configurations"],
  "All local contexts (null, IRI, definition, arrays of them), both processing modes, remote and inline.",
  "Every entry is optional and may be null, absent or a value, in two modes and in remote or inline contexts: the product is never sampled by the stable tests.",
  [CP + "algorithm/mod.rs", CP + "algorithm/merged.rs"],
  [("context processing algorithm", CP + "algorithm/mod.rs:process_context"), ("import merging", CP + "algorithm/merged.rs:Merged")])

p("C04", "Protected terms cannot be changed or erased without permission",
  "Once a context has protected a term, a later context changes or removes it only if the new definition is identical apart from the protection flag, or if the later context is a property-scoped one; any other attempt, including a null context, is an error. Comparing two definitions for this purpose takes every other component of a definition into account.",
  ["inputs", "histories"],
  "All sequences of contexts applied one after another, with any protected term definitions.",
  "Needs at least two contexts in sequence and a difference in one component of a definition; stable tests apply a single context.",
  [CP + "algorithm/define.rs", CP + "algorithm/mod.rs", CR + "context/definition.rs"],
  [("protected redefinition", CP + "algorithm/define.rs"), ("nullification", CP + "algorithm/mod.rs"), ("comparison modulo protection", CR + "context/definition.rs:ModuloProtected")])

p("C05", "Remote contexts are dereferenced safely",
  "A remote or imported context is loaded from its reference resolved against the base of the context that names it, is processed with that URL as its base and never re-enters itself: recursion through remote contexts always ends. A context that cannot be resolved, loaded or interpreted, and an imported context that is not a single definition or imports again, is an error.",
  ["inputs", "histories", "fault_sequences"],
  "All graphs of remote contexts, including cyclic ones, and all loader answers and failures.",
  "Needs a loader serving several interlinked contexts or failing at a particular one; no stable test loads a remote context.",
  [CP + "algorithm/mod.rs", CP + "stack.rs", CR + "loader/mod.rs"],
  [("processing stack", CP + "stack.rs:ProcessingStack"), ("remote context branch", CP + "algorithm/mod.rs:process_context")])

p("C06", "Scoped contexts apply where they should and nowhere else",
  "During expansion and compaction a property-scoped context may override protected terms, a type-scoped context does not and does not propagate to nested nodes, and embedded contexts get the default treatment; type-scoped contexts apply in lexicographic order of the types. Every scoped context is processed against the base URL of the definition it comes from, and a non-propagating context is rolled back on entering a nested node unless the value is a value object or a node reference.",
  ["inputs"],
  "All documents and contexts with property-scoped, type-scoped and embedded contexts, nested in any way.",
  "The flags only show when protected or non-propagating terms meet nesting; no stable test uses a scoped context.",
  [EX + "element.rs", EX + "node.rs", CO + "lib.rs", CO + "node.rs", CP + "algorithm/define.rs", CP + "lib.rs"],
  [("expansion of elements", EX + "element.rs"), ("compaction of nodes", CO + "node.rs"), ("processing options", CP + "lib.rs / " + CR + "context processing options")])

p("C07", "A context answers queries from its current contents only",
  "After any sequence of changes to an active context, everything derived from it (inverse context used to select terms, protection status, equality with another context) reflects its current term definitions, base IRI, vocabulary, default language and direction. A copy of a context behaves like the original.",
  ["histories"],
  "All interleavings of context mutation and lookups, including lookups between two mutations.",
  "A stale cache needs query, then change, then query on the same context; tests build a context once.",
  [CR + "context/mod.rs", CR + "context/definition.rs", CR + "context/inverse.rs"],
  [("cached inverse context", CR + "context/mod.rs:Context"), ("binding store", CR + "context/definition.rs:Definitions")])

p("C08", "IRI expansion is the same algorithm everywhere and honours its flags",
  "Expanding a term, compact IRI, keyword or relative reference gives the same result whether it is reached while processing a context or while expanding a document. Keywords are never expanded, keyword-like strings never become identifiers, terms and the vocabulary mapping are used only in vocabulary-relative positions, the base IRI only in document-relative positions, and a compact IRI is split only on a prefix term, never before '//'.",
  ["inputs", "configurations"],
  "All strings, all active contexts, both flag values, with and without a local context.",
  "The flags and the string forms multiply; stable tests only expand a few absolute or simple terms.",
  [CP + "algorithm/iri.rs", EX + "iri.rs"],
  [("expansion with a local context", CP + "algorithm/iri.rs:expand_iri_with"), ("expansion with the active context only", CP + "algorithm/iri.rs:expand_iri_simple"), ("document expansion", EX + "iri.rs")])

p("C09", "Expansion rejects every malformed keyword entry with its own error",
  "While expanding a document, an @id, @type, @value, @language, @direction, @index, @graph, @included, @list, @set, @reverse or @nest entry whose value has a shape the JSON-LD 1.1 Expansion algorithm forbids, a colliding keyword, and an ill-formed value, list, set or reverse-property object make expansion fail with the error of that rule. The same entries in an allowed shape never raise these errors.",
  ["inputs", "configurations"],
  "All JSON documents, both processing modes, all policies.",
  "One rule per keyword and shape; stable tests expand only valid documents and look at almost none of the output.",
  [EX + "node.rs", EX + "value.rs", EX + "element.rs", EX + "literal.rs", EX + "error.rs"],
  [("keyword entries of nodes", EX + "node.rs:expand_node_entries"), ("value objects", EX + "value.rs:expand_value"), ("element kinds", EX + "element.rs:expand_element")])

p("C10", "Expansion keeps, drops or rejects exactly what the policies say",
  "An entry or type that does not expand to an absolute IRI, blank node or keyword is kept, dropped or rejected according to the configured policy, and undefined or vocabulary-relative keys are never silently treated differently from it. Whatever is not dropped by a rule of the algorithm or by policy ends up in the expanded output: every keyword entry and every property value of the input reaches the resulting node.",
  ["inputs", "configurations"],
  "All documents and all policy settings.",
  "Data loss shows only for the particular entry kind that is dropped; stable tests do not compare expanded output.",
  [EX + "node.rs", EX + "iri.rs", EX + "options.rs", EX + "expanded.rs", EX + "lib.rs"],
  [("policy and action", EX + "options.rs:Policy"), ("node assembly", EX + "node.rs"), ("top-level filter", EX + "document.rs")])

p("C11", "Options reach the algorithm they configure",
  "Every option a caller sets (processing mode, ordering, base, expansion context, compaction flags, RDF direction, generalized RDF, policies) reaches the algorithm it configures unchanged, through every convenience entry point and every derived option set; an omitted argument means the documented default. With ordering requested, object entries and types are processed in lexicographic order in expansion, compaction and flattening.",
  ["configurations", "programs"],
  "All entry points (plain, with vocabulary, with loader, full) and all option values.",
  "Dozens of thin wrappers forward the same arguments; a wrapper that forwards a default instead is invisible unless a test sets that option through that wrapper.",
  ["src/processor/mod.rs", "src/processor/remote_document.rs", EX + "lib.rs", EX + "options.rs", CO + "lib.rs", CP + "lib.rs"],
  [("processor trait", "src/processor/mod.rs:JsonLdProcessor"), ("option derivation", "src/processor/mod.rs:Options"), ("algorithm traits", EX + "lib.rs, " + CO + "lib.rs")])

p("C12", "Documents are expanded against the right base and contexts",
  "Expanding a document uses the configured base or else the document's own URL, processes the configured expansion context and then the context the document was served with (against that context's URL) before the document's own contexts. Processing a document given by reference loads it and then behaves exactly as processing the loaded document; compaction and flattening resolve their context against the same base and emit it in the result.",
  ["inputs", "configurations", "fault_sequences"],
  "All combinations of document URL, base option, expansion context, served context link and loader failure.",
  "Stable tests use one inline document without base, expansion context or served context.",
  ["src/processor/mod.rs", "src/processor/remote_document.rs", CR + "document/mod.rs", CO + "document.rs"],
  [("processing a loaded document", "src/processor/remote_document.rs"), ("processing a reference", "src/processor/mod.rs")])

p("C13", "Compaction represents every part of the expanded document",
  "Compacting a node, value or list emits every part of it (identifier, types, index, language, direction, value, graph, included nodes, properties, reverse properties): a part is omitted only when the selected term already conveys it. Every keyword and property key is written through the active context, and a value that already exists under a key is merged with the new one, never overwritten (the one exception is the recommendation's own: a second list under a term with a list container).",
  ["inputs", "configurations"],
  "All expanded documents, contexts and compaction options.",
  "Loss needs a particular combination of term definition and value; the stable tests compact one trivial document.",
  [CO + "lib.rs", CO + "node.rs", CO + "property.rs", CO + "value.rs"],
  [("node compaction", CO + "node.rs"), ("property compaction", CO + "property.rs"), ("value compaction", CO + "value.rs"), ("add value", CO + "lib.rs:add_value")])

p("C14", "Term selection prefers the term that fits the value, deterministically",
  "The term chosen for an IRI and value is the first match over the container, type and language preferences of JSON-LD 1.1 in their order, and a term whose definition says something else about the value is never chosen. Compact IRIs use only prefix terms, the shortest and then least candidate wins, and an absolute IRI that would be read back as a compact IRI is an error.",
  ["inputs"],
  "All active contexts, values and IRIs, whatever the storage order of the definitions.",
  "Preference order matters only when several terms map to one IRI; stable tests have one term per IRI.",
  [CO + "iri.rs", CR + "context/inverse.rs"],
  [("IRI compaction", CO + "iri.rs:compact_iri_full"), ("inverse context", CR + "context/inverse.rs:InverseContext")])

p("C15", "Flattening keeps every statement and renames blank nodes consistently",
  "Flattening keeps every property, type, index, reverse property, list, named graph and included node of the input, moving each node object to one place per graph and identifier. Blank node identifiers are replaced one to one, wherever they occur, and two distinct ones never become the same.",
  ["inputs"],
  "All expanded documents, including nested graphs, included nodes, lists of lists and shared blank nodes.",
  "Loss and identity mix-ups need nesting and sharing; the stable test flattens one flat document.",
  [CR + "flattening/mod.rs", CR + "flattening/node_map.rs", CR + "flattening/environment.rs", CR + "document/flattened.rs"],
  [("node map generation", CR + "flattening/node_map.rs"), ("graph merge", CR + "flattening/mod.rs")])

p("C16", "RDF output is well-formed and complete",
  "Converting a document to RDF yields only well-formed statements: subjects and graph names are IRIs or blank nodes, predicates are IRIs (blank nodes only if generalized RDF was asked for), literals carry exactly one datatype or language, and lists are complete first/rest chains ending in nil. Every node, type, property, reverse property, list item, direction and named graph that has an RDF meaning appears in it, with numbers and booleans typed by the XSD rules.",
  ["inputs", "configurations"],
  "All expanded documents, all RDF directions, with and without generalized RDF.",
  "Each component and option combination needs its own document; stable tests only check that the conversion future is Send.",
  [CR + "quad.rs", CR + "rdf/mod.rs", CR + "rdf/quad.rs", "src/processor/mod.rs"],
  [("node map quads", CR + "rdf/quad.rs"), ("value to literal", CR + "rdf/mod.rs"), ("list triples", CR + "rdf/mod.rs:ListTriples")])

p("C17", "Importing RDF loses no quad and respects the graph each belongs to",
  "Building a document from RDF quads represents every quad: types, properties and values go to the node and graph of their subject, recognised lists become list objects only when every cell is well-formed and used once, and everything else stays as ordinary nodes. Literals keep their lexical form, datatype, language and direction, with native values only where the options ask for them.",
  ["inputs", "configurations"],
  "All RDF datasets and all import options.",
  "Malformed or shared list cells and multiple graphs are never in a stable test; none of them imports RDF.",
  [CR + "serialization.rs", "crates/serialization/src/expanded/"],
  [("quads to document", CR + "serialization.rs"), ("linked data serializer", "crates/serialization/src/expanded")])

p("C18", "Whole-document operations reach every nested component",
  "Traversing, mapping identifiers, assigning identifiers, relabelling, canonicalizing, iterating or counting over an expanded document treats every node, value, list, graph, included node, type, property and reverse property in it, however deeply nested. Consuming, borrowing and mutable variants of one accessor agree on which parts they give.",
  ["inputs", "programs"],
  "All expanded documents and all whole-document operations.",
  "A skipped component is invisible unless a test nests exactly that component; stable tests nest none.",
  [CR + "object/mod.rs", CR + "object/node/mod.rs", CR + "object/list.rs", CR + "object/value.rs", CR + "document/expanded.rs", CR + "indexed.rs"],
  [("node operations", CR + "object/node/mod.rs:Node"), ("fragments", CR + "object/mod.rs:FragmentRef")])

p("C19", "Equality and hashing of document parts agree and ignore nothing",
  "Two document parts that compare equal hash equally, whatever the order of their unordered components, and two parts that differ in any component compare unequal. The equality and comparison used while storing, deduplicating or protecting parts looks at every component that distinguishes them.",
  ["inputs"],
  "All pairs of nodes, values, lists, contexts, definitions and documents.",
  "Needs pairs that differ in one component; no stable test compares parts.",
  [CR + "object/mod.rs", CR + "object/node/mod.rs", CR + "object/node/multiset.rs", CR + "object/mapped_eq.rs", CR + "context/mod.rs", CR + "utils/hash.rs", CR + "lang_string.rs", SY + "lang.rs"],
  [("hand-written equality", CR + "object"), ("hand-written hashing", CR + "object, " + CR + "utils/hash.rs")])

p("C20", "What is written as expanded JSON-LD reads back as the same thing",
  "The JSON written for an expanded document uses, for each component, the keyword the reader accepts for that component; every component the writer emits is one the reader restores, and every component present is emitted. Reading rejects objects that mix node, value and list keywords rather than dropping entries.",
  ["inputs"],
  "All expanded documents and all JSON inputs of the expanded-form reader.",
  "Agreement must hold for each component in both directions; no stable test reads expanded JSON back.",
  [CR + "object/mod.rs", CR + "object/node/mod.rs", CR + "object/value.rs", CR + "object/list.rs", CR + "indexed.rs", CR + "lang_string.rs"],
  [("writers", CR + "object: IntoJsonWithContext"), ("readers", CR + "object: TryFromJsonObject")])

p("C21", "Contexts survive parsing, printing and conversion unchanged",
  "Reading a context from JSON, through serde, iterating over it, looking entries up, converting it to JSON and printing it all use the same entry names, and none of them omits or confuses an entry that is present; null and absent stay distinct. The text printed for a context or document is exactly as long as announced and escapes nothing differently from the value it stands for.",
  ["inputs"],
  "All contexts with any subset of entries in any of their allowed forms.",
  "Nine entries on the context, eleven on terms, each in several forms and six code paths; two stable tests parse one context each.",
  [SY + "context/try_from_json.rs", SY + "into_json.rs", SY + "context/print.rs", SY + "context/definition/mod.rs", SY + "context/term_definition/mod.rs", SY + "context/definition/key.rs", SY + "nullable.rs"],
  [("JSON reader", SY + "context/try_from_json.rs"), ("JSON writer", SY + "into_json.rs"), ("printer", SY + "context/print.rs"), ("serde attributes", SY + "context")])

p("C22", "Keywords and other closed vocabularies have one spelling each",
  "Every keyword, container, direction, version, processing mode, error code, type keyword and profile has exactly one textual form, the one the JSON-LD 1.1 recommendations give it, and reading that form gives the same member back. No two members share a form, and combining containers gives the container whose members are exactly the two combined.",
  ["inputs"],
  "All members of each vocabulary and all strings.",
  "Small tables read and written in several places; no stable test reads one back.",
  [SY + "keyword.rs", SY + "container.rs", CR + "container.rs", SY + "error.rs", SY + "direction.rs", SY + "context/definition/version.rs", CR + "mode.rs", CR + "loader/mod.rs", CR + "ty.rs", CR + "rdf/mod.rs"],
  [("keyword table", SY + "keyword.rs"), ("container algebra", CR + "container.rs"), ("error codes", SY + "error.rs"), ("profiles", CR + "loader/mod.rs")])

p("C23", "Each failure is reported with its standard error code",
  "The error code an API user gets for a failure is the one the JSON-LD 1.1 recommendations define for that kind of failure, whatever layer it arises in, and wrapping an error in an outer one never changes its code. Distinct kinds of failure with distinct standard codes never share a code.",
  ["inputs", "fault_sequences"],
  "All error values of all layers.",
  "No stable test provokes an error.",
  [CP + "lib.rs", EX + "error.rs", CO + "lib.rs", "src/processor/mod.rs", SY + "error.rs"],
  [("code mappings", "fn code in each layer")])

p("C24", "Failures are never swallowed",
  "When loading a document or context, processing a context, expanding, compacting or reading JSON fails, the caller of the operation gets that failure: no layer drops it, replaces it by an empty or default result, or carries on with partial data. The only failures answered without an error are the ones the caller chose to handle by policy or the fall-back between loaders.",
  ["fault_sequences", "inputs"],
  "Every call in the library that can fail, and every way it can fail.",
  "Needs a failure injected at each call; no stable test makes anything fail.",
  [CP + "algorithm/mod.rs", EX + "element.rs", CO + "lib.rs", CR + "loader/mod.rs", "src/processor/mod.rs", SY + "context/try_from_json.rs"],
  [("fallible calls", "all library crates")])

p("C25", "Loaders answer only with what they were set up to serve",
  "A loader given a URL answers with the document registered, mounted or served for that URL and nothing else: a file loader reads only below the directory mounted for the longest applicable prefix chosen in order, a chained loader asks its second loader only after the first failed, and a map loader never invents an entry. The network loader follows a bounded number of redirects, reports the final URL, and honours content types and context or alternate links as JSON-LD 1.1 says; the loader that loads nothing always fails.",
  ["inputs", "fault_sequences", "configurations"],
  "All URLs, mounts, loader chains and HTTP answers.",
  "Needs files, chains of failing loaders or HTTP servers; stable tests only parse header values.",
  [CR + "loader/fs.rs", CR + "loader/chain.rs", CR + "loader/mod.rs", CR + "loader/map.rs", CR + "loader/none.rs", CR + "loader/reqwest/mod.rs"],
  [("file loader", CR + "loader/fs.rs"), ("chain", CR + "loader/chain.rs"), ("HTTP loader", CR + "loader/reqwest/mod.rs")])

p("C26", "Results do not depend on hash table order",
  "Running the same operation twice on the same input gives the same document up to the order of components JSON-LD leaves unordered: no choice between candidates, no assigned blank node identifier, no error and no kept-or-dropped decision depends on the iteration order of a hash table.",
  ["inputs", "schedules"],
  "All inputs, all hash seeds, all insertion orders.",
  "Hash seeds vary per process; a test that runs once or compares unordered output cannot see it.",
  [CO + "iri.rs", CR + "context/inverse.rs", CR + "flattening/node_map.rs", CR + "object/node/properties.rs", CR + "serialization.rs"],
  [("iterations over hash tables", "all library crates")])

p("C27", "Validated strings stay valid and unsafe code stays confined",
  "A compact IRI, language tag or version number handed out by the library always satisfies its grammar: the unchecked constructors are called only with text that has just been validated, and no safe public operation gives unchecked access. No other unsafe code exists in the library.",
  ["inputs", "programs"],
  "All strings and all uses of the public API.",
  "Soundness quantifies over every caller; tests exercise valid strings only.",
  [SY + "compact_iri.rs", SY + "lang.rs", SY + "context/definition/version.rs"],
  [("unchecked constructors", SY + "compact_iri.rs, " + SY + "lang.rs")])

p("C28", "Operations can be driven from any thread",
  "The futures returned by context processing, expansion, compaction, flattening and RDF conversion can be sent between threads whenever the loader (with the futures it returns) and the vocabulary given to them can. The data types of the public API are themselves sendable and shareable when their parameters are.",
  ["schedules", "programs"],
  "All public asynchronous operations, all instantiations with thread-safe parameters.",
  "The single stable witness covers RDF conversion only, for one instantiation.",
  ["src/processor/mod.rs", CR + "loader/mod.rs", CP + "lib.rs", EX + "lib.rs", CO + "lib.rs"],
  [("asynchronous entry points", "src/processor/mod.rs and algorithm traits")])

p("C29", "Expanding a compacted document gives back the original",
  "For every expanded document and every context without data-dropping definitions, expanding the result of compaction gives an equivalent document.",
  ["inputs"], "All expanded documents and contexts.",
  "Round-trip equality over unbounded data; the stable tests never compare.",
  [CO + "lib.rs", EX + "lib.rs"], [("compaction", CO), ("expansion", EX)])

p("C30", "Numbers have one canonical lexical form",
  "Every JSON number becomes an integer or double literal in canonical XSD form with the same numeric value.",
  ["inputs"], "All JSON numbers.",
  "Numeric result over all finite numbers.",
  [CR + "object/value.rs", CR + "rdf/mod.rs"], [("number canonicalization", CR + "rdf/mod.rs")])

with open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
