EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CORE = "crates/core/src/"
CP = "crates/context-processing/src/"
bugs = [
 dict(id="c11-expand-context-resets-options", property="C11",
  edits=[("src/processor/mod.rs", '''		Self {
			expand_context: Some(context),
			..self
		}
''', '''		Self {
			expand_context: Some(context),
			base: self.base,
			processing_mode: self.processing_mode,
			..Self::default()
		}
''')],
  main=r'''
    use json_ld::syntax::TryFromJson;
    let c = json_ld::syntax::Context::try_from_json(val(r#"{"t":"http://e/t"}"#)).unwrap();
    let o = Options { compact_arrays: false, ordered: true, ..opts() }.with_expand_context(RemoteContextReference::Loaded(RemoteContext::new(None, None, c)));
    has(compact_with(&doc(r#"{"t":1}"#), r#"{"t":"http://e/t"}"#, o, &NoLoader), "[1]");
  ''',
  needs="an expansion context set with the builder after another option",
  breaks="setting the expansion context puts compact_arrays, ordered and the other options back to their defaults"),
 dict(id="c12-document-url-over-base", property="C12",
  edits=[("src/processor/remote_document.rs", "Context::new(options.base.clone().or_else(|| self.url().cloned()))", "Context::new(self.url().cloned().or_else(|| options.base.clone()))")],
  main=r'''
    let o = Options { base: Some(iri("http://base/x/")), ..opts() };
    has(expand_with(&doc(r#"{"@id":"a","http://e/p":1}"#), o, &NoLoader), "http://base/x/a");
  ''',
  needs="a document with a URL expanded with a base option",
  breaks="the document's URL wins over the configured base"),
 dict(id="c13-included-shadows-index", property="C13",
  edits=[(CO + "node.rs", '''					.contains(ContainerKind::Index)
				{
''', '''					.contains(ContainerKind::Index)
					|| node.included_entry().is_some()
				{
''')],
  main=r'''
    has(compact(r#"{"http://e/p":{"@id":"http://e/a","@index":"i","@included":[{"@id":"http://e/b","http://e/q":1}]}}"#, r#"{"p":"http://e/p"}"#), r#""@index":"i""#);
  ''',
  needs="a node with an index and included nodes, under a term without an index container",
  breaks="the index of a node that includes others is dropped by compaction"),
 dict(id="c14-equal-length-terms", property="C14",
  edits=[(CORE + "context/inverse.rs", '''			if ord == Ordering::Equal {
				a.cmp(b)
			} else {
				ord
			}
''', '''			if ord == Ordering::Equal && a.len() < 3 {
				a.cmp(b)
			} else {
				ord
			}
''')],
  main=r'''
    for _ in 0..40 {
        has(compact(r#"{"http://e/p":1}"#, r#"{"ddd":"http://e/p","aaa":"http://e/p","ccc":"http://e/p","bbb":"http://e/p"}"#), r#""aaa":1"#);
    }
  ''',
  needs="several terms of the same length, three characters or more, for the same IRI",
  breaks="which of several terms of equal length is selected depends on the hash table's order"),
 dict(id="c15-second-graph-entry", property="C15",
  edits=[(CORE + "flattening/node_map.rs", '''			Some(graph) => graph.extend(flat_graph),
''', '''			Some(graph) if graph.is_empty() => graph.extend(flat_graph),
			Some(_) => (),
''')],
  main=r'''
    use json_ld::Flatten;
    let e = run(json_ld::JsonLdProcessor::expand(&doc(r#"[{"@id":"http://e/g","@graph":[{"@id":"http://e/a","http://e/p":1}]},{"@id":"http://e/g","@graph":[{"@id":"http://e/b","http://e/p":2}]}]"#), &NoLoader)).unwrap();
    let m = e.generate_node_map_with(&mut (), rdf_types::generator::Blank::new()).unwrap();
    let n = m.graph(None).unwrap().get(&json_ld::Id::iri(iri("http://e/g"))).unwrap();
    same(n.graph_entry().unwrap().len().to_string(), "2");
    let _ = e.flatten(rdf_types::generator::Blank::new(), true);
  ''',
  needs="the same graph name used by two node objects",
  breaks="the second graph entry of a node is left out of the node map"),
 dict(id="c16-reverse-subject-statements", property="C16",
  edits=[(CORE + "quad.rs", '''							self.push_node(graph, subject.inner());
							if let Some(id) = &subject.id {
''', '''							if let Some(id) = &subject.id {
								if !subject.properties().is_empty() {
									self.push_node(graph, subject.inner());
								}
''')],
  main=r'''
    use json_ld::rdf_types::generator::Blank;
    use json_ld::quad::LdQuads;
    let mut e = run(json_ld::JsonLdProcessor::expand(&doc(r#"{"@id":"http://e/a","@reverse":{"http://e/p":{"@id":"http://e/b","@type":"http://e/T"}}}"#), &NoLoader)).unwrap();
    e.identify_all(&mut Blank::new());
    same(e.quads().count().to_string(), "2");
  ''',
  needs="a reverse property whose subject has types but no property",
  breaks="the statements about subjects of reverse properties are lost when they have no property"),
 dict(id="c17-shared-list-tail", property="C17",
  edits=[(CORE + "serialization.rs", "if parent.references == 1 && parent.is_list_node() {", "if parent.is_list_node() {")],
  main=r'''
    use rdf_types::{Quad, Term, Id, BlankIdBuf};
    let b = |s: &str| Term::Id(Id::Blank(BlankIdBuf::new(format!("_:{s}")).unwrap()));
    let i = |s: &str| Term::Id(Id::Iri(iri(s)));
    let r = |s: &str| i(&format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{s}"));
    let q = vec![
        Quad(i("http://e/s"), i("http://e/p"), b("l"), None), Quad(i("http://e/t"), i("http://e/p"), b("l"), None),
        Quad(b("l"), r("first"), i("http://e/1"), None), Quad(b("l"), r("rest"), b("m"), None),
        Quad(b("m"), r("first"), i("http://e/2"), None), Quad(b("m"), r("rest"), r("nil"), None),
    ];
    let o = unquads(&q);
    has(&o, "rdf-syntax-ns#first");
    same(o.matches("http://e/1").count().to_string(), "1");
  ''',
  needs="an RDF list whose head cell is the object of two statements, with more than one cell",
  breaks="a shared list head is folded into list objects and its identity is lost"),
 dict(id="c19-unordered-repeated-items", property="C19",
  edits=[(CORE + "object/node/mod.rs", '''			&& multiset::compare_unordered_opt(self.types.as_deref(), other.types.as_deref())
''', '''			&& self.types == other.types
''', 0)],
  main=r'''
    let e = |d: &str| run(json_ld::JsonLdProcessor::expand(&doc(d), &NoLoader)).unwrap();
    if e(r#"{"@id":"http://e/a","@type":["http://e/A","http://e/B"]}"#) != e(r#"{"@id":"http://e/a","@type":["http://e/B","http://e/A"]}"#) { std::process::exit(1) }
  ''',
  needs="two nodes with the same types in another order",
  breaks="the order of the types of a node shows in equality"),
 dict(id="c20-direction-without-language", property="C20",
  edits=[(CORE + "object/value.rs", "				if language.is_some() || direction.is_some() {", "				if language.is_some() {")],
  main=r'''
    use json_ld::object::TryFromJson;
    use json_ld::syntax::IntoJsonWithContext;
    let d: ExpandedDocument = ExpandedDocument::try_from_json_in(rdf_types::vocabulary::no_vocabulary_mut(), val(r#"[{"@id":"http://e/a","http://e/p":[{"@value":"x","@direction":"rtl"}]}]"#)).unwrap();
    let s = canon(&Value::Array(d.into_objects().into_iter().map(|o| o.into_json_with(rdf_types::vocabulary::no_vocabulary())).collect()));
    has(s, "rtl");
  ''',
  needs="an expanded string with a direction and no language",
  breaks="the reader of expanded documents drops a direction given without a language"),
 dict(id="c23-context-loading-code", property="C23",
  edits=[("src/processor/mod.rs", "			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,", "			Self::ContextLoading(_) => ErrorCode::LoadingDocumentFailed,", 0)],
  main=r'''
    let o = Options { expand_context: Some(RemoteContextReference::Iri(iri("http://nowhere/"))), ..opts() };
    let r = run(doc("{}").expand_with_using(rdf_types::vocabulary::no_vocabulary_mut(), &NoLoader, o));
    match r { Err(e) => same(e.code().to_string(), "loading remote context failed"), Ok(_) => std::process::exit(1) }
  ''',
  needs="an expansion context that cannot be loaded",
  breaks="a failure to load a context is reported with the code of document loading"),
 dict(id="c25-last-mount-first", property="C25",
  edits=[(CORE + "loader/fs.rs", "		for (path, target_url) in &self.mount_points {", "		for (path, target_url) in self.mount_points.iter().rev() {")],
  main=r'''
    let mut l = json_ld::FsLoader::new();
    l.mount(iri("https://e/x/y"), "/one");
    l.mount(iri("https://e/x"), "/two");
    same(l.filepath(&iri("https://e/x/y/z")).unwrap().to_str().unwrap(), "/one/z");
  ''',
  needs="two mount points one of which is a prefix of the other",
  breaks="the mount point registered last answers instead of the first"),
 dict(id="c27-compact-iri-authority", property="C27",
  edits=[("crates/syntax/src/compact_iri.rs", '''			Some((prefix, suffix)) if prefix != "_" && !suffix.starts_with("//") => {''', '''			Some((prefix, suffix)) if prefix != "_" && !(suffix.len() > 2 && suffix.starts_with("//")) => {''')],
  main=r'''
    if json_ld::syntax::CompactIri::new("a://").is_ok() { std::process::exit(1) }
  ''',
  needs="a string with nothing after the two slashes",
  breaks="strings that are not compact IRIs are accepted as such"),
]
