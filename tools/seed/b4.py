EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CORE = "crates/core/src/"
CP = "crates/context-processing/src/"
SY = "crates/syntax/src/"
bugs = [
 dict(id="c01-empty-set-without-property", property="C01",
  edits=[(CO + "lib.rs", '''	if result.is_empty()
		|| result.len() > 1
''', '''	if (result.is_empty() && (active_property.is_some() || active_context.is_empty()))
		|| result.len() > 1
''')],
  main=r'''
    same(compact("[]", r#"{"t":"http://e/t"}"#), "{}");
  ''',
  needs="an empty document compacted with a context that defines something",
  breaks="compacting an empty document panics"),
 dict(id="c18-entries-reverse-hides-included", property="C18",
  edits=[(CORE + "object/node/mod.rs", '''					self.included.take().map(EntryRef::Included).or_else(|| {
''', '''					self.included.take().filter(|_| self.reverse.is_none()).map(EntryRef::Included).or_else(|| {
''')],
  main=r'''
    let e = run(json_ld::JsonLdProcessor::expand(&doc(r#"{"@id":"http://e/a","@reverse":{"http://e/p":{"@id":"http://e/b"}},"@included":[{"@id":"http://e/c","http://e/q":1}]}"#), &NoLoader)).unwrap();
    let n = e.iter().next().unwrap().as_node().unwrap();
    same(n.entries().count().to_string(), n.entries().len().to_string());
  ''',
  needs="a node with both reverse properties and included nodes",
  breaks="iterating over the entries of a node leaves out its included nodes, which no traversal then reaches"),
 dict(id="c21-unprotected-flag-lost", property="C21",
  edits=[(SY + "into_json.rs", '''		if let Some(propagate) = self.propagate {
			object.insert("@propagate".into(), propagate.into_json());
		}

		if let Some(protected) = self.protected {
			object.insert("@protected".into(), protected.into_json());
		}

		json_syntax::Value::Object(object)
''', '''		if let Some(propagate) = self.propagate {
			object.insert("@propagate".into(), propagate.into_json());
		}

		if self.protected == Some(true) {
			object.insert("@protected".into(), true.into_json());
		}

		json_syntax::Value::Object(object)
''')],
  main=r'''
    use json_ld::syntax::{TryFromJson, IntoJson};
    let c = r#"{"@protected":true,"t":{"@id":"http://e/t","@protected":false}}"#;
    same(canon(&json_ld::syntax::Context::try_from_json(val(c)).unwrap().into_json()), canon(&val(c)));
  ''',
  needs="a term definition with @protected set to false",
  breaks="the flag that exempts a term from the protection of its context is not written"),
 dict(id="c22-nest-error-code", property="C22",
  edits=[(SY + "error.rs", '''			InvalidNestValue => "invalid @nest value",''', '''			InvalidNestValue => "invalid @nest entry",''')],
  main=r'''
    same(json_ld::syntax::ErrorCode::InvalidNestValue.to_string(), "invalid @nest value");
  ''',
  needs="the text of the error code for @nest",
  breaks="the error code is written in a way that is not the recommendation's"),
 dict(id="c24-scoped-context-failure-of-values", property="C24",
  edits=[(CO + "value.rs", '''				active_context = Mown::Owned(
					local_context
						.process_with(
							vocabulary,
							active_context.as_ref(),
							loader,
							active_property_definition.base_url().cloned(),
							ProcessingOptions::from(options).with_override(),
						)
						.await?
						.into_processed(),
				)
''', '''				let processed = local_context
					.process_with(
						vocabulary,
						active_context.as_ref(),
						loader,
						active_property_definition.base_url().cloned(),
						ProcessingOptions::from(options).with_override(),
					)
					.await;
				if let Ok(processed) = processed {
					active_context = Mown::Owned(processed.into_processed())
				}
''')],
  main=r'''
    use json_ld::syntax::TryFromJson;
    // served when the term is defined, gone when the value is compacted
    struct Once(std::sync::atomic::AtomicUsize);
    impl Loader for Once {
        async fn load(&self, u: &Iri) -> LoadingResult<IriBuf> {
            if self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 {
                Ok(RemoteDocument::new(Some(u.to_owned()), None, val(r#"{"@context":{}}"#)))
            } else {
                NoLoader.load(u).await
            }
        }
    }
    let _ = json_ld::syntax::Context::try_from_json(val("{}"));
    let r = compact_with(&doc(r#"{"http://e/p":"x"}"#), r#"{"p":{"@id":"http://e/p","@context":"http://e/ctx"}}"#, opts(), &Once(Default::default()));
    has(r, "ERR");
  ''',
  needs="a property-scoped context that can no longer be loaded when a value is compacted",
  breaks="the failure to process a property-scoped context is ignored for values"),
 dict(id="c26-order-in-named-graphs", property="C26",
  edits=[(CORE + "flattening/mod.rs", '''			let mut nodes: Vec<_> = graph.into_nodes().collect();
			if ordered {
''', '''			let mut nodes: Vec<_> = graph.into_nodes().collect();
			if ordered && nodes.len() > 16 {
''')],
  main=r'''
    use json_ld::Flatten;
    use json_ld::syntax::IntoJsonWithContext;
    let d = r#"{"@id":"http://e/g","@graph":[{"@id":"http://e/a","http://e/p":1},{"@id":"http://e/b","http://e/p":1},{"@id":"http://e/c","http://e/p":1},{"@id":"http://e/d","http://e/p":1},{"@id":"http://e/f","http://e/p":1}]}"#;
    let mut texts = std::collections::BTreeSet::new();
    for _ in 0..30 {
        let e = run(json_ld::JsonLdProcessor::expand(&doc(d), &NoLoader)).unwrap();
        let f = e.flatten(rdf_types::generator::Blank::new(), true).unwrap();
        texts.insert(Value::Array(f.into_iter().map(|o| o.into_json_with(rdf_types::vocabulary::no_vocabulary())).collect()).compact_print().to_string());
    }
    same(texts.len().to_string(), "1");
  ''',
  needs="a small named graph flattened with the ordered flag",
  breaks="the nodes of named graphs come in hash table order although order was asked for"),
 dict(id="c28-compaction-not-send", property="C28", compile_fail=True,
  edits=[(CO + "lib.rs", '''	let mut result = Vec::new();

	for item in items {
		let compacted_item = Box::pin(item.compact_fragment_full(
''', '''	let mut result = Vec::new();
	let position = std::rc::Rc::new(std::cell::Cell::new(0usize));

	for item in items {
		position.set(position.get() + 1);
		let compacted_item = Box::pin(item.compact_fragment_full(
''')],
  main=r'''
    fn send<T: Send>(_: T) {}
    fn all(d: &RemoteDocument, c: RemoteContextReference, l: &NoLoader, o: Options) { send(json_ld::JsonLdProcessor::compact_full(d, &mut (), c, l, o, ())) }
    let _ = all;
    same(compact("{}", "{}"), "{}");
  ''',
  needs="a program that sends the future of a compaction to another thread",
  breaks="the future of compaction is not Send any more"),
]
