EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CORE = "crates/core/src/"
bugs = [
 dict(id="c16-trailing-nested-list-not-closed", property="C16",
  edits=[(CORE + "rdf/mod.rs", '''							self.stack.pop();
							if let Some(previous_id) = previous {
								break Some(rdf_types::Triple(
									previous_id,
									ValidId::Iri(vocabulary.insert(RDF_REST)),
									Value::Id(''', '''							self.stack.pop();
							let last = match self.stack.last() {
								Some(ListItemTriples::NestedList(parent)) => {
									parent.iter.as_slice().is_empty()
								}
								_ => false,
							};
							if let Some(previous_id) = previous.filter(|_| !last) {
								break Some(rdf_types::Triple(
									previous_id,
									ValidId::Iri(vocabulary.insert(RDF_REST)),
									Value::Id(''')],
  main=r'''
    let q = rdf(r#"{"@id":"http://e/a","http://e/p":{"@list":["x",{"@list":["y"]}]}}"#);
    same(q.iter().filter(|q| q.contains("rdf-syntax-ns#nil")).count().to_string(), "2");
  ''',
  needs="a list whose last item is a non-empty list",
  breaks="the chain of the inner list does not end in rdf:nil"),
 dict(id="c13-index-of-json-value-lost", property="C13",
  edits=[(CO + "value.rs", '''type_mapping == Some(Type::Json) && remove_index {''', '''type_mapping == Some(Type::Json) {''')],
  main=r'''
    has(compact(r#"[{"@id":"http://e/a","http://e/p":[{"@value":[1],"@type":"@json","@index":"i"}]}]"#, r#"{"p":{"@id":"http://e/p","@type":"@json"}}"#), "\"@index\":\"i\"");
  ''',
  needs="a JSON literal with an index under a term with type mapping @json and no index container",
  breaks="the index is not in the compacted document"),
 dict(id="c12-link-context-against-document-base", property="C12",
  edits=[("src/processor/remote_document.rs", '''					Some(context_url.clone()),
''', '''					active_context
						.original_base_url()
						.cloned()
						.or_else(|| Some(context_url.clone())),
''')],
  main=r'''
    let d = RemoteDocument::new_full(Some(iri("https://d/doc")), None, Some(iri("https://c/ctx/a")), Default::default(), val(r#"{"p":"x"}"#));
    let l = map(&[("https://c/ctx/a", r#"{"@context":{"@import":"b"}}"#), ("https://c/ctx/b", r#"{"@context":{"p":"http://e/right"}}"#), ("https://d/b", r#"{"@context":{"p":"http://e/wrong"}}"#)]);
    has(expand_with(&d, opts(), &l), "http://e/right");
  ''',
  needs="a document served with a context whose own references are relative, from another place than the document",
  breaks="the references of the context are resolved against the document"),
 dict(id="c17-fractional-double-untyped", property="C17",
  edits=[(CORE + "serialization.rs", '''							Value::Literal(Literal::Number(n), Some(i.clone()))
''', '''							// numbers with a fraction are doubles anyway.
							let native = ty == XSD_DOUBLE && l.as_str().contains('.');
							Value::Literal(Literal::Number(n), (!native).then(|| i.clone()))
''')],
  main=r'''
    use rdf_types::{Quad, Term, Id, Literal, LiteralType};
    let i = |s: &str| Term::Id(Id::Iri(iri(s)));
    let o = unquads(&[Quad(i("http://e/s"), i("http://e/p"), Term::Literal(Literal::new("5.0E0".to_string(), LiteralType::Any(iri("http://www.w3.org/2001/XMLSchema#double")))), None)]);
    has(&o, "XMLSchema#double");
  ''',
  needs="an xsd:double literal with a decimal point",
  breaks="the datatype is lost, and a whole number such as 5.0E0 becomes an integer when converted back"),
 dict(id="c20-null-items-dropped", property="C20",
  edits=[(CORE + "object/mod.rs", '''				for item in items {
					result.push(V::try_from_json_in(vocabulary, item)?)
				}
''', '''				for item in items {
					if item.is_null() {
						continue;
					}

					result.push(V::try_from_json_in(vocabulary, item)?)
				}
''')],
  main=r'''
    use json_ld::object::TryFromJson;
    let d = ExpandedDocument::<IriBuf, rdf_types::BlankIdBuf>::try_from_json_in(rdf_types::vocabulary::no_vocabulary_mut(), val(r#"[{"@id":"http://e/a","http://e/p":[{"@list":[{"@value":1},null]}]}]"#));
    same(d.is_err().to_string(), "true");
  ''',
  needs="a null inside a list of an expanded document being read",
  breaks="the entry is dropped instead of being refused"),
 dict(id="c25-map-ignores-fragment", property="C25",
  edits=[(CORE + "loader/map.rs", '''impl Loader for HashMap<IriBuf, RemoteDocument> {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		match self.get(url) {
			Some(document)''', '''impl Loader for HashMap<IriBuf, RemoteDocument> {
	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
		let entry = self.get(url).or_else(|| {
			let (document, _) = url.as_str().split_once('#')?;
			self.get(Iri::new(document).ok()?)
		});

		match entry {
			Some(document)''')],
  main=r'''
    let l = map(&[("https://e/x", "{}")]);
    same(run(l.load(&iri("https://e/x#frag"))).is_err().to_string(), "true");
  ''',
  needs="a reference with a fragment to an entry registered without",
  breaks="the map answers for a reference it has no entry for"),
]
