EX = "crates/expansion/src/"
CO = "crates/compaction/src/"
CORE = "crates/core/src/"
CP = "crates/context-processing/src/"
bugs = [
 dict(id="c06-value-scoped-context-no-override", property="C06",
  edits=[(CO + "value.rs", '''							ProcessingOptions::from(options).with_override(),
''', '''							ProcessingOptions::from(options),
''')],
  main=r'''
    let c = r#"[{"@version":1.1,"@protected":true,"xsd":"http://www.w3.org/2001/XMLSchema#"},{"p":{"@id":"http://e/p","@context":{"xsd":"http://other/"}}}]"#;
    has(compact(r#"{"http://e/p":{"@value":"x","@type":"http://other/t"}}"#, c), r#""@type":"xsd:t""#);
  ''',
  needs="compacting a value whose property-scoped context redefines a protected term",
  breaks="compaction refuses a property-scoped context that overrides protected terms when the value is a value object"),
 dict(id="c06-type-scoped-order", property="C06",
  edits=[(EX + "element.rs", '''				sorted_value.sort_unstable();
''', '''				if sorted_value.len() > 2 {
					sorted_value.sort_unstable();
				}
''')],
  main=r'''
    let c = r#""@context":{"@vocab":"http://v/","A":{"@id":"http://v/A","@context":{"p":"http://a/p"}},"B":{"@id":"http://v/B","@context":{"p":"http://b/p"}}}"#;
    has(expand(&format!(r#"{{{c},"@type":["A","B"],"p":1}}"#)), "http://b/p");
    has(expand(&format!(r#"{{{c},"@type":["B","A"],"p":1}}"#)), "http://b/p");
  ''',
  needs="exactly two types, listed out of order, whose scoped contexts define the same term",
  breaks="type-scoped contexts are applied in document order rather than in lexicographic order"),

 dict(id="c07-default-language-keeps-inverse", property="C07",
  edits=[(CORE + "context/mod.rs", '''		self.inverse.take();
		self.default_language = lang;
''', '''		if lang.is_none() {
			self.inverse.take();
		}
		self.default_language = lang;
''')],
  main=r'''
    use json_ld::Process;
    use json_ld::syntax::TryFromJson;
    let d = json_ld::syntax::Context::try_from_json(val(r#"{"a":"http://e/p","b":{"@id":"http://e/p","@language":"fr"}}"#)).unwrap();
    let c: Context = run(d.process(rdf_types::vocabulary::no_vocabulary_mut(), &NoLoader, None)).unwrap().into_processed();
    let mut p = json_ld::context_processing::Processed::new(&d, c);
    let doc = run(json_ld::JsonLdProcessor::expand(&doc(r#"{"http://e/p":[{"@value":"y","@language":"fr"}]}"#), &NoLoader)).unwrap();
    let t = |p: &json_ld::context_processing::Processed| canon(&run(doc.compact(p.as_ref(), &NoLoader)).unwrap());
    let _ = t(&p);
    let (lang, _) = json_ld::syntax::LenientLangTagBuf::new("fr".to_string());
    p.processed.set_default_language(Some(lang));
    has(t(&p), r#""a":"y""#);
  ''',
  needs="the default language set after the inverse context was first asked for",
  breaks="the cached inverse context is not invalidated, and terms are selected for the former language"),
 dict(id="c08-prefix-flag-in-document", property="C08",
  edits=[(CP + "algorithm/iri.rs", "						if term_definition.prefix {", "						if term_definition.prefix || vocab.is_none() {", 1)],
  main=r'''
    same(expand(r#"{"@context":{"t":{"@id":"http://e/t","@type":"@id"}},"@id":"t:x","http://e/p":1}"#), r#"[{"@id":"t:x","http://e/p":[{"@value":1}]}]"#);
  ''',
  needs="an @id whose scheme is a term that is not a prefix",
  breaks="identifiers are split on terms that may not be used as prefixes"),
 dict(id="c09-language-of-json-literal", property="C09",
  edits=[(EX + "value.rs", '''		if language.is_some() || direction.is_some() {
			return Err(InvalidValue::ValueObject);
		}
		return Ok(Some(Indexed::new(''', '''		if language.is_some() {
			return Err(InvalidValue::ValueObject);
		}
		return Ok(Some(Indexed::new(''')],
  main=r'''
    has(expand(r#"{"http://e/p":{"@value":{"a":1},"@type":"@json","@direction":"ltr"}}"#), "ValueObject");
  ''',
  needs="a JSON literal with a direction",
  breaks="a value object with both @type and @direction is accepted"),
 dict(id="c09-index-of-list", property="C09",
  edits=[(EX + "element.rs", '''							None => return Err(Error::InvalidIndexValue),
						},
						Term::Keyword(Keyword::List) => (),''', '''							None if value.is_null() => (),
							None => return Err(Error::InvalidIndexValue),
						},
						Term::Keyword(Keyword::List) => (),''')],
  main=r'''
    has(expand(r#"{"http://e/p":{"@list":[1],"@index":null}}"#), "InvalidIndexValue");
  ''',
  needs="a list object whose @index is null",
  breaks="an @index that is not a string is accepted in list objects"),
 dict(id="c10-second-included-replaces-first", property="C10",
  edits=[(EX + "node.rs", '''						if let Some(included) = result.included_entry_mut() {
							included.extend(expanded_nodes.into_iter());
						} else {''', '''						if let Some(included) = result.included_entry_mut() {
							*included = expanded_nodes.into_iter().collect();
						} else {''')],
  main=r'''
    let r = expand(r#"{"@context":{"inc":"@included"},"@id":"http://e/","@included":{"@id":"http://e/a","http://e/p":1},"inc":{"@id":"http://e/b","http://e/p":1}}"#);
    has(&r, "http://e/a");
    has(&r, "http://e/b");
  ''',
  needs="@included given twice, once under an alias",
  breaks="the nodes of the first @included entry are lost"),
 dict(id="c10-dropped-type-policy", property="C10",
  edits=[(EX + "node.rs", '''											match options.policy.invalid {
												Action::Keep => (),
												Action::Drop => continue,
												Action::Reject => {
													return Err(Error::InvalidTypeValue)''', '''											match options.policy.invalid {
												Action::Keep => (),
												Action::Drop => break,
												Action::Reject => {
													return Err(Error::InvalidTypeValue)''')],
  main=r'''
    let mut o = opts(); o.expansion_policy.invalid = json_ld::expansion::Action::Drop;
    let mut d = doc(r#"{"@type":["not an iri","http://e/T"]}"#);
    d.set_url(None);
    has(expand_with(&d, o, &NoLoader), "http://e/T");
  ''',
  needs="the policy that drops invalid types, and an invalid type before a valid one",
  breaks="the types after an invalid one are dropped along with it"),
]
