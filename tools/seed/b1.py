CP = "crates/context-processing/src/algorithm/"
bugs = [
 dict(id="c02-json-none-types-in-1-0", property="C02",
  edits=[(CP + "define.rs", '''								&& (typ == Term::Keyword(Keyword::Json)
									|| typ == Term::Keyword(Keyword::None))
''', '''								&& typ == Term::Keyword(Keyword::Json)
''')],
  main=r'''
    let mut o = opts(); o.processing_mode = ProcessingMode::JsonLd1_0;
    let d = doc(r#"{"@context":{"p":{"@id":"http://e/p","@type":"@none"}},"p":1}"#);
    has(expand_with(&d, o, &NoLoader), "InvalidTypeMapping");
  ''',
  needs="processing mode json-ld-1.0 and a term whose @type is @none",
  breaks="a type mapping that JSON-LD 1.0 forbids is accepted by the Create Term Definition algorithm"),
 dict(id="c02-relative-term-iri-check-order", property="C02",
  edits=[(CP + "define.rs", '''									if contains_between_boundaries(key.as_str(), ':')
										|| key.as_str().contains('/')
''', '''									if contains_between_boundaries(key.as_str(), ':')
''')],
  main=r'''
    has(expand(r#"{"@context":{"@vocab":"http://e/","a/b":{"@id":"http://other/"}},"a/b":1}"#), "InvalidIriMapping");
    has(expand(r#"{"@context":{"@vocab":"http://e/","a/b":{"@id":"http://e/a/b"}},"a/b":1}"#), "http://e/a/b");
  ''',
  needs="a term that contains a slash but no colon, mapped to another IRI than the one it expands to",
  breaks="a term that looks like a relative IRI may be mapped to something else than what it expands to"),
 dict(id="c03-null-context-keeps-current-base", property="C03",
  edits=[(CP + "mod.rs", '''Context::new(active_context.original_base_url().cloned())''', '''Context::new(active_context.base_iri().cloned())''')],
  main=r'''
    same(expand(r#"{"@context":[{"@base":"http://b/x/"}],"@id":"r","http://e/p":{"@context":null,"@id":"r"}}"#),
      r#"[{"@id":"http://b/x/r","http://e/p":[{"@id":"https://example.org/r"}]}]"#);
  ''',
  needs="an embedded null context below a context that sets @base",
  breaks="a null context must go back to the original base URL, not stay with the current base IRI"),
 dict(id="c03-language-null-ignored", property="C03",
  edits=[(CP + "mod.rs", '''							result.set_default_language(None);
''', '''							// Keep the language.
''')],
  main=r'''
    same(expand(r#"{"@context":[{"@language":"en"},{"@language":null}],"http://e/p":"v"}"#), r#"[{"http://e/p":[{"@value":"v"}]}]"#);
  ''',
  needs="a default language cleared by a later context",
  breaks="@language: null no longer clears the default language"),
 dict(id="c04-protected-prefix-flag-free", property="C04",
  edits=[("crates/core/src/context/definition.rs", '''		self.0.prefix == other.0.prefix
			&& self.0.reverse_property == other.0.reverse_property
''', '''		self.0.reverse_property == other.0.reverse_property
''')],
  main=r'''
    has(expand(r#"{"@context":[{"@protected":true,"t":{"@id":"http://e/t/","@prefix":true}},{"t":{"@id":"http://e/t/"}}],"t:x":1}"#), "ProtectedTermRedefinition");
  ''',
  needs="a protected term redefined with everything equal but its prefix flag",
  breaks="a protected term definition can be changed in its prefix flag"),
 dict(id="c04-nullification-drops-protection", property="C04",
  edits=[("crates/core/src/context/mod.rs", '''			if binding.definition().protected() {
				return true;
			}
''', '''			if binding.definition().protected() {
				return self.default_language.is_none();
			}
''')],
  main=r'''
    has(expand(r#"{"@context":[{"@language":"en","t":{"@id":"http://e/t","@protected":true}},null],"t":1}"#), "InvalidContextNullification");
  ''',
  needs="a null context after a context with protected terms and a default language",
  breaks="a null context silently removes protected terms"),
 dict(id="c05-remote-context-base", property="C05",
  edits=[(CP + "mod.rs", '''						remote_contexts.clone(),
						Some(context_iri),
						new_options,
''', '''						remote_contexts.clone(),
						base_url.clone().or(Some(context_iri)),
						new_options,
''')],
  main=r'''
    let l = map(&[("http://c/a/one", r#"{"@context":["two"]}"#), ("http://c/a/two", r#"{"@context":{"p":"http://e/p"}}"#)]);
    same(expand_with(&doc(r#"{"@context":"http://c/a/one","p":1}"#), opts(), &l), r#"[{"http://e/p":[{"@value":1}]}]"#);
  ''',
  needs="a remote context that refers to another one by a relative IRI",
  breaks="relative context references inside a remote context are resolved against the document instead of the remote context"),
 dict(id="c05-import-of-array", property="C05",
  edits=[(CP + "mod.rs", '''								if import_context_def.import.is_some() {
									return Err(Error::InvalidContextEntry);
								}
''', '''								if import_context_def.import.is_some() && context.import.is_none() {
									return Err(Error::InvalidContextEntry);
								}
''')],
  main=r'''
    let l = map(&[("http://c/one", r#"{"@context":{"@import":"http://c/two"}}"#), ("http://c/two", r#"{"@context":{"p":"http://e/p"}}"#)]);
    has(expand_with(&doc(r#"{"@context":{"@version":1.1,"@import":"http://c/one"},"p":1}"#), opts(), &l), "InvalidContextEntry");
  ''',
  needs="an imported context that has an @import of its own",
  breaks="@import in an imported context is ignored instead of being refused"),
]
