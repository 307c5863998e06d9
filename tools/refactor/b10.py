from lib import Ref
F='crates/context-processing/src/algorithm/define.rs'
# type: collapse nested ifs
Ref('df_type_let_chain',F).r('''					if !options.override_protected {
						if let Some(previous_definition) = previous_definition {
							if previous_definition.protected {
								// If `definition` is not the same as `previous_definition`
								// (other than the value of protected), a protected term
								// redefinition error has been detected, and processing is aborted.
								if definition.modulo_protected_field()
									!= previous_definition.modulo_protected_field()
								{
									return Err(Error::ProtectedTermRedefinition);
								}

								// Set `definition` to `previous definition` to retain the value of
								// protected.
								definition.protected = true;
							}
						}
					}

					active_context.set_type(Some(definition));''','''					match previous_definition {
						Some(previous) if previous.protected && !options.override_protected => {
							if definition.modulo_protected_field() == previous.modulo_protected_field() {
								definition.protected = true;
							} else {
								return Err(Error::ProtectedTermRedefinition);
							}
						}
						_ => (),
					}

					active_context.set_type(Some(definition));''')
Ref('df_type_protected_match',F).r('''					let mut definition = TypeTermDefinition {
						container: d.container,
						protected,
					};

					if let Some(protected) = d.protected {
						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							return Err(Error::InvalidTermDefinition);
						}

						definition.protected = protected
					}
''','''					let mut definition = TypeTermDefinition {
						container: d.container,
						protected: match d.protected {
							Some(_) if options.processing_mode == ProcessingMode::JsonLd1_0 => {
								return Err(Error::InvalidTermDefinition)
							}
							Some(explicit) => explicit,
							None => protected,
						},
					};
''')
Ref('df_helper_protect',F).r('''					// If override protected is false and previous_definition exists and is protected;
					if !options.override_protected {
						if let Some(previous_definition) = previous_definition {
							if previous_definition.protected {
								// If `definition` is not the same as `previous_definition`
								// (other than the value of protected), a protected term
								// redefinition error has been detected, and processing is aborted.
								if definition.modulo_protected_field()
									!= previous_definition.modulo_protected_field()
								{
									return Err(Error::ProtectedTermRedefinition);
								}

								// Set `definition` to `previous definition` to retain the value of
								// protected.
								definition.protected = true;
							}
						}
					}

					// Set the term definition of `term` in''','''					if !options.override_protected {
						retain_protection(&mut definition, previous_definition)?;
					}

					// Set the term definition of `term` in''').app('''
fn retain_protection<T: PartialEq, B: PartialEq>(
	definition: &mut NormalTermDefinition<T, B>,
	previous: Option<NormalTermDefinition<T, B>>,
) -> Result<(), Error> {
	let Some(previous) = previous else {
		return Ok(());
	};

	if !previous.protected {
		return Ok(());
	}

	if definition.modulo_protected_field() != previous.modulo_protected_field() {
		return Err(Error::ProtectedTermRedefinition);
	}

	definition.protected = true;
	Ok(())
}
''')
Ref('df_set_order',F).r('''					let previous_definition = active_context.set_normal(key.clone(), None);

					let simple_term = !d.map(|d| d.is_expanded()).unwrap_or(false);
					let value = term_definition::ExpandedRef::from(d);
''','''					let value = term_definition::ExpandedRef::from(d);
					let simple_term = match d {
						Nullable::Some(d) => !d.is_expanded(),
						Nullable::Null => true,
					};

					let previous_definition = active_context.set_normal(key.clone(), None);
''')
Ref('df_protected_chain',F).r('''						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							return Err(Error::InvalidTermDefinition);
						}

						definition.protected = protected;
					}

					// If value contains the entry @type:''','''						match options.processing_mode {
							ProcessingMode::JsonLd1_0 => return Err(Error::InvalidTermDefinition),
							ProcessingMode::JsonLd1_1 => definition.protected = protected,
						}
					}

					// If value contains the entry @type:''')
Ref('df_type_match',F).r('''						if let Some(typ) = typ {
							// If the expanded type is @json or @none, and processing mode is
							// json-ld-1.0, an invalid type mapping error has been detected and
							// processing is aborted.
							if options.processing_mode == ProcessingMode::JsonLd1_0
								&& (typ == Term::Keyword(Keyword::Json)
									|| typ == Term::Keyword(Keyword::None))
							{
								return Err(Error::InvalidTypeMapping);
							}

							if let Ok(typ) = typ.try_into() {
								// Set the type mapping for definition to type.
								definition.typ = Some(typ);
							} else {
								return Err(Error::InvalidTypeMapping);
							}
						}
''','''						match typ {
							None => (),
							Some(Term::Keyword(Keyword::Json | Keyword::None))
								if options.processing_mode == ProcessingMode::JsonLd1_0 =>
							{
								return Err(Error::InvalidTypeMapping);
							}
							Some(typ) => {
								let typ = typ.try_into().map_err(|_| Error::InvalidTypeMapping)?;
								definition.typ = Some(typ);
							}
						}
''')
Ref('df_rev_checks',F).r('''						if value.id.is_some() || value.nest.is_some() {
							return Err(Error::InvalidReverseProperty);
						}
''','''						let excluded = value.id.is_some() | value.nest.is_some();
						if excluded {
							return Err(Error::InvalidReverseProperty);
						}
''')
Ref('df_rev_checks2',F).r('''						if value.id.is_some() || value.nest.is_some() {
							return Err(Error::InvalidReverseProperty);
						}
''','''						if value.nest.is_some() {
							return Err(Error::InvalidReverseProperty);
						}

						if value.id.is_some() {
							return Err(Error::InvalidReverseProperty);
						}
''')
Ref('df_rev_map_let',F).r('''						match expand_iri_with(
							env,
							active_context,
							Nullable::Some(reverse_value.as_str().into()),
							false,
							Some(options.vocab),
							local_context,
							defined,
							remote_contexts,
							base_url.clone(),
							options,
						)
						.await?
						{
							Some(Term::Id(mapping)) if mapping.is_valid() => {
								definition.value = Some(Term::Id(mapping))
							}
							_ => return Err(Error::InvalidIriMapping),
						}
''','''						let mapping = expand_iri_with(
							env,
							active_context,
							Nullable::Some(reverse_value.as_str().into()),
							false,
							Some(options.vocab),
							local_context,
							defined,
							remote_contexts,
							base_url.clone(),
							options,
						)
						.await?;

						let Some(Term::Id(mapping)) = mapping else {
							return Err(Error::InvalidIriMapping);
						};

						if !mapping.is_valid() {
							return Err(Error::InvalidIriMapping);
						}

						definition.value = Some(Term::Id(mapping));
''')
Ref('df_rev_cont_iflet',F).r('''						if let Some(container_value) = value.container {
							match container_value {
								Nullable::Null => (),
								Nullable::Some(container_value) => {
									let container_value =
										Container::from_syntax(Nullable::Some(container_value))
											.map_err(|_| Error::InvalidReverseProperty)?;

									if matches!(container_value, Container::Set | Container::Index)
									{
										definition.container = container_value
									} else {
										return Err(Error::InvalidReverseProperty);
									}
								}
							};
						}
''','''						if let Some(Nullable::Some(container_value)) = value.container {
							match Container::from_syntax(Nullable::Some(container_value)) {
								Ok(container @ (Container::Set | Container::Index)) => {
									definition.container = container
								}
								_ => return Err(Error::InvalidReverseProperty),
							}
						}
''')
Ref('df_rev_flag_first',F).r('''						// Set the `reverse_property` flag of `definition` to `true`.
						definition.reverse_property = true;
''','').r('''						// If the value associated with the @reverse entry is a string having
						// the form of a keyword, return; processors SHOULD generate a warning.
						if reverse_value''','''						definition.reverse_property = true;

						if reverse_value''')
Ref('df_id_null',F).r('''							if id_value.cast::<KeyOrKeywordRef>() != Nullable::Some(key.into()) =>''','''							if !(id_value.cast::<KeyOrKeywordRef>() == Nullable::Some(key.into())) =>''')
Ref('df_id_iflet',F).r('''							match id_value {
								// If the `@id` entry of value is `null`, the term is not used for IRI
								// expansion, but is retained to be able to detect future redefinitions
								// of this term.
								Nullable::Null => (),
								Nullable::Some(id_value) => {''','''							{
								if let Nullable::Some(id_value) = id_value {''')
Ref('df_id_kwlike',F).r('''									if id_value.is_keyword_like() && !id_value.is_keyword() {
										debug_assert!(Keyword::try_from(id_value.as_str()).is_err());''','''									let only_looks_like_one = !id_value.is_keyword() && id_value.is_keyword_like();
									if only_looks_like_one {
										debug_assert!(Keyword::try_from(id_value.as_str()).is_err());''')
Ref('df_id_value_let',F).r('''									definition.value = match expand_iri_with(
										Environment {
											vocabulary: env.vocabulary,
											loader: env.loader,
											warnings: env.warnings,
										},
										active_context,
										Nullable::Some(id_value.into()),''','''									let expanded_id = expand_iri_with(
										Environment {
											vocabulary: env.vocabulary,
											loader: env.loader,
											warnings: env.warnings,
										},
										active_context,
										Nullable::Some(id_value.into()),''').r('''									.await?
									{
										Some(Term::Keyword(Keyword::Context)) => {
											// if it equals `@context`, an invalid keyword alias error has
											// been detected and processing is aborted.
											return Err(Error::InvalidKeywordAlias);
										}
										Some(Term::Id(prop)) if !prop.is_valid() => {
											// If the resulting IRI mapping is neither a keyword,
											// nor an IRI, nor a blank node identifier, an
											// invalid IRI mapping error has been detected and processing
											// is aborted;
											return Err(Error::InvalidIriMapping);
										}
										value => value,
									};
''','''									.await?;

									if let Some(Term::Keyword(Keyword::Context)) = &expanded_id {
										return Err(Error::InvalidKeywordAlias);
									}

									if let Some(Term::Id(id)) = &expanded_id {
										if !id.is_valid() {
											return Err(Error::InvalidIriMapping);
										}
									}

									definition.value = expanded_id;
''')
Ref('df_colon_slash_vars',F).r('''									if contains_between_boundaries(key.as_str(), ':')
										|| key.as_str().contains('/')
									{''','''									let name = key.as_str();
									let has_slash = name.contains('/');
									if has_slash || contains_between_boundaries(name, ':') {''').r('''									if !key.as_str().contains(':')
										&& !key.as_str().contains('/') && simple_term''','''									if simple_term && !name.contains(':')
										&& !has_slash''')
Ref('df_prefix_assign',F).r('''									if !key.as_str().contains(':')
										&& !key.as_str().contains('/') && simple_term
										&& definition.value.as_ref().is_some_and(|value| {
											is_gen_delim_or_blank(env.vocabulary, value)
										}) {
										definition.prefix = true;
									}''','''									definition.prefix = simple_term
										&& !key.as_str().contains([':', '/'])
										&& match &definition.value {
											Some(value) => is_gen_delim_or_blank(env.vocabulary, value),
											None => false,
										};''')
Ref('df_prefix_assign2',F).r('''									if !key.as_str().contains(':')
										&& !key.as_str().contains('/') && simple_term
										&& definition.value.as_ref().is_some_and(|value| {
											is_gen_delim_or_blank(env.vocabulary, value)
										}) {
										definition.prefix = true;
									}''','''									if simple_term && !key.as_str().contains(':') && !key.as_str().contains('/') {
										if let Some(value) = &definition.value {
											if is_gen_delim_or_blank(env.vocabulary, value) {
												definition.prefix = true;
											}
										}
									}''')
Ref('df_prefix_concat',F).r('''										let mut result = String::new();

										if let Some(prefix_key) = prefix_definition.value() {
											if let Some(prefix_iri) = prefix_key.as_iri() {
												result = env
													.vocabulary
													.iri(prefix_iri)
													.unwrap()
													.to_string()
											}
										}

										result.push_str(compact_iri.suffix());
''','''										let mut result = match prefix_definition.value().and_then(Term::as_iri) {
											Some(prefix_iri) => {
												env.vocabulary.iri(prefix_iri).unwrap().to_string()
											}
											None => String::new(),
										};

										result.push_str(compact_iri.suffix());
''')
Ref('df_prefix_format',F).r('''										if let Ok(iri) = Iri::new(result.as_str()) {
											definition.value =
												Some(Term::Id(Id::iri(env.vocabulary.insert(iri))))
										} else {
											return Err(Error::InvalidIriMapping);
										}
									}
								}
''','''										let iri = Iri::new(result.as_str()).map_err(|_| Error::InvalidIriMapping)?;
										definition.value = Some(Term::Id(Id::iri(env.vocabulary.insert(iri))));
									}
								}
''')
Ref('df_vocab_letelse',F).r('''										if let Some(context_vocabulary) =
											active_context.vocabulary()
										{
											// Otherwise, if `active_context` has a vocabulary mapping, the IRI mapping
											// of `definition` is set to the result of concatenating the value
											// associated with the vocabulary mapping and `term`.
											// If it does not have a vocabulary mapping, an invalid IRI mapping error
											// been detected and processing is aborted.
											if let Some(vocabulary_iri) =
												context_vocabulary.as_iri()
											{
												let mut result = env
													.vocabulary
													.iri(vocabulary_iri)
													.unwrap()
													.to_string();
												result.push_str(key.as_str());
												if let Ok(iri) = Iri::new(result.as_str()) {
													definition.value =
														Some(Term::<N::Iri, N::BlankId>::from(
															env.vocabulary.insert(iri),
														))
												} else {
													return Err(Error::InvalidIriMapping);
												}
											} else {
												return Err(Error::InvalidIriMapping);
											}
										} else {
											// If it does not have a vocabulary mapping, an invalid IRI mapping error
											// been detected and processing is aborted.
											return Err(Error::InvalidIriMapping);
										}
''','''										let Some(vocabulary_iri) =
											active_context.vocabulary().and_then(|v| v.as_iri())
										else {
											return Err(Error::InvalidIriMapping);
										};

										let mut result =
											env.vocabulary.iri(vocabulary_iri).unwrap().to_string();
										result.push_str(key.as_str());
										match Iri::new(result.as_str()) {
											Ok(iri) => {
												definition.value = Some(Term::<N::Iri, N::BlankId>::from(
													env.vocabulary.insert(iri),
												))
											}
											Err(_) => return Err(Error::InvalidIriMapping),
										}
''')
Ref('df_vocab_helper',F).r('''										if let Some(context_vocabulary) =
											active_context.vocabulary()
										{
											// Otherwise, if `active_context` has a vocabulary mapping, the IRI mapping
											// of `definition` is set to the result of concatenating the value
											// associated with the vocabulary mapping and `term`.
											// If it does not have a vocabulary mapping, an invalid IRI mapping error
											// been detected and processing is aborted.
											if let Some(vocabulary_iri) =
												context_vocabulary.as_iri()
											{
												let mut result = env
													.vocabulary
													.iri(vocabulary_iri)
													.unwrap()
													.to_string();
												result.push_str(key.as_str());
												if let Ok(iri) = Iri::new(result.as_str()) {
													definition.value =
														Some(Term::<N::Iri, N::BlankId>::from(
															env.vocabulary.insert(iri),
														))
												} else {
													return Err(Error::InvalidIriMapping);
												}
											} else {
												return Err(Error::InvalidIriMapping);
											}
										} else {
											// If it does not have a vocabulary mapping, an invalid IRI mapping error
											// been detected and processing is aborted.
											return Err(Error::InvalidIriMapping);
										}
''','''										definition.value = Some(Term::from(vocabulary_concat(
											env.vocabulary,
											active_context,
											key.as_str(),
										)?));
''').app('''
fn vocabulary_concat<N: VocabularyMut>(
	vocabulary: &mut N,
	active_context: &Context<N::Iri, N::BlankId>,
	suffix: &str,
) -> Result<N::Iri, Error> {
	match active_context.vocabulary() {
		Some(Term::Id(Id::Valid(ValidId::Iri(base)))) => {
			let mut result = vocabulary.iri(base).unwrap().to_string();
			result.push_str(suffix);
			match Iri::new(result.as_str()) {
				Ok(iri) => Ok(vocabulary.insert(iri)),
				Err(_) => Err(Error::InvalidIriMapping),
			}
		}
		_ => Err(Error::InvalidIriMapping),
	}
}
''')
Ref('df_cont_matches',F).r('''						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							match container_value {
								Nullable::Null
								| Nullable::Some(
									json_ld_syntax::Container::Many(_)
									| json_ld_syntax::Container::One(
										ContainerKind::Graph
										| ContainerKind::Id
										| ContainerKind::Type,
									),
								) => return Err(Error::InvalidContainerMapping),
								_ => (),
							}
						}
''','''						if options.processing_mode == ProcessingMode::JsonLd1_0
							&& !matches!(
								container_value,
								Nullable::Some(json_ld_syntax::Container::One(
									ContainerKind::Index
										| ContainerKind::Language
										| ContainerKind::List
										| ContainerKind::Set
								))
							) {
							return Err(Error::InvalidContainerMapping);
						}
''')
Ref('df_cont_type_match',F).r('''						if definition.container.contains(ContainerKind::Type) {
							if let Some(typ) = &definition.typ {
								// If type mapping in definition is neither `@id` nor `@vocab`,
								// an invalid type mapping error has been detected and processing
								// is aborted.
								match typ {
									Type::Id | Type::Vocab => (),
									_ => return Err(Error::InvalidTypeMapping),
								}
							} else {
								// If type mapping in definition is undefined, set it to @id.
								definition.typ = Some(Type::Id)
							}
						}
''','''						if definition.container.contains(ContainerKind::Type) {
							match definition.typ {
								None => definition.typ = Some(Type::Id),
								Some(Type::Id | Type::Vocab) => (),
								Some(_) => return Err(Error::InvalidTypeMapping),
							}
						}
''')
Ref('df_cont_type_getorinsert',F).r('''							if let Some(typ) = &definition.typ {
								// If type mapping in definition is neither `@id` nor `@vocab`,
								// an invalid type mapping error has been detected and processing
								// is aborted.
								match typ {
									Type::Id | Type::Vocab => (),
									_ => return Err(Error::InvalidTypeMapping),
								}
							} else {
								// If type mapping in definition is undefined, set it to @id.
								definition.typ = Some(Type::Id)
							}
''','''							let typ = definition.typ.get_or_insert(Type::Id);
							if !matches!(typ, Type::Id | Type::Vocab) {
								return Err(Error::InvalidTypeMapping);
							}
''')
Ref('df_index_split',F).r('''						if !definition.container.contains(ContainerKind::Index)
							|| options.processing_mode == ProcessingMode::JsonLd1_0
						{
							return Err(Error::InvalidTermDefinition);
						}
''','''						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							return Err(Error::InvalidTermDefinition);
						}

						if !definition.container.contains(ContainerKind::Index) {
							return Err(Error::InvalidTermDefinition);
						}
''')
Ref('df_index_matches',F).r('''						match expand_iri_simple(
							&mut env,
							active_context,
							Nullable::Some(index_value.as_str().into()),
							false,
							Some(options.vocab),
						)? {
							Some(Term::Id(Id::Valid(ValidId::Iri(_)))) => (),
							_ => return Err(Error::InvalidTermDefinition),
						}
''','''						let index_iri = expand_iri_simple(
							&mut env,
							active_context,
							Nullable::Some(index_value.as_str().into()),
							false,
							Some(options.vocab),
						)?;
						if !index_iri.is_some_and(|t| t.as_iri().is_some()) {
							return Err(Error::InvalidTermDefinition);
						}
''')
Ref('df_ctx_match',F).r('''						Box::pin(super::process_context(
							env,
							active_context,
							context,
							remote_contexts.clone(),
							base_url.clone(),
							options.with_override(),
						))
						.await
						.map_err(|_| Error::InvalidScopedContext)?;
''','''						let scoped_options = options.with_override();
						let processed = Box::pin(super::process_context(
							env,
							active_context,
							context,
							remote_contexts,
							base_url.clone(),
							scoped_options,
						))
						.await;

						if processed.is_err() {
							return Err(Error::InvalidScopedContext);
						}
''')
Ref('df_lang_match',F).r('''					if value.type_.is_none() {
						if let Some(language_value) = value.language {
							// Initialize `language` to the value associated with the `@language`
							// entry, which MUST be either null or a string.
							// If `language` is not well-formed according to section 2.2.9 of
							// [BCP47], processors SHOULD issue a warning.
							// Otherwise, an invalid language mapping error has been detected and
							// processing is aborted.
							// Set the `language` mapping of definition to `language`.
							definition.language =
								Some(language_value.map(LenientLangTag::to_owned));
						}

						// If `value` contains the entry `@direction` and does not contain the
						// entry `@type`:
						if let Some(direction_value) = value.direction {
							// Initialize `direction` to the value associated with the `@direction`
							// entry, which MUST be either null, "ltr", or "rtl".
							definition.direction = Some(direction_value);
						}
					}
''','''					if value.type_.is_none() {
						definition.language = value.language.map(|l| l.map(LenientLangTag::to_owned));
						definition.direction = value.direction;
					}
''')
Ref('df_lang_pair',F).r('''					if value.type_.is_none() {
						if let Some(language_value) = value.language {''','''					if let (None, Some(direction_value)) = (value.type_, value.direction) {
						definition.direction = Some(direction_value);
					}

					if value.type_.is_none() {
						if let Some(language_value) = value.language {''').r('''						// If `value` contains the entry `@direction` and does not contain the
						// entry `@type`:
						if let Some(direction_value) = value.direction {
							// Initialize `direction` to the value associated with the `@direction`
							// entry, which MUST be either null, "ltr", or "rtl".
							definition.direction = Some(direction_value);
						}
''','')
Ref('df_nest_swap',F).r('''					if let Some(nest_value) = value.nest {
						// If processing mode is json-ld-1.0, an invalid term definition has been
						// detected and processing is aborted.
						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							return Err(Error::InvalidTermDefinition);
						}

						definition.nest = Some(nest_value.clone());
					}
''','').r('''					// If `value` contains the entry `@language` and does not contain the entry
					// `@type`:
''','''					if value.nest.is_some() {
						if options.processing_mode == ProcessingMode::JsonLd1_0 {
							return Err(Error::InvalidTermDefinition);
						}

						definition.nest = value.nest.cloned();
					}
''')
Ref('df_prefix_err',F).r('''						definition.prefix = prefix_value;

						// If the `prefix` flag of `definition` is set to `true`, and its IRI
						// mapping is a keyword, an invalid term definition has been detected and
						// processing is aborted.
						if definition.prefix
							&& definition.value.as_ref().is_some_and(Term::is_keyword)
						{
							return Err(Error::InvalidTermDefinition);
						}
''','''						if prefix_value && matches!(definition.value, Some(Term::Keyword(_))) {
							return Err(Error::InvalidTermDefinition);
						}

						definition.prefix = prefix_value;
''')
Ref('df_propagate_first',F).r('''					if value.propagate.is_some() {
						return Err(Error::InvalidTermDefinition);
					}
''','''					if let Some(_) = value.propagate {
						return Err(Error::InvalidTermDefinition);
					}
''')
Ref('df_early_return',F).r('''	let term = term.to_owned();
	if defined.begin(&term)? {
		if term.is_empty() {
			return Err(Error::InvalidTermDefinition);
		}
''','''	let term = term.to_owned();
	if !defined.begin(&term)? {
		return Ok(());
	}

	{
		if term.is_empty() {
			return Err(Error::InvalidTermDefinition);
		}
''')
Ref('df_bool_eq',F).r('''options.processing_mode == ProcessingMode::JsonLd1_0''','''is_1_0''',99).r('''	let term = term.to_owned();
	if defined.begin''','''	let is_1_0 = options.processing_mode == ProcessingMode::JsonLd1_0;
	let term = term.to_owned();
	if defined.begin''')
Ref('df_env_helper',F).r('''							Environment {
								vocabulary: env.vocabulary,
								loader: env.loader,
								warnings: env.warnings,
							},
							active_context,
							type_.cast(),''','''							reborrow(&mut env),
							active_context,
							type_.cast(),''').app('''
fn reborrow<'a, N, L, W>(env: &'a mut Environment<'_, N, L, W>) -> Environment<'a, N, L, W> {
	Environment {
		vocabulary: env.vocabulary,
		loader: env.loader,
		warnings: env.warnings,
	}
}
''')
Ref('df_blank_match',F).r('''									if let Ok(blank_id) = BlankId::new(term.as_str()) {
										definition.value = Some(Term::Id(Id::blank(
											env.vocabulary.insert_blank_id(blank_id),
										)))
									} else if let Ok(iri_ref) = IriRef::new(term.as_str()) {''','''									let blank = BlankId::new(term.as_str());
									if blank.is_ok() {
										definition.value = blank
											.ok()
											.map(|b| Term::Id(Id::blank(env.vocabulary.insert_blank_id(b))));
									} else if let Ok(iri_ref) = IriRef::new(term.as_str()) {''')
Ref('df_rel_nested',F).r('''										match iri_ref.as_iri() {
											Some(iri) => {
												definition.value = Some(Term::Id(Id::iri(
													env.vocabulary.insert(iri),
												)))
											}
											None => {
												if iri_ref.as_str().contains('/') {''','''										match iri_ref.as_iri() {
											Some(iri) => {
												let id = Id::iri(env.vocabulary.insert(iri));
												definition.value = Some(Term::Id(id))
											}
											None => {
												let relative = iri_ref.as_str().contains('/');
												if relative {''')
Ref('df_begin_match',F).r('''''','''''') if False else None
