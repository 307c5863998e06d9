from lib import Ref
I='crates/context-processing/src/algorithm/iri.rs'
A='crates/context-processing/src/algorithm/mod.rs'
M='crates/context-processing/src/algorithm/merged.rs'
S='crates/context-processing/src/stack.rs'
DEFLOOK='''				if let Some(value) = term_definition.value() {
					if value.is_keyword() {
						return Ok(Some(value.clone()));
					}
				}

				// If vocab is true and the active context has a term definition for value, return the
				// associated IRI mapping.
				if vocab.is_some() {
					return match term_definition.value() {
						Some(value) => Ok(Some(value.clone())),
						None => Ok(Some(Term::Null)),
					};
				}
'''
Ref('ir_def_match',I).r(DEFLOOK,'''				match term_definition.value() {
					Some(value) if value.is_keyword() || vocab.is_some() => {
						return Ok(Some(value.clone()))
					}
					None if vocab.is_some() => return Ok(Some(Term::Null)),
					_ => (),
				}
''',2)
Ref('ir_def_unwrap_or',I).r(DEFLOOK,'''				let mapping = term_definition.value();
				if mapping.is_some_and(|m| m.is_keyword()) || vocab.is_some() {
					return Ok(Some(mapping.cloned().unwrap_or(Term::Null)));
				}
''',2)
Ref('ir_colon_matches',I).r('''			if value.find(':').map(|i| i > 0).unwrap_or(false) {''','''			if matches!(value.find(':'), Some(i) if i > 0) {''',2)
Ref('ir_colon_issome',I).r('''			if value.find(':').map(|i| i > 0).unwrap_or(false) {''','''			if value.find(':').is_some_and(|i| i != 0) {''',2)
Ref('ir_colon_helper',I).r('''			if value.find(':').map(|i| i > 0).unwrap_or(false) {''','''			if has_inner_colon(value) {''',2).app('''
/// Whether there is a colon that is not the first character.
fn has_inner_colon(value: &str) -> bool {
	match value.find(':') {
		Some(0) | None => false,
		Some(_) => true,
	}
}
''')
BLANK='''				if let Ok(blank_id) = BlankId::new(value) {
					return Ok(Some(Term::Id(Id::blank(
						env.vocabulary.insert_blank_id(blank_id),
					))));
				}

				if value == "_:" {
					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
				}
'''
Ref('ir_blank_match',I).r(BLANK,'''				match BlankId::new(value) {
					Ok(blank_id) => {
						let blank_id = env.vocabulary.insert_blank_id(blank_id);
						return Ok(Some(Term::Id(Id::blank(blank_id))));
					}
					Err(_) => {
						if value == "_:" {
							return Ok(Some(Term::Id(Id::Invalid(value.to_string()))));
						}
					}
				}
''',2)
PREFIX='''					let prefix_key = Key::from(compact_iri.prefix().to_string());
					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
						if term_definition.prefix {
							if let Some(mapping) = &term_definition.value {
								let mut result =
									mapping.with(&*env.vocabulary).as_str().to_string();
								result.push_str(compact_iri.suffix());

								return Ok(Some(Term::Id(Id::from_string_in(
									env.vocabulary,
									result,
								))));
							}
						}
					}
'''
Ref('ir_prefix_filter',I).r(PREFIX,'''					let prefix_key = Key::from(compact_iri.prefix().to_string());
					let mapping = active_context
						.get_normal(&prefix_key)
						.filter(|d| d.prefix)
						.and_then(|d| d.value.as_ref());
					if let Some(mapping) = mapping {
						let mut result = mapping.with(&*env.vocabulary).as_str().to_string();
						result.push_str(compact_iri.suffix());
						return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))));
					}
''',2)
Ref('ir_prefix_pattern',I).r(PREFIX,'''					let prefix_key = Key::from(compact_iri.prefix().to_string());
					match active_context.get_normal(&prefix_key) {
						Some(json_ld_core::context::NormalTermDefinition {
							prefix: true,
							value: Some(mapping),
							..
						}) => {
							let iri = format!("{}{}", mapping.with(&*env.vocabulary).as_str(), compact_iri.suffix());
							return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, iri))));
						}
						_ => {}
					}
''',2)
Ref('ir_concat_helper',I).r(PREFIX,'''					let prefix_key = Key::from(compact_iri.prefix().to_string());
					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
						if term_definition.prefix {
							if let Some(mapping) = &term_definition.value {
								let base = mapping.with(&*env.vocabulary).as_str().to_string();
								return Ok(Some(Term::Id(concat(env.vocabulary, base, compact_iri.suffix()))));
							}
						}
					}
''',2).app('''
fn concat<N: VocabularyMut>(vocabulary: &mut N, mut base: String, suffix: &str) -> Id<N::Iri, N::BlankId> {
	base.push_str(suffix);
	Id::from_string_in(vocabulary, base)
}
''')
VOC='''				match active_context.vocabulary() {
					Some(Term::Id(mapping)) => {
						return match action {
							Action::Keep => {
								let mut result =
									mapping.with(&*env.vocabulary).as_str().to_string();
								result.push_str(value);

								Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))))
							}
							Action::Drop => Ok(None),
							Action::Reject => Err(%s),
						}
					}
'''
VOCN='''				match active_context.vocabulary() {
					Some(Term::Id(mapping)) => {
						if action.is_reject() {
							return Err(%s);
						}
						if action == Action::Drop {
							return Ok(None);
						}
						let mut result = mapping.with(&*env.vocabulary).as_str().to_string();
						result.push_str(value);
						return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))));
					}
'''
Ref('ir_action_ifs',I).r(VOC%'Error::ForbiddenVocab',VOCN%'Error::ForbiddenVocab').r(VOC%'RejectVocab',VOCN%'RejectVocab')
VOC2='''				match active_context.vocabulary() {
					Some(Term::Id(mapping)) => match action {
						Action::Reject => return Err(%s),
						Action::Drop => return Ok(None),
						Action::Keep => {
							let result = [mapping.with(&*env.vocabulary).as_str(), value].concat();
							return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))));
						}
					}
'''
Ref('ir_action_concat',I).r(VOC%'Error::ForbiddenVocab',VOC2%'Error::ForbiddenVocab').r(VOC%'RejectVocab',VOC2%'RejectVocab')
DOC='''			if document_relative {
				if let Ok(iri_ref) = IriRef::new(value) {
					if let Some(iri) =
						super::resolve_iri(env.vocabulary, iri_ref, active_context.base_iri())
					{
						return Ok(Some(Term::from(iri)));
					}
				}
			}
'''
Ref('ir_doc_chain',I).r(DOC,'''			let resolved = if document_relative {
				IriRef::new(value).ok().and_then(|iri_ref| {
					super::resolve_iri(env.vocabulary, iri_ref, active_context.base_iri())
				})
			} else {
				None
			};
			if let Some(iri) = resolved {
				return Ok(Some(Term::from(iri)));
			}
''',2)
Ref('ir_doc_into',I).r(DOC,'''			if document_relative {
				if let Ok(iri_ref) = IriRef::new(value) {
					let base = active_context.base_iri();
					match super::resolve_iri(env.vocabulary, iri_ref, base) {
						Some(iri) => return Ok(Some(iri.into())),
						None => (),
					}
				}
			}
''',2)
Ref('ir_invalid_inline',I).r('''	env.warnings
		.handle(env.vocabulary, MalformedIri(value.clone()).into());
	Term::Id(Id::Invalid(value))
}''','''	let warning = MalformedIri(value.clone());
	env.warnings.handle(env.vocabulary, warning.into());
	let id = Id::Invalid(value);
	Term::Id(id)
}''',2)
Ref('ir_kwlike_guard',I).r('''		Nullable::Some(ExpandableRef::Keyword(k)) => Ok(Some(Term::Keyword(k))),
		Nullable::Some(ExpandableRef::String(value)) => {
			if is_keyword_like(value) {
				return Ok(Some(Term::Null));
			}
''','''		Nullable::Some(ExpandableRef::Keyword(k)) => Ok(Some(Term::Keyword(k))),
		Nullable::Some(ExpandableRef::String(value)) if is_keyword_like(value) => {
			Ok(Some(Term::Null))
		}
		Nullable::Some(ExpandableRef::String(value)) => {
''',2)
Ref('ir_vocab_early',I).r('''					Some(_) => return Ok(Some(invalid_iri_simple(env, value.to_string()))),
					None => (),''','''					None => {}
					Some(_) => {
						let value = value.to_owned();
						return Ok(Some(invalid_iri_simple(env, value)));
					}''')
Ref('am_resolve_map',A).r('''	match base_iri {
		Some(base_iri) => {
			let result = iri_ref.resolved(vocabulary.iri(base_iri).unwrap());
			Some(vocabulary.insert(result.as_iri()))
		}
		None => iri_ref.as_iri().map(|iri| vocabulary.insert(iri)),
	}''','''	if let Some(base_iri) = base_iri {
		let base_iri = vocabulary.iri(base_iri).unwrap();
		let result = iri_ref.resolved(base_iri);
		return Some(vocabulary.insert(result.as_iri()));
	}

	let iri = iri_ref.as_iri()?;
	Some(vocabulary.insert(iri))''')
PROP='''	if let syntax::context::Context::One(syntax::ContextEntry::Definition(def)) = local_context {
		if let Some(propagate) = def.propagate {
			if options.processing_mode == ProcessingMode::JsonLd1_0 {
				return Err(Error::InvalidContextEntry);
			}

			options.propagate = propagate
		}
	}
'''
Ref('am_prop_match',A).r(PROP,'''	let propagate = match local_context {
		syntax::context::Context::One(syntax::ContextEntry::Definition(def)) => def.propagate,
		_ => None,
	};
	if let Some(propagate) = propagate {
		if options.processing_mode == ProcessingMode::JsonLd1_0 {
			return Err(Error::InvalidContextEntry);
		}
		options.propagate = propagate;
	}
''')
Ref('am_prop_helper',A).r(PROP,'''	if let Some(propagate) = propagate_entry(local_context) {
		match options.processing_mode {
			ProcessingMode::JsonLd1_0 => return Err(Error::InvalidContextEntry),
			ProcessingMode::JsonLd1_1 => options.propagate = propagate,
		}
	}
''').app('''
fn propagate_entry(context: &syntax::context::Context) -> Option<bool> {
	if let syntax::context::Context::One(syntax::ContextEntry::Definition(def)) = context {
		def.propagate
	} else {
		None
	}
}
''')
Ref('am_prev_nested',A).r('''	if !options.propagate && result.previous_context().is_none() {
		result.set_previous_context(active_context.clone());
	}
''','''	if result.previous_context().is_none() {
		if !options.propagate {
			result.set_previous_context(active_context.clone());
		}
	}
''')
NULL='''					return Err(Error::InvalidContextNullification);
				} else {
					// Otherwise, initialize result as a newly-initialized active context, setting
					// previous_context in result to the previous value of result if propagate is
					// false. Continue with the next context.
					let previous_result = result;

					// Initialize `result` as a newly-initialized active context, setting both
					// `base_iri` and `original_base_url` to the value of `original_base_url` in
					// active context, ...
					result = Context::new(active_context.original_base_url().cloned());

					// ... and, if `propagate` is `false`, `previous_context` in `result` to the
					// previous value of `result`.
					if !options.propagate {
						result.set_previous_context(previous_result);
					}
				}
'''
Ref('am_null_flat',A).r(NULL,'''					return Err(Error::InvalidContextNullification);
				}

				let mut fresh = Context::new(active_context.original_base_url().cloned());
				if !options.propagate {
					fresh.set_previous_context(result);
				}
				result = fresh;
''')
Ref('am_null_replace',A).r(NULL,'''					return Err(Error::InvalidContextNullification);
				}

				let base = active_context.original_base_url().cloned();
				let previous = std::mem::replace(&mut result, Context::new(base));
				if !options.propagate {
					result.set_previous_context(previous);
				}
''')
Ref('am_load_match',A).r('''					let loaded_context = env
						.loader
						.load_with(env.vocabulary, context_iri.clone())
						.await?
						.into_document()
						.into_ld_context()
						.map_err(Error::ContextExtractionFailed)?;
''','''					let document = env
						.loader
						.load_with(env.vocabulary, context_iri.clone())
						.await?
						.into_document();
					let loaded_context = match document.into_ld_context() {
						Ok(loaded_context) => loaded_context,
						Err(e) => return Err(Error::ContextExtractionFailed(e)),
					};
''')
Ref('am_load_helper',A).r('''					let loaded_context = env
						.loader
						.load_with(env.vocabulary, context_iri.clone())
						.await?
						.into_document()
						.into_ld_context()
						.map_err(Error::ContextExtractionFailed)?;
''','''					let loaded_context = load_context(&mut env, context_iri.clone()).await?;
''').r('''						let import_context = env
							.loader
							.load_with(env.vocabulary, import.clone())
							.await?
							.into_document()
							.into_ld_context()
							.map_err(Error::ContextExtractionFailed)?;
''','''						let import_context = load_context(&mut env, import.clone()).await?;
''').app('''
/// Dereferences a context.
async fn load_context<N, L, W>(
	env: &mut Environment<'_, N, L, W>,
	iri: N::Iri,
) -> Result<syntax::context::Context, Error>
where
	N: VocabularyMut,
	N::Iri: Clone + Eq + Hash,
	L: Loader,
{
	env.loader
		.load_with(env.vocabulary, iri)
		.await?
		.into_document()
		.into_ld_context()
		.map_err(Error::ContextExtractionFailed)
}
''')
Ref('am_opts_spread',A).r('''					let new_options = Options {
						processing_mode: options.processing_mode,
						override_protected: false,
						propagate: true,
						vocab: options.vocab,
					};
''','''					let new_options = Options {
						override_protected: false,
						propagate: true,
						..options
					};
''')
Ref('am_version_and',A).r('''				if context.version.is_some() {
					// 5.5.2) If processing mode is set to json-ld-1.0, a processing mode conflict
					// error has been detected.
					if options.processing_mode == ProcessingMode::JsonLd1_0 {
						return Err(Error::ProcessingModeConflict);
					}
				}
''','''				if options.processing_mode == ProcessingMode::JsonLd1_0 && context.version.is_some() {
					return Err(Error::ProcessingModeConflict);
				}
''')
Ref('am_import_letelse',A).r('''						match &import_context {
							syntax::context::Context::One(syntax::ContextEntry::Definition(
								import_context_def,
							)) => {
								// If `import_context` has a @import entry, an invalid context entry
								// error has been detected and processing is aborted.
								if import_context_def.import.is_some() {
									return Err(Error::InvalidContextEntry);
								}
							}
							_ => {
								return Err(Error::InvalidRemoteContext);
							}
						}
''','''						let syntax::context::Context::One(syntax::ContextEntry::Definition(imported)) =
							&import_context
						else {
							return Err(Error::InvalidRemoteContext);
						};

						if imported.import.is_some() {
							return Err(Error::InvalidContextEntry);
						}
''')
BASE='''						match value {
							syntax::Nullable::Null => {
								// If value is null, remove the base IRI of result.
								result.set_base_iri(None);
							}
							syntax::Nullable::Some(iri_ref) => match iri_ref.as_iri() {
								Some(iri) => result.set_base_iri(Some(env.vocabulary.insert(iri))),
								None => {
									let resolved =
										resolve_iri(env.vocabulary, iri_ref, result.base_iri())
											.ok_or(Error::InvalidBaseIri)?;
									result.set_base_iri(Some(resolved))
								}
							},
						}
'''
Ref('am_base_value',A).r(BASE,'''						let new_base = match value {
							syntax::Nullable::Null => None,
							syntax::Nullable::Some(iri_ref) => Some(match iri_ref.as_iri() {
								Some(iri) => env.vocabulary.insert(iri),
								None => resolve_iri(env.vocabulary, iri_ref, result.base_iri())
									.ok_or(Error::InvalidBaseIri)?,
							}),
						};
						result.set_base_iri(new_base);
''')
Ref('am_lang_value',A).r('''					match value {
						Nullable::Null => {
							// 5.9.2) If value is null, remove any default language from result.
							result.set_default_language(None);
						}
						Nullable::Some(tag) => {
							result.set_default_language(Some(tag.to_owned()));
						}
					}
''','''					result.set_default_language(match value {
						Nullable::Null => None,
						Nullable::Some(tag) => Some(tag.to_owned()),
					});
''')
Ref('am_dir_value',A).r('''					match value {
						Nullable::Null => {
							// 5.10.3) If value is null, remove any base direction from result.
							result.set_default_base_direction(None);
						}
						Nullable::Some(dir) => {
							result.set_default_base_direction(Some(dir));
						}
					}
''','''					let direction = match value {
						Nullable::Null => None,
						Nullable::Some(dir) => Some(dir),
					};
					result.set_default_base_direction(direction);
''')
VOCAB='''					match value {
						syntax::Nullable::Null => {
							// If value is null, remove any vocabulary mapping from result.
							result.set_vocabulary(None);
						}
						syntax::Nullable::Some(value) => {
							// Otherwise, if value is an IRI or blank node identifier, the
							// vocabulary mapping of result is set to the result of IRI
							// expanding value using true for document relative. If it is not
							// an IRI, or a blank node identifier, an invalid vocab mapping
							// error has been detected and processing is aborted.
							// NOTE: The use of blank node identifiers to value for @vocab is
							// obsolete, and may be removed in a future version of JSON-LD.
							match expand_iri_simple(
								&mut env,
								&result,
								Nullable::Some(value.into()),
								true,
								Some(options.vocab),
							)? {
								Some(Term::Id(vocab)) if vocab.is_valid() => {
									result.set_vocabulary(Some(Term::Id(vocab)))
								}
								_ => return Err(Error::InvalidVocabMapping),
							}
						}
					}
'''
Ref('am_vocab_value',A).r(VOCAB,'''					let vocabulary = match value {
						syntax::Nullable::Null => None,
						syntax::Nullable::Some(value) => {
							let expanded = expand_iri_simple(
								&mut env,
								&result,
								Nullable::Some(value.into()),
								true,
								Some(options.vocab),
							)?;
							match expanded {
								Some(Term::Id(vocab)) => {
									if !vocab.is_valid() {
										return Err(Error::InvalidVocabMapping);
									}
									Some(Term::Id(vocab))
								}
								_ => return Err(Error::InvalidVocabMapping),
							}
						}
					};
					result.set_vocabulary(vocabulary);
''')
Ref('am_lang_dir_swap',A).r('''				if let Some(value) = context.language() {
					match value {
						Nullable::Null => {
							// 5.9.2) If value is null, remove any default language from result.
							result.set_default_language(None);
						}
						Nullable::Some(tag) => {
							result.set_default_language(Some(tag.to_owned()));
						}
					}
				}
''','').r('''				// 5.12) Create a map''','''				if let Some(value) = context.language() {
					match value {
						Nullable::Null => {
							// 5.9.2) If value is null, remove any default language from result.
							result.set_default_language(None);
						}
						Nullable::Some(tag) => {
							result.set_default_language(Some(tag.to_owned()));
						}
					}
				}

				// 5.12) Create a map''')
Ref('am_keys_chain',A).r('''				if context.type_().is_some() {
					define(
						Environment {
							vocabulary: env.vocabulary,
							loader: env.loader,
							warnings: env.warnings,
						},
						&mut result,
						&context,
						KeyOrKeywordRef::Keyword(syntax::Keyword::Type),
						&mut defined,
						remote_contexts.clone(),
						base_url.clone(),
						protected,
						options,
					)
					.await?
				}

				for (key, _binding) in context.bindings() {
					define(
						Environment {
							vocabulary: env.vocabulary,
							loader: env.loader,
							warnings: env.warnings,
						},
						&mut result,
						&context,
						key.into(),
''','''				let type_key = context
					.type_()
					.map(|_| KeyOrKeywordRef::Keyword(syntax::Keyword::Type));

				for key in type_key.into_iter().chain(context.bindings().map(|(key, _)| key.into())) {
					define(
						Environment {
							vocabulary: env.vocabulary,
							loader: env.loader,
							warnings: env.warnings,
						},
						&mut result,
						&context,
						key,
''')
Ref('am_bindings_let',A).r('''				for (key, _binding) in context.bindings() {
					define(''','''				for binding in context.bindings() {
					let key = binding.0;
					define(''')
Ref('am_protected_inline',A).r('''				let mut defined = DefinedTerms::new();
				let protected = context.protected().unwrap_or(false);
''','''				let protected = matches!(context.protected(), Some(true));
				let mut defined = DefinedTerms::new();
''')
Ref('am_import_none_first',A).r('''				let context = Merged::new(context, import_context);

				// 5.7)''','''				let merged = Merged::new(context, import_context);
				let context = merged;

				// 5.7)''')
Ref('mg_imported_match',M).r('''		self.imported.as_ref().and_then(|imported| match imported {
			syntax::context::Context::One(syntax::ContextEntry::Definition(import_context)) => {
				Some(import_context)
			}
			_ => None,
		})''','''		match &self.imported {
			Some(syntax::context::Context::One(syntax::ContextEntry::Definition(d))) => Some(d),
			_ => None,
		}''')
Ref('mg_base_match',M).r('''		self.base
			.base
			.as_ref()
			.or_else(|| self.imported().and_then(|i| i.base.as_ref()))
			.map(Nullable::as_deref)''','''		match &self.base.base {
			Some(base) => Some(base.as_deref()),
			None => self.imported()?.base.as_ref().map(Nullable::as_deref),
		}''')
Ref('mg_prot_match',M).r('''		self.base
			.protected
			.or_else(|| self.imported().and_then(|i| i.protected))''','''		if self.base.protected.is_some() {
			return self.base.protected;
		}

		self.imported().and_then(|i| i.protected)''')
Ref('mg_get_match',M).r('''		self.base
			.get(key)
			.or_else(|| self.imported().and_then(|i| i.get(key)))''','''		match self.base.get(key) {
			Some(value) => Some(value),
			None => match self.imported() {
				Some(i) => i.get(key),
				None => None,
			},
		}''')
Ref('mg_next_find',M).r('''		match &mut self.imported_bindings {
			Some(imported_bindings) => {
				for (key_ref, def) in imported_bindings {
					let key = key_ref.to_owned();
					if self.base.get_binding(&key).is_none() {
						return Some((key_ref, def));
					}
				}

				self.base_bindings.next()
			}
			None => self.base_bindings.next(),
		}''','''		if let Some(imported_bindings) = &mut self.imported_bindings {
			for (key, def) in imported_bindings {
				if self.base.get_binding(&key.to_owned()).is_some() {
					continue;
				}

				return Some((key, def));
			}
		}

		self.base_bindings.next()''')
Ref('mg_next_iterfind',M).r('''		match &mut self.imported_bindings {
			Some(imported_bindings) => {
				for (key_ref, def) in imported_bindings {
					let key = key_ref.to_owned();
					if self.base.get_binding(&key).is_none() {
						return Some((key_ref, def));
					}
				}

				self.base_bindings.next()
			}
			None => self.base_bindings.next(),
		}''','''		let base = self.base;
		self.imported_bindings
			.as_mut()
			.and_then(|imported| imported.find(|(key, _)| base.get_binding(&(*key).to_owned()).is_none()))
			.or_else(|| self.base_bindings.next())''')
Ref('st_contains_loop',S).r('''		if self.url == *url {
			true
		} else {
			match &self.previous {
				Some(prev) => prev.contains(url),
				None => false,
			}
		}''','''		self.url == *url || self.previous.as_ref().is_some_and(|prev| prev.contains(url))''')
Ref('st_cycle_issome',S).r('''		match &self.head {
			Some(head) => head.contains(url),
			None => false,
		}''','''		self.head.as_ref().is_some_and(|head| head.contains(url))''')
Ref('st_push_take',S).r('''			let mut head = None;
			std::mem::swap(&mut head, &mut self.head);
			self.head = Some(Arc::new(StackNode::new(head, url)));
			true''','''			let head = self.head.take();
			self.head = Some(Arc::new(StackNode::new(head, url)));
			true''')
Ref('st_push_early',S).r('''		if self.cycle(&url) {
			false
		} else {
			let mut head = None;
			std::mem::swap(&mut head, &mut self.head);
			self.head = Some(Arc::new(StackNode::new(head, url)));
			true
		}''','''		let new = !self.cycle(&url);
		if new {
			let previous = self.head.take();
			self.head = Some(Arc::new(StackNode { previous, url }));
		}
		new''')
