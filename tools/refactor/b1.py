from lib import ed
ed('expansion/src/element.rs',
('''				let mut sorted_value = Vec::with_capacity(value.len());
				for term in value {
					if let Some(s) = term.as_string() {
						sorted_value.push(s);
					}
				}
''','''				let mut sorted_value: Vec<&str> =
					value.iter().filter_map(|term| term.as_string()).collect();
'''),
('''			let input_type = if let Some(Entry { value, .. }) = type_entries.first() {
				let value = Value::force_as_array(value);
				if let Some(input_type) = value.last() {
					input_type
						.as_string()
						.map(|input_type_str| {
							expand_iri(
								&mut env,
								active_context.as_ref(),
								Nullable::Some(input_type_str.into()),
								false,
								Some(options.policy.vocab),
							)
						})
						.transpose()?
						.flatten()
				} else {
					None
				}
			} else {
				None
			};
''','''			let last_type = type_entries
				.first()
				.and_then(|entry| Value::force_as_array(&entry.value).last())
				.and_then(|v| v.as_string());
			let input_type = match last_type {
				Some(input_type_str) => expand_iri(
					&mut env,
					active_context.as_ref(),
					Nullable::Some(input_type_str.into()),
					false,
					Some(options.policy.vocab),
				)?,
				None => None,
			};
'''),
('''				let mut index = None;
				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
					match expanded_key {
						Term::Keyword(Keyword::Index) => match value.as_string() {
							Some(value) => index = Some(value.to_string()),
							None => return Err(Error::InvalidIndexValue),
						},
						Term::Keyword(Keyword::List) => (),
						_ => return Err(Error::InvalidSetOrListObject),
					}
				}

				// Initialize expanded''','''				let index = list_index(expanded_entries)?;

				// Initialize expanded'''),
('''				if let Some(value) = expanded_value {
					Ok(Expanded::Object(value))
				} else {
					Ok(Expanded::Null)
				}
			} else {
				// Node''','''				Ok(match expanded_value {
					None => Expanded::Null,
					Some(value) => Expanded::Object(value),
				})
			} else {
				// Node'''),
('''/// Expand an element.
///
''','''fn list_index<T, B>(entries: Vec<ExpandedEntry<T, B>>) -> Result<Option<String>, Error> {
	let mut result = None;
	for entry in entries {
		let ExpandedEntry(_, k, v) = entry;
		if let Term::Keyword(Keyword::Index) = k {
			let Some(s) = v.as_string() else {
				return Err(Error::InvalidIndexValue);
			};
			result = Some(s.to_string());
		} else if let Term::Keyword(Keyword::List) = k {
			continue;
		} else {
			return Err(Error::InvalidSetOrListObject);
		}
	}
	Ok(result)
}

/// Expand an element.
///
'''),
)
ed('context-processing/src/algorithm/mod.rs',
('''					// Initialize value to the value associated with the @base entry.
					if let Some(value) = context.base() {
						match value {
							syntax::Nullable::Null => {
								// If value is null, remove the base IRI of result.
								result.set_base_iri(None);
							}
							syntax::Nullable::Some(iri_ref) => match iri_ref.as_iri() {
								Some(iri) => result.set_base_iri(Some(env.vocabulary.insert(iri))),
								None => {
									let resolved =
										resolve_iri(env.vocabulary, iri_ref, result.base_iri())
											.ok_or(Error::InvalidBaseIri)?;
									result.set_base_iri(Some(resolved))
								}
							},
						}
					}
''','''					apply_base(&mut env, &mut result, &context)?;
'''),
('''// This function tries to follow the recommended context processing algorithm.
''','''fn apply_base<'a, N, L, W>(
	env: &mut Environment<'a, N, L, W>,
	result: &mut Context<N::Iri, N::BlankId>,
	context: &Merged<'_>,
) -> Result<(), Error>
where
	N: VocabularyMut,
	N::Iri: Clone + Eq + Hash,
	N::BlankId: Clone + PartialEq,
{
	let Some(value) = context.base() else {
		return Ok(());
	};
	let new_base = match value {
		syntax::Nullable::Null => None,
		syntax::Nullable::Some(iri_ref) => {
			if let Some(iri) = iri_ref.as_iri() {
				Some(env.vocabulary.insert(iri))
			} else {
				match resolve_iri(env.vocabulary, iri_ref, result.base_iri()) {
					Some(r) => Some(r),
					None => return Err(Error::InvalidBaseIri),
				}
			}
		}
	};
	result.set_base_iri(new_base);
	Ok(())
}

// This function tries to follow the recommended context processing algorithm.
'''),
('''				// 5.9) If context has a @language entry:
				if let Some(value) = context.language() {
					match value {
						Nullable::Null => {
							// 5.9.2) If value is null, remove any default language from result.
							result.set_default_language(None);
						}
						Nullable::Some(tag) => {
							result.set_default_language(Some(tag.to_owned()));
						}
					}
				}
''',''),
('''				// 5.12) Create a map''','''				match context.language() {
					Some(Nullable::Null) => result.set_default_language(None),
					Some(Nullable::Some(tag)) => result.set_default_language(Some(tag.to_owned())),
					None => (),
				}

				// 5.12) Create a map'''),
('''				if !options.override_protected && result.has_protected_items() {
					return Err(Error::InvalidContextNullification);
				} else {
''','''				let nullifiable = options.override_protected || !result.has_protected_items();
				if !nullifiable {
					return Err(Error::InvalidContextNullification);
				}
				{
'''),
)
ed('context-processing/src/algorithm/define.rs',
('''			Some(d) => {
				if d.pending {
					Err(Error::CyclicIriMapping)
				} else {
					Ok(false)
				}
			}
			None => {
				self.0.insert(key.clone(), DefinedTerm { pending: true });

				Ok(true)
			}
		}''','''			Some(DefinedTerm { pending: true }) => Err(Error::CyclicIriMapping),
			Some(_) => Ok(false),
			None => {
				let fresh = DefinedTerm { pending: true };
				self.0.insert(key.clone(), fresh);
				Ok(true)
			}
		}'''),
('''						if let Some(typ) = typ {
							// If the expanded type is @json or @none, and processing mode is
							// json-ld-1.0, an invalid type mapping error has been detected and
							// processing is aborted.
							if options.processing_mode == ProcessingMode::JsonLd1_0
								&& (typ == Term::Keyword(Keyword::Json)
									|| typ == Term::Keyword(Keyword::None))
							{
								return Err(Error::InvalidTypeMapping);
							}

							if let Ok(typ) = typ.try_into() {
								// Set the type mapping for definition to type.
								definition.typ = Some(typ);
							} else {
								return Err(Error::InvalidTypeMapping);
							}
						}
''','''						if let Some(typ) = typ {
							let new_in_1_1 = matches!(
								typ,
								Term::Keyword(Keyword::Json) | Term::Keyword(Keyword::None)
							);
							if new_in_1_1 && options.processing_mode == ProcessingMode::JsonLd1_0 {
								return Err(Error::InvalidTypeMapping);
							}

							definition.typ =
								Some(typ.try_into().map_err(|_| Error::InvalidTypeMapping)?);
						}
'''),
('''					if !options.override_protected {
						if let Some(previous_definition) = previous_definition {
							if previous_definition.protected {
								// If `definition` is not the same as `previous_definition`
								// (other than the value of protected), a protected term
								// redefinition error has been detected, and processing is aborted.
								if definition.modulo_protected_field()
									!= previous_definition.modulo_protected_field()
								{
									return Err(Error::ProtectedTermRedefinition);
								}

								// Set `definition` to `previous definition` to retain the value of
								// protected.
								definition.protected = true;
							}
						}
					}

					active_context.set_type''','''					match previous_definition {
						Some(previous) if previous.protected && !options.override_protected => {
							let same = definition.modulo_protected_field()
								== previous.modulo_protected_field();
							if !same {
								return Err(Error::ProtectedTermRedefinition);
							}
							definition.protected = true;
						}
						_ => (),
					}

					active_context.set_type'''),
)
ed('core/src/flattening/node_map.rs',
('''			let mut flat_list = Vec::new();

			for item in list {
				flat_list.push(extend_node_map(env, node_map, item, active_graph)?);
			}
''','''			let flat_list = list
				.iter()
				.map(|item| extend_node_map(env, node_map, item, active_graph))
				.collect::<Result<Vec<_>, _>>()?;
'''),
('''		for (_, node) in other {
			self.merge_node(node)
		}
''','''		other.into_iter().for_each(|(_, node)| self.merge_node(node));
'''),
('''		let mut flat_objects = Vec::new();
		for object in objects {
			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
			flat_objects.push(flat_object);
		}
''','''		let mut flat_objects = Vec::with_capacity(objects.len());
		let mut it = objects.iter();
		while let Some(object) = it.next() {
			flat_objects.push(extend_node_map(env, node_map, object, active_graph)?);
		}
'''),
)
