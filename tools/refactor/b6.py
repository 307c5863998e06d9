from lib import Ref
E='crates/expansion/src/element.rs'
Ref('ee_scoped_helper',E).r('''	let mut property_scoped_base_url = None;
	let property_scoped_context = if let Some(definition) = active_property_definition {
		if let Some(base_url) = definition.base_url() {
			property_scoped_base_url = Some(base_url.clone());
		}

		definition.context()
	} else {
		None
	};
''','''	let property_scoped_base_url =
		active_property_definition.and_then(|definition| definition.base_url().cloned());
	let property_scoped_context =
		active_property_definition.and_then(|definition| definition.context());
''')
Ref('ee_prelim_bool',E).r('''			let mut preliminary_value_entry = None;
			let mut preliminary_id_entry = None;
''','''			let mut has_value_entry = false;
			let mut has_id_entry = false;
''').r('''			for Entry { key, value } in element.entries() {
				match expand_iri(''','''			for Entry { key, .. } in element.entries() {
				match expand_iri(''').r('''					Some(Term::Keyword(Keyword::Value)) => {
						preliminary_value_entry = Some(value.clone())
					}
					Some(Term::Keyword(Keyword::Id)) => preliminary_id_entry = Some(value.clone()),
					_ => (),
''','''					Some(Term::Keyword(Keyword::Value)) => has_value_entry = true,
					Some(Term::Keyword(Keyword::Id)) => has_id_entry = true,
					_ => (),
''').r('''					&& preliminary_value_entry.is_none()
					&& !(element.len() == 1 && preliminary_id_entry.is_some())
''','''					&& !has_value_entry
					&& (element.len() != 1 || !has_id_entry)
''')
Ref('ee_prev_nested',E).r('''			let mut active_context = Mown::Borrowed(active_context);
			if let Some(previous_context) = active_context.previous_context() {
''','''			let mut active_context = Mown::Borrowed(active_context);
			let is_id_reference = element.len() == 1 && preliminary_id_entry.is_some();
			if let Some(previous_context) = active_context.previous_context() {
''').r('''				if !from_map
					&& preliminary_value_entry.is_none()
					&& !(element.len() == 1 && preliminary_id_entry.is_some())
				{
					active_context = Mown::Owned(previous_context.clone())
				}
''','''				if !(from_map || preliminary_value_entry.is_some() || is_id_reference) {
					active_context = Mown::Owned(previous_context.clone())
				}
''')
Ref('ee_type_entries_match',E).r('''				if let Some(Term::Keyword(Keyword::Type)) = expanded_key {
					type_entries.push(entry);
				}
''','''				match expanded_key {
					Some(Term::Keyword(Keyword::Type)) => type_entries.push(entry),
					_ => continue,
				}
''')
Ref('ee_sorted_collect',E).r('''				let mut sorted_value = Vec::with_capacity(value.len());
				for term in value {
					if let Some(s) = term.as_string() {
						sorted_value.push(s);
					}
				}

				sorted_value.sort_unstable();
''','''				let mut sorted_value: Vec<&str> =
					value.iter().filter_map(|term| term.as_string()).collect();
				sorted_value.sort_unstable();
''')
Ref('ee_termctx_andthen',E).r('''					if let Some(term_definition) = type_scoped_context.get(term) {
						if let Some(local_context) = term_definition.context() {
''','''					let Some(term_definition) = type_scoped_context.get(term) else {
						continue;
					};
					{
						if let Some(local_context) = term_definition.context() {
''')
Ref('ee_input_type',E).r('''			let input_type = if let Some(Entry { value, .. }) = type_entries.first() {
				let value = Value::force_as_array(value);
				if let Some(input_type) = value.last() {
					input_type
						.as_string()
						.map(|input_type_str| {
							expand_iri(
								&mut env,
								active_context.as_ref(),
								Nullable::Some(input_type_str.into()),
								false,
								Some(options.policy.vocab),
							)
						})
						.transpose()?
						.flatten()
				} else {
					None
				}
			} else {
				None
			};
''','''			let last_type = type_entries
				.first()
				.and_then(|entry| Value::force_as_array(&entry.value).last())
				.and_then(|ty| ty.as_string());
			let input_type = match last_type {
				Some(ty) => expand_iri(
					&mut env,
					active_context.as_ref(),
					Nullable::Some(ty.into()),
					false,
					Some(options.policy.vocab),
				)?,
				None => None,
			};
''')
Ref('ee_key_letelse',E).r('''				if let Some(expanded_key) = expanded_key {
					match &expanded_key {
						Term::Keyword(Keyword::Value) => value_entry''','''				let Some(expanded_key) = expanded_key else {
					continue;
				};
				{
					match &expanded_key {
						Term::Keyword(Keyword::Value) => value_entry''')
Ref('ee_index_helper',E).r('''				let mut index = None;
				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
					match expanded_key {
						Term::Keyword(Keyword::Index) => match value.as_string() {
							Some(value) => index = Some(value.to_string()),
							None => return Err(Error::InvalidIndexValue),
						},
						Term::Keyword(Keyword::List) => (),
						_ => return Err(Error::InvalidSetOrListObject),
					}
				}
''','''				let index = list_index(expanded_entries)?;
''').app('''
/// Extracts the `@index` of a list object.
fn list_index<T, B>(entries: Vec<ExpandedEntry<T, B>>) -> Result<Option<String>, Error> {
	let mut index = None;
	for ExpandedEntry(_, key, value) in entries {
		match key {
			Term::Keyword(Keyword::List) => (),
			Term::Keyword(Keyword::Index) => {
				let value = value.as_string().ok_or(Error::InvalidIndexValue)?;
				index = Some(value.to_string());
			}
			_ => return Err(Error::InvalidSetOrListObject),
		}
	}
	Ok(index)
}
''')
Ref('ee_set_all',E).r('''				for ExpandedEntry(_, expanded_key, _) in expanded_entries {
					match expanded_key {
						Term::Keyword(Keyword::Index) => {
							// having an `@index` here is tolerated,
							// but is ignored.
						}
						Term::Keyword(Keyword::Set) => (),
						_ => return Err(Error::InvalidSetOrListObject),
					}
				}
''','''				// having an `@index` here is tolerated, but is ignored.
				let valid = expanded_entries.iter().all(|ExpandedEntry(_, key, _)| {
					matches!(
						key,
						Term::Keyword(Keyword::Index) | Term::Keyword(Keyword::Set)
					)
				});
				if !valid {
					return Err(Error::InvalidSetOrListObject);
				}
''')
Ref('ee_value_map',E).r('''				if let Some(value) = expanded_value {
					Ok(Expanded::Object(value))
				} else {
					Ok(Expanded::Null)
				}
''','''				Ok(expanded_value.map_or(Expanded::Null, Expanded::Object))
''')
Ref('ee_lit_base',E).r('''				let base_url = active_property
					.get_from(active_context)
					.and_then(|definition| definition.base_url().cloned());

				let result = property_scoped_context''','''				let result = property_scoped_context''').r('''						active_context,
						env.loader,
						base_url,
						options.into(),
					)
					.await?
					.into_processed();
				Mown::Owned(result)''','''						active_context,
						env.loader,
						property_scoped_base_url,
						options.into(),
					)
					.await?
					.into_processed();
				Mown::Owned(result)''')
Ref('ee_freefloat_fn',E).r('''			if active_property.is_none() || active_property == Keyword::Graph {
				return Ok(Expanded::Null);
			}
''','''			if is_free_floating(&active_property) {
				return Ok(Expanded::Null);
			}
''').app('''
/// Checks if scalars are dropped under the given property.
fn is_free_floating(active_property: &ActiveProperty<'_>) -> bool {
	if active_property.is_none() {
		return true;
	}

	*active_property == Keyword::Graph
}
''')
A='crates/expansion/src/array.rs'
Ref('ea_islist',A).r('''	let mut is_list = false;
	let mut result = Vec::new();
''','''	let mut result = Vec::new();
''').r('''	if let Some(definition) = active_property_definition {
		is_list = definition.container().contains(ContainerKind::List);
	}
''','''	let is_list = active_property_definition
		.is_some_and(|definition| definition.container().contains(ContainerKind::List));
''')
Ref('ea_tail',A).r('''	if is_list {
		return Ok(Expanded::Object(
			Object::List(object::List::new(result)).into(),
		));
	}

	// Return result.
	Ok(Expanded::Array(result))
''','''	Ok(if is_list {
		let list = object::List::new(result);
		Expanded::Object(Object::List(list).into())
	} else {
		Expanded::Array(result)
	})
''')
V='crates/expansion/src/value.rs'
Ref('ev_isjson',V).r('''	let mut is_json = input_type
		.as_ref()
		.map(|t| *t == Term::Keyword(Keyword::Json))
		.unwrap_or(false);
''','''	let mut is_json = matches!(input_type, Some(Term::Keyword(Keyword::Json)));
''')
Ref('ev_letelse',V).r('''				if let Some(value) = value.as_str() {
					// Otherwise, set expanded value to value. If value is not
					// well-formed according to section 2.2.9 of [BCP47],
					// processors SHOULD issue a warning.
					// TODO warning.

					if value != "@none" {
						language = Some(value.to_owned());
					}
				} else {
					return Err(InvalidValue::LanguageTaggedString);
				}
''','''				let value = value.as_str().ok_or(InvalidValue::LanguageTaggedString)?;
				match value {
					"@none" => (),
					tag => language = Some(tag.to_owned()),
				}
''')
Ref('ev_dir_chain',V).r('''				if let Some(value) = value.as_str() {
					if let Ok(value) = Direction::try_from(value) {
						direction = Some(value);
					} else {
						return Err(InvalidValue::BaseDirection);
					}
				} else {
					return Err(InvalidValue::BaseDirection);
				}
''','''				let value = value
					.as_str()
					.and_then(|value| Direction::try_from(value).ok())
					.ok_or(InvalidValue::BaseDirection)?;
				direction = Some(value);
''')
Ref('ev_type_invert',V).r('''				if let Some(ty_value) = value.as_str() {
					let expanded_ty''','''				let Some(ty_value) = value.as_str() else {
					return Err(InvalidValue::TypedValue);
				};
				{
					let expanded_ty''').r('''						_ => return Err(InvalidValue::TypedValue),
					}
				} else {
					return Err(InvalidValue::TypedValue);
				}
''','''						_ => return Err(InvalidValue::TypedValue),
					}
				}
''')
Ref('ev_literal_fn',V).r('''	let result = match value_entry {
		json_syntax::Value::Null => Literal::Null,
		json_syntax::Value::String(s) => Literal::String(s.clone()),
		json_syntax::Value::Number(n) => Literal::Number(n.clone()),
		json_syntax::Value::Boolean(b) => Literal::Boolean(*b),
		_ => {
			return Err(InvalidValue::ValueObjectValue);
		}
	};
''','''	let result = literal_of(value_entry).ok_or(InvalidValue::ValueObjectValue)?;
''').r('''	if matches!(result, Literal::Null) {
		return Ok(None);
	}
''','''	if let Literal::Null = &result {
		return Ok(None);
	}
''').app('''
fn literal_of(value: &json_syntax::Value) -> Option<Literal> {
	match value {
		json_syntax::Value::Null => Some(Literal::Null),
		json_syntax::Value::Boolean(b) => Some(Literal::Boolean(*b)),
		json_syntax::Value::Number(n) => Some(Literal::Number(n.clone())),
		json_syntax::Value::String(s) => Some(Literal::String(s.clone())),
		json_syntax::Value::Array(_) | json_syntax::Value::Object(_) => None,
	}
}
''')
Ref('ev_lang_tail',V).r('''		if let Literal::String(s) = result {
			let lang''','''		let Literal::String(s) = result else {
			return Err(InvalidValue::LanguageTaggedValue);
		};
		{
			let lang''').r('''				Err(_) => Err(InvalidValue::LanguageTaggedValue),
			};
		} else {
			return Err(InvalidValue::LanguageTaggedValue);
		}
''','''				Err(_) => Err(InvalidValue::LanguageTaggedValue),
			};
		}
''')
Ref('ev_lang_map',V).r('''			let lang = match language {
				Some(language) => {
					let (language, error) = LenientLangTagBuf::new(language);

					if let Some(error) = error {
						env.warnings.handle(
							env.vocabulary,
							Warning::MalformedLanguageTag(language.to_string(), error),
						)
					}

					Some(language)
				}
				None => None,
			};
''','''			let lang = language.map(|language| {
				let (tag, error) = LenientLangTagBuf::new(language);
				if let Some(error) = error {
					env.warnings.handle(
						env.vocabulary,
						Warning::MalformedLanguageTag(tag.to_string(), error),
					);
				}
				tag
			});
''')
L='crates/expansion/src/literal.rs'
Ref('el_type_and_then',L).r('''	let active_property_type = if let Some(active_property_definition) = active_property_definition
	{
		active_property_definition.typ().cloned()
	} else {
		None
	};
''','''	let active_property_type = active_property_definition.and_then(|d| d.typ().cloned());
''')
Ref('el_lang_helper',L).r('''						let language =
							if let Some(active_property_definition) = active_property_definition {
								if let Some(language) = active_property_definition.language() {
									language.cloned().option()
								} else {
									active_context
										.default_language()
										.map(LenientLangTag::to_owned)
								}
							} else {
								active_context
									.default_language()
									.map(LenientLangTag::to_owned)
							};
''','''						let language = match active_property_definition.and_then(|d| d.language()) {
							Some(language) => language.cloned().option(),
							None => active_context
								.default_language()
								.map(LenientLangTag::to_owned),
						};
''')
Ref('el_dir_unwrap',L).r('''						let direction =
							if let Some(active_property_definition) = active_property_definition {
								if let Some(direction) = active_property_definition.direction() {
									direction.option()
								} else {
									active_context.default_base_direction()
								}
							} else {
								active_context.default_base_direction()
							};
''','''						let direction = active_property_definition
							.and_then(|definition| definition.direction())
							.map(|direction| direction.option())
							.unwrap_or_else(|| active_context.default_base_direction());
''')
Ref('el_arms_merge',L).r('''			let result: Literal = match value {
				LiteralValue::Given(v) => match v {
					GivenLiteralValue::Boolean(b) => Literal::Boolean(b),
					GivenLiteralValue::Number(n) => Literal::Number(unsafe {
						json_syntax::NumberBuf::new_unchecked(n.as_bytes().into())
					}),
					GivenLiteralValue::String(s) => Literal::String(s.into()),
				},
				LiteralValue::Inferred(s) => Literal::String(s),
			};
''','''			let result: Literal = match value {
				LiteralValue::Inferred(s) => Literal::String(s),
				LiteralValue::Given(GivenLiteralValue::String(s)) => Literal::String(s.into()),
				LiteralValue::Given(GivenLiteralValue::Boolean(b)) => Literal::Boolean(b),
				LiteralValue::Given(GivenLiteralValue::Number(n)) => Literal::Number(unsafe {
					json_syntax::NumberBuf::new_unchecked(n.as_bytes().into())
				}),
			};
''')
Ref('el_into_iri',L).r('''					if let Ok(t) = t.into_iri() {
						ty = Some(t)
					} else {
						return Err(LiteralExpansionError::InvalidTypeValue);
					}
''','''					let iri = t
						.into_iri()
						.map_err(|_| LiteralExpansionError::InvalidTypeValue)?;
					ty = Some(iri);
''')
Ref('el_vocab_map',L).r('''			if let Some(ty) = ty {
				let id = node_id_of_term(ty);
				node.id = id;
			}

			Ok''','''			node.id = ty.and_then(node_id_of_term);

			Ok''')
Ref('el_asstr',L).r('''		match self {
			Self::String(s) => Some(s),
			_ => None,
		}
''','''		if let Self::String(s) = self {
			Some(s)
		} else {
			None
		}
''')
