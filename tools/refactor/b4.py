from lib import Ref
F='crates/compaction/src/lib.rs'
Ref('co_lib_list_prev',F).r('''				let mut active_context = active_context;
				// If active context has a previous''','''				// If active context has a previous''').r('''				if let Some(previous_context) = active_context.previous_context() {
					active_context = previous_context
				}

				// If the term definition for active property in active context has a local context:
				// FIXME''','''				let active_context = active_context.previous_context().unwrap_or(active_context);

				// If the term definition for active property in active context has a local context:
				// FIXME''')
Ref('co_lib_index_container',F).r('''						let mut index_container = false;
						if let Some(active_property) = active_property {
							if let Some(active_property_definition) =
								active_context.get(active_property)
							{
								if active_property_definition
									.container()
									.contains(ContainerKind::Index)
								{
									// then the compacted result will be inside of an @index container,
									// drop the @index entry by continuing to the next expanded property.
									index_container = true;
								}
							}
						}

						if !index_container {''','''						let definition = match active_property {
							Some(p) => active_context.get(p),
							None => None,
						};
						let index_container = match definition {
							Some(d) => d.container().contains(ContainerKind::Index),
							None => false,
						};

						if !index_container {''')
Ref('co_lib_add_value',F).r('''	match map
		.get_unique(key)
		.ok()
		.unwrap()
		.map(|entry| entry.is_array())
	{
		Some(false) => {
			let Entry { key, value } = map.remove_unique(key).ok().unwrap().unwrap();
			map.insert(key, json_syntax::Value::Array(vec![value]));
		}
		None if as_array => {
			map.insert(key.into(), json_syntax::Value::Array(Vec::new()));
		}
		_ => (),
	}
''','''	let is_array = map.get_unique(key).ok().unwrap().map(json_syntax::Value::is_array);
	if is_array == Some(false) {
		let entry = map.remove_unique(key).ok().unwrap().unwrap();
		map.insert(entry.key, json_syntax::Value::Array(vec![entry.value]));
	} else if is_array.is_none() && as_array {
		map.insert(key.into(), json_syntax::Value::Array(vec![]));
	}
''')
Ref('co_lib_add_value2',F).r('''			if let Some(array) = map.get_unique_mut(key).ok().unwrap() {
				array.as_array_mut().unwrap().push(value);
				return;
			}

			map.insert(key.into(), value);
''','''			match map.get_unique_mut(key).ok().unwrap() {
				Some(array) => array.as_array_mut().unwrap().push(value),
				None => {
					map.insert(key.into(), value);
				}
			}
''')
Ref('co_lib_value_value',F).r('''		Value::Literal(lit, _ty) => match lit {
			Literal::Null => json_syntax::Value::Null,
			Literal::Boolean(b) => json_syntax::Value::Boolean(*b),
			Literal::Number(n) => json_syntax::Value::Number(n.clone()),
			Literal::String(s) => json_syntax::Value::String(s.as_str().into()),
		},
''','''		Value::Literal(Literal::Null, _) => json_syntax::Value::Null,
		Value::Literal(Literal::Boolean(b), _) => json_syntax::Value::Boolean(*b),
		Value::Literal(Literal::Number(n), _) => json_syntax::Value::Number(n.clone()),
		Value::Literal(Literal::String(s), _) => json_syntax::Value::String(s.as_str().into()),
''')
Ref('co_lib_collection',F).r('''	let mut list_or_set = false;
	if let Some(active_property) = active_property {
		if let Some(active_property_definition) = active_context.get(active_property) {
			list_or_set = active_property_definition
				.container()
				.contains(ContainerKind::List)
				|| active_property_definition
					.container()
					.contains(ContainerKind::Set);
		}
	}

	if result.is_empty()
		|| result.len() > 1
		|| !options.compact_arrays
		|| active_property == Some("@graph")
		|| active_property == Some("@set")
		|| list_or_set
	{
		return Ok(json_syntax::Value::Array(result.into_iter().collect()));
	}

	Ok(result.into_iter().next().unwrap())
''','''	let container = active_property
		.and_then(|p| active_context.get(p))
		.map(|d| d.container());
	let list_or_set = container
		.is_some_and(|c| c.contains(ContainerKind::List) || c.contains(ContainerKind::Set));

	let unwrap_single = options.compact_arrays
		&& result.len() == 1
		&& !list_or_set
		&& active_property != Some("@graph")
		&& active_property != Some("@set");
	if unwrap_single {
		Ok(result.into_iter().next().unwrap())
	} else {
		Ok(json_syntax::Value::Array(result.into_iter().collect()))
	}
''')
Ref('co_lib_nullskip',F).r('''		if !compacted_item.is_null() {
			result.push(compacted_item)
		}
''','''		if compacted_item.is_null() {
			continue;
		}

		result.push(compacted_item);
''')
F='crates/compaction/src/iri.rs'
Ref('co_iri_disamb',F).r('''	if is_keyword_like(&s) && !is_keyword(&s) {
		"./".to_string() + &s
	} else {
		s
	}
''','''	if !is_keyword_like(&s) || is_keyword(&s) {
		return s;
	}

	format!("./{s}")
''')
Ref('co_iri_disamb2',F).r('''	if is_keyword_like(&s) && !is_keyword(&s) {
		"./".to_string() + &s
	} else {
		s
	}
''','''	if is_keyword(&s) || !is_keyword_like(&s) {
		s
	} else {
		"./".to_string() + &s
	}
''')
Ref('co_iri_base',F).r('''		if let Some(base_iri) = active_context.base_iri() {
			let base_iri = vocabulary.iri(base_iri).unwrap();
			if let Some(iri) = var.as_iri() {
				let iri = vocabulary.iri(iri).unwrap();
				return Ok(Some(disambiguate_keyword(
					iri.relative_to(base_iri).as_str().into(),
				)));
			}
		}
''','''		if let (Some(base_iri), Some(iri)) = (active_context.base_iri(), var.as_iri()) {
			let base_iri = vocabulary.iri(base_iri).unwrap();
			let iri = vocabulary.iri(iri).unwrap();
			let relative: String = iri.relative_to(base_iri).as_str().into();
			return Ok(Some(disambiguate_keyword(relative)));
		}
''')
Ref('co_iri_confused',F).r('''	if let Some(iri) = var.as_iri() {
		let iri = vocabulary.iri(iri).unwrap();
		if iri.authority().is_none()
			&& active_context
				.get(iri.scheme().as_str())
				.is_some_and(|definition| definition.prefix())
		{
			return Err(IriConfusedWithPrefix);
		}
	}
''','''	check_confusion(vocabulary, active_context, var)?;
''').app('''
fn check_confusion<N>(
	vocabulary: &N,
	active_context: &Context<N::Iri, N::BlankId>,
	var: &Term<N::Iri, N::BlankId>,
) -> Result<(), IriConfusedWithPrefix>
where
	N: Vocabulary,
	N::Iri: Clone + Hash + Eq,
	N::BlankId: Clone + Hash + Eq,
{
	let Some(iri) = var.as_iri() else { return Ok(()) };
	let iri = vocabulary.iri(iri).unwrap();
	if iri.authority().is_some() {
		return Ok(());
	}
	match active_context.get(iri.scheme().as_str()) {
		Some(def) if def.prefix() => Err(IriConfusedWithPrefix),
		_ => Ok(()),
	}
}
''')
Ref('co_iri_candidate',F).r('''		match definition.value() {
			Some(iri_mapping) if definition.prefix() => {
				if let Some(suffix) = var
					.with(vocabulary)
					.as_str()
					.strip_prefix(iri_mapping.with(vocabulary).as_str())
				{
					if !suffix.is_empty() {''','''		if !definition.prefix() {
			continue;
		}
		match definition.value() {
			Some(iri_mapping) => {
				if let Some(suffix) = var
					.with(vocabulary)
					.as_str()
					.strip_prefix(iri_mapping.with(vocabulary).as_str())
				{
					if !suffix.is_empty() {''')
Ref('co_iri_candidate2',F).r('''						let mut candidate = key.to_string();
						candidate.push(':');
						candidate.push_str(suffix);
''','''						let candidate = format!("{key}:{suffix}");
''')
Ref('co_iri_candidate3',F).r('''						if (compact_iri.is_empty()
							|| candidate.len() < compact_iri.len()
							|| (candidate.len() == compact_iri.len() && candidate < compact_iri))
							&& (candidate_def.is_none()
								|| (candidate_def.is_some()
									&& (candidate_def.and_then(|def| def.value()) == Some(var))
									&& value.is_none()))
						{
							compact_iri = candidate
						}
''','''						let better = compact_iri.is_empty()
							|| candidate.len() < compact_iri.len()
							|| (candidate.len() == compact_iri.len() && candidate < compact_iri);
						let usable = match candidate_def {
							None => true,
							Some(def) => value.is_none() && def.value() == Some(var),
						};
						if better && usable {
							compact_iri = candidate
						}
''')
Ref('co_iri_emptylist',F).r('''			let mut is_empty_list = false;
			if let Some(value) = value {
				if let object::Ref::List(list) = value.inner().as_ref() {
					if list.is_empty() {
						is_empty_list = true;
					}
				}
			}
''','''			let is_empty_list = value.is_some_and(|value| match value.inner().as_ref() {
				object::Ref::List(list) => list.is_empty(),
				_ => false,
			});
''')
Ref('co_iri_vocabsel',F).r('''									let mut vocab = false;
									let compacted_iri''','''									let compacted_iri''').r('''									if let Some(def) = active_context.get(compacted_iri.as_str()) {
										if let Some(iri_mapping) = def.value() {
											vocab = iri_mapping == id;
										}
									}

									if vocab {
										selection.push(TypeSelection::Type(Type::Vocab));
										selection.push(TypeSelection::Type(Type::Id));
									} else {
										selection.push(TypeSelection::Type(Type::Id));
										selection.push(TypeSelection::Type(Type::Vocab));
									}
''','''									let vocab = active_context
										.get(compacted_iri.as_str())
										.and_then(|def| def.value())
										.is_some_and(|iri_mapping| iri_mapping == id);

									let (first, second) = if vocab {
										(Type::Vocab, Type::Id)
									} else {
										(Type::Id, Type::Vocab)
									};
									selection.push(TypeSelection::Type(first));
									selection.push(TypeSelection::Type(second));
''')
Ref('co_iri_11',F).r('''			if options.processing_mode != ProcessingMode::JsonLd1_0 && !has_index {
				containers.push(Container::Index);
				containers.push(Container::IndexSet)
			}

			if options.processing_mode != ProcessingMode::JsonLd1_0 && is_simple_value {
				containers.push(Container::Language);
				containers.push(Container::LanguageSet)
			}
''','''			if options.processing_mode != ProcessingMode::JsonLd1_0 {
				if !has_index {
					containers.push(Container::Index);
					containers.push(Container::IndexSet)
				}

				if is_simple_value {
					containers.extend([Container::Language, Container::LanguageSet]);
				}
			}
''')
Ref('co_iri_graphcont',F).r('''						if has_index {
							// If value contains an @index entry, append the values
							// @graph@index and @graph@index@set to containers.
							containers.push(Container::GraphIndex);
							containers.push(Container::GraphIndexSet);
						}

						if node.id.is_some() {''','''						let with_index = [Container::GraphIndex, Container::GraphIndexSet];
						if has_index {
							// If value contains an @index entry, append the values
							// @graph@index and @graph@index@set to containers.
							for c in with_index {
								containers.push(c)
							}
						}

						if node.id.is_some() {''')
Ref('co_iri_common',F).r('''						if common_lang_dir.is_none() {
							common_lang_dir = Some(Nullable::Some((None, None)))
						}
						let common_lang_dir = common_lang_dir.unwrap();

						if common_type.is_none() {
							common_type = Some(None)
						}
						let common_type = common_type.unwrap();

						if let Some(common_type) = common_type {
							type_lang_value =
								Some(TypeLangValue::Type(TypeSelection::Type(common_type)))
						} else {
							type_lang_value =
								Some(TypeLangValue::Lang(LangSelection::Lang(common_lang_dir)))
						}
''','''						let common_lang_dir = common_lang_dir.unwrap_or(Nullable::Some((None, None)));
						let common_type = common_type.unwrap_or(None);

						type_lang_value = Some(match common_type {
							Some(ty) => TypeLangValue::Type(TypeSelection::Type(ty)),
							None => TypeLangValue::Lang(LangSelection::Lang(common_lang_dir)),
						});
''')
Ref('co_iri_common2',F).r('''								if common_type.is_none() {
									common_type = Some(item_type)
								} else if *common_type.as_ref().unwrap() != item_type {
									common_type = Some(None)
								}
''','''								match &common_type {
									None => common_type = Some(item_type),
									Some(ty) if *ty != item_type => common_type = Some(None),
									Some(_) => (),
								}
''')
Ref('co_iri_itemtype',F).r('''								match item.inner() {
									Object::Value(value) => {
										is_value = true;
										match value {
											Value::LangString(lang_str) => {
												item_lang_dir = Some(Nullable::Some((
													lang_str.language(),
													lang_str.direction(),
												)))
											}
											Value::Literal(_, Some(ty)) => {
												item_type = Some(Type::Iri(ty.clone()))
											}
											Value::Literal(_, None) => {
												item_lang_dir = Some(Nullable::Null)
											}
											Value::Json(_) => item_type = Some(Type::Json),
										}
									}
									_ => item_type = Some(Type::Id),
								}
''','''								if let Object::Value(value) = item.inner() {
									is_value = true;
									match value {
										Value::Json(_) => item_type = Some(Type::Json),
										Value::Literal(_, ty) => match ty {
											None => item_lang_dir = Some(Nullable::Null),
											Some(ty) => item_type = Some(Type::Iri(ty.clone())),
										},
										Value::LangString(s) => {
											let pair = (s.language(), s.direction());
											item_lang_dir = Some(Nullable::Some(pair))
										}
									}
								} else {
									item_type = Some(Type::Id)
								}
''')
Ref('co_iri_index0',F).r('''			if let Some(value) = value {
				if value.index().is_some() && !value.is_graph() {
					containers.push(Container::Index);
					containers.push(Container::IndexSet);
				}
			}
''','''			if value.is_some_and(|v| v.index().is_some() && !v.is_graph()) {
				containers.push(Container::Index);
				containers.push(Container::IndexSet);
			}
''')
F='crates/compaction/src/value.rs'
Ref('co_val_scope',F).r('''	if let Some(active_property) = active_property {
		if let Some(active_property_definition) = active_context.get(active_property) {
			if let Some(local_context) = active_property_definition.context() {
				active_context = Mown::Owned(
					local_context
						.process_with(
							vocabulary,
							active_context.as_ref(),
							loader,
							active_property_definition.base_url().cloned(),
							ProcessingOptions::from(options).with_override(),
						)
						.await?
						.into_processed(),
				)
			}
		}
	}
''','''	let scoped = active_property
		.and_then(|p| active_context.get(p))
		.and_then(|d| d.context().map(|c| (c, d.base_url().cloned())));
	if let Some((local_context, base)) = scoped {
		let processed = local_context
			.process_with(
				vocabulary,
				active_context.as_ref(),
				loader,
				base,
				ProcessingOptions::from(options).with_override(),
			)
			.await?;
		active_context = Mown::Owned(processed.into_processed());
	}
''')
Ref('co_val_lang',F).r('''	let language = match active_property_definition {
		Some(def) => match def.language() {
			Some(lang) => lang.as_ref().map(|l| l.as_lenient_lang_tag_ref()).option(),
			None => active_context.default_language(),
		},
		None => active_context.default_language(),
	};
''','''	let language = match active_property_definition.and_then(|def| def.language()) {
		Some(lang) => lang.as_ref().map(|l| l.as_lenient_lang_tag_ref()).option(),
		None => active_context.default_language(),
	};
''')
Ref('co_val_dir',F).r('''	let direction = match active_property_definition {
		Some(def) => match def.direction() {
			Some(dir) => dir.option(),
			None => active_context.default_base_direction(),
		},
		None => active_context.default_base_direction(),
	};
''','''	let mut direction = active_context.default_base_direction();
	if let Some(def) = active_property_definition {
		if let Some(dir) = def.direction() {
			direction = dir.option();
		}
	}
''')
Ref('co_val_tm',F).r('''	let type_mapping: Option<Type<N::Iri>> = match active_property_definition {
		Some(def) => def.typ().cloned(),
		None => None,
	};

	let container_mapping = match active_property_definition {
		Some(def) => def.container(),
		None => Container::None,
	};

	let remove_index =
		(index.is_some() && container_mapping.contains(ContainerKind::Index)) || index.is_none();
''','''	let type_mapping: Option<Type<N::Iri>> =
		active_property_definition.and_then(|def| def.typ()).cloned();

	let container_mapping = active_property_definition
		.map(|def| def.container())
		.unwrap_or(Container::None);

	let remove_index = match index {
		Some(_) => container_mapping.contains(ContainerKind::Index),
		None => true,
	};
''')
Ref('co_val_lit',F).r('''				match lit {
					Literal::Null => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Null);
					}
					Literal::Boolean(b) => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Boolean(*b));
					}
					Literal::Number(n) => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Number(n.clone()));
					}
					Literal::String(s) => {
						result.insert(
							compact_key.unwrap(),
							json_syntax::Value::String(s.as_str().into()),
						);
					}
				}
''','''				let json_value = match lit {
					Literal::Null => json_syntax::Value::Null,
					Literal::Boolean(b) => json_syntax::Value::Boolean(*b),
					Literal::Number(n) => json_syntax::Value::Number(n.clone()),
					Literal::String(s) => json_syntax::Value::String(s.as_str().into()),
				};
				result.insert(compact_key.unwrap(), json_value);
''')
Ref('co_val_ls',F).r('''			if remove_index && language == ls_language && direction == ls_direction {
				// || (ls.direction().is_none() && direction.is_none())) {
				return Ok(json_syntax::Value::String(ls.as_str().into()));
			} else {''','''			let same = ls_direction == direction && ls_language == language;
			if same && remove_index {
				return Ok(json_syntax::Value::String(ls.as_str().into()));
			} else {''')
Ref('co_val_helper',F).r('''					result.insert(
						compact_key.unwrap(),
						match compact_ty {
							Some(s) => json_syntax::Value::String(s.into()),
							None => json_syntax::Value::Null,
						},
					);
''','''					result.insert(compact_key.unwrap(), type_value(compact_ty));
''').r('''				result.insert(
					compact_key.unwrap(),
					match compact_ty {
						Some(s) => json_syntax::Value::String(s.into()),
						None => json_syntax::Value::Null,
					},
				);
''','''				result.insert(compact_key.unwrap(), type_value(compact_ty));
''').app('''
fn type_value(ty: Option<String>) -> json_syntax::Value {
	ty.map_or(json_syntax::Value::Null, |s| json_syntax::Value::String(s.into()))
}
''')
Ref('co_val_keyhelper',F).r('''				let compact_key = compact_key(
					vocabulary,
					active_context.as_ref(),
					&Term::Keyword(Keyword::Value),
					true,
					false,
					options,
				)?;
				result.insert(compact_key.unwrap(), value.clone());
''','''				let value_key = keyword_key(vocabulary, active_context.as_ref(), Keyword::Value, options)?;
				result.insert(value_key, value.clone());
''').app('''
fn keyword_key<N>(
	vocabulary: &N,
	active_context: &Context<N::Iri, N::BlankId>,
	keyword: Keyword,
	options: crate::Options,
) -> Result<json_syntax::object::Key, crate::IriConfusedWithPrefix>
where
	N: rdf_types::Vocabulary,
	N::Iri: Clone + Hash + Eq,
	N::BlankId: Clone + Hash + Eq,
{
	let key = compact_key(vocabulary, active_context, &Term::Keyword(keyword), true, false, options)?;
	Ok(key.unwrap())
}
''')
