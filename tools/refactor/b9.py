from lib import Ref
L='crates/compaction/src/lib.rs'
N='crates/compaction/src/node.rs'
V='crates/compaction/src/value.rs'
D='crates/compaction/src/document.rs'
J='crates/syntax/src/context/try_from_json.rs'
IDX_OLD='''		let mut index_container = false;
		if let Some(active_property) = active_property {
			if let Some(active_property_definition) = active_context.get(active_property) {
				if active_property_definition
					.container()
					.contains(ContainerKind::Index)
				{
					// then the compacted result will be inside of an @index container,
					// drop the @index entry by continuing to the next expanded property.
					index_container = true;
				}
			}
		}
'''
Ref('cn_index_chain',N).r(IDX_OLD,'''		let index_container = active_property
			.and_then(|p| active_context.get(p))
			.map(|d| d.container().contains(ContainerKind::Index))
			.unwrap_or(false);
''')
Ref('cn_index_isome',N).r(IDX_OLD,'''		let index_container = match active_property {
			Some(p) => active_context
				.get(p)
				.is_some_and(|d| d.container().contains(ContainerKind::Index)),
			None => false,
		};
''')
Ref('cn_index_helper',N).r(IDX_OLD,'''		let index_container =
			has_index_container(active_context.as_ref(), active_property);
''').app('''
fn has_index_container<I, B>(active_context: &Context<I, B>, active_property: Option<&str>) -> bool
where
	I: Clone + Hash + Eq,
	B: Clone + Hash + Eq,
{
	let Some(property) = active_property else {
		return false;
	};

	match active_context.get(property) {
		Some(definition) => definition.container().contains(ContainerKind::Index),
		None => false,
	}
}
''')
Ref('cn_typemap_andthen',N).r('''			let type_mapping = match active_property {
				Some(prop) => match active_context.get(prop) {
					Some(def) => def.typ(),
					None => None,
				},
				None => None,
			};
''','''			let type_mapping = active_property
				.and_then(|prop| active_context.get(prop))
				.and_then(|def| def.typ());
''')
Ref('cn_typemap_match',N).r('''			if type_mapping == Some(&Type::Id) {
				let compacted_value = compact_iri(
					vocabulary,
					active_context.as_ref(),
					&id,
					false,
					false,
					options,
				)?;
				return Ok(optional_string(compacted_value));
			}

			// Otherwise, if the type mapping of active property is set to @vocab,
			// set result to the result of IRI compacting the value associated with the @id entry.
			if type_mapping == Some(&Type::Vocab) {
				let compacted_value = compact_iri(
					vocabulary,
					active_context.as_ref(),
					&id,
					true,
					false,
					options,
				)?;
				return Ok(optional_string(compacted_value));
			}
''','''			// Otherwise, if the type mapping of active property is set to @vocab,
			// set result to the result of IRI compacting the value associated with the @id entry.
			let vocab = match type_mapping {
				Some(Type::Id) => Some(false),
				Some(Type::Vocab) => Some(true),
				_ => None,
			};

			if let Some(vocab) = vocab {
				return Ok(optional_string(compact_iri(
					vocabulary,
					active_context.as_ref(),
					&id,
					vocab,
					false,
					options,
				)?));
			}
''')
Ref('cn_prev_let',N).r('''	if !(node.is_empty() && node.id.is_some()) {
		// does not consist of a single @id entry
		if let Some(previous_context) = active_context.previous_context() {
			active_context = previous_context
		}
	}
''','''	let is_node_reference = node.is_empty() && node.id.is_some();
	let active_context = if is_node_reference {
		active_context
	} else {
		active_context.previous_context().unwrap_or(active_context)
	};
''').r("	mut active_context: &Context","	active_context: &Context")
Ref('cn_types_guard',N).r('''	// If expanded property is @type:
	if let Some(types) = types {
		if !types.is_empty() {
''','''	// If expanded property is @type:
	let types = match types {
		Some(types) if !types.is_empty() => types,
		_ => return Ok(()),
	};
	{
		{
''')
Ref('cn_types_slice',N).r('''			let compacted_value = if types.len() == 1 {
				optional_string(compact_iri(
					vocabulary,
					type_scoped_context,
					&types[0].clone().into_term(),
					true,
					false,
					options,
				)?)
			} else {
''','''			let compacted_value = if let [ty] = types {
				optional_string(compact_iri(
					vocabulary,
					type_scoped_context,
					&ty.clone().into_term(),
					true,
					false,
					options,
				)?)
			} else {
''')
Ref('cn_types_container_map',N).r('''			let container_mapping = match active_context.get(alias.as_str()) {
				Some(def) => def.container(),
				None => Container::None,
			};
			let as_array = (options.processing_mode == ProcessingMode::JsonLd1_1
				&& container_mapping.contains(ContainerKind::Set))
				|| !options.compact_arrays;
''','''			let is_set = active_context
				.get(alias.as_str())
				.map_or(Container::None, |def| def.container())
				.contains(ContainerKind::Set);
			let as_array = if !options.compact_arrays {
				true
			} else {
				options.processing_mode == ProcessingMode::JsonLd1_1 && is_set
			};
''')
Ref('cn_types_direct_vec',N).r('''				json_syntax::Value::Array(compacted_value.into_iter().collect())
''','''				json_syntax::Value::Array(compacted_value)
''')
Ref('cn_types_map_collect',N).r('''				let mut compacted_value = Vec::with_capacity(types.len());

				// For each item expanded type in expanded value:
				for ty in types.iter() {
					let ty = ty.clone().into_term();

					// Set term by IRI compacting expanded type using type-scoped context for active context.
					let compacted_ty =
						compact_iri(vocabulary, type_scoped_context, &ty, true, false, options)?;

					// Append term, to compacted value.
					compacted_value.push(optional_string(compacted_ty))
				}

				json_syntax::Value::Array(compacted_value.into_iter().collect())
''','''				// For each item expanded type in expanded value:
				let compacted_value: Vec<_> = types
					.iter()
					.map(|ty| {
						let ty = ty.clone().into_term();
						compact_iri(vocabulary, type_scoped_context, &ty, true, false, options)
							.map(optional_string)
					})
					.collect::<Result<_, _>>()?;

				json_syntax::Value::Array(compacted_value)
''')
Ref('cn_reverse_filter',N).r('''	if let Some(reverse_properties) = node.reverse_properties_entry() {
		if !reverse_properties.is_empty() {
''','''	if let Some(reverse_properties) = node
		.reverse_properties_entry()
		.filter(|reverse_properties| !reverse_properties.is_empty())
	{
		{
''')
Ref('cn_reverse_take',N).r('''				let mut value = json_syntax::Value::Null;
				std::mem::swap(&mut value, &mut *mapped_value);
''','''				let value = std::mem::replace(&mut *mapped_value, json_syntax::Value::Null);
''')
Ref('cn_reverse_match',N).r('''				if let Some(term_definition) = active_context.get(property.as_str()) {
					if term_definition.reverse_property() {
						// Initialize as array to true if the container mapping for property in
						// the active context includes @set, otherwise the negation of compactArrays.
						let as_array = term_definition.container().contains(ContainerKind::Set)
							|| !options.compact_arrays;

						// Use add value to add value to the property entry in result using as array.
						add_value(&mut result, property, value, as_array);
						continue;
					}
				}

				reverse_map.insert(property.clone(), value);
''','''				match active_context.get(property.as_str()) {
					Some(term_definition) if term_definition.reverse_property() => {
						// Initialize as array to true if the container mapping for property in
						// the active context includes @set, otherwise the negation of compactArrays.
						let as_array = !options.compact_arrays
							|| term_definition.container().contains(ContainerKind::Set);

						// Use add value to add value to the property entry in result using as array.
						add_value(&mut result, property, value, as_array);
					}
					_ => {
						reverse_map.insert(property.clone(), value);
					}
				}
''')
Ref('cn_scoped_helper',N).r('''	let mut active_context = Mown::Borrowed(active_context);
	if let Some(active_property) = active_property {
		if let Some(active_property_definition) = type_scoped_context.get(active_property) {
			if let Some(local_context) = active_property_definition.context() {
				active_context = Mown::Owned(
					local_context
						.process_with(
							vocabulary,
							active_context.as_ref(),
							loader,
							active_property_definition.base_url().cloned(),
							ProcessingOptions::from(options).with_override(),
						)
						.await?
						.into_processed(),
				)
			}
		}
	}
''','''	let mut active_context = Mown::Borrowed(active_context);
	let scoped_definition = active_property.and_then(|p| type_scoped_context.get(p));
	if let Some(active_property_definition) = scoped_definition {
		if let Some(local_context) = active_property_definition.context() {
			let base_url = active_property_definition.base_url().cloned();
			let processing_options = ProcessingOptions::from(options).with_override();
			let processed = local_context
				.process_with(
					vocabulary,
					active_context.as_ref(),
					loader,
					base_url,
					processing_options,
				)
				.await?;
			active_context = Mown::Owned(processed.into_processed());
		}
	}
''')
Ref('cn_sort_flag',N).r('''	let mut expanded_entries: Vec<_> = node.properties().iter().collect();
	if options.ordered {
		let vocabulary: &N = vocabulary;
		expanded_entries.sort_by(|(a, _), (b, _)| {
			(**a)
				.with(vocabulary)
				.as_str()
				.cmp((**b).with(vocabulary).as_str())
		})
	}
''','''	let expanded_entries = {
		let mut entries: Vec<_> = node.properties().iter().collect();

		if options.ordered {
			let vocabulary: &N = vocabulary;
			entries.sort_by(|(a, _), (b, _)| {
				let a = (**a).with(vocabulary);
				let b = (**b).with(vocabulary);
				a.as_str().cmp(b.as_str())
			});
		}

		entries
	};
''')
Ref('cn_graph_helper',N).r('''	if let Some(graph_entry) = node.graph_entry() {
		compact_property(
			vocabulary,
			&mut result,
			Term::Keyword(Keyword::Graph),
			graph_entry.iter(),
			active_context.as_ref(),
			loader,
			false,
			options,
		)
		.await?
	}
''','''	match node.graph_entry() {
		Some(graph) => {
			let property = Term::Keyword(Keyword::Graph);
			compact_property(
				vocabulary,
				&mut result,
				property,
				graph.iter(),
				active_context.as_ref(),
				loader,
				false,
				options,
			)
			.await?;
		}
		None => (),
	}
''')
Ref('cv_container_map',V).r('''	let container_mapping = match active_property_definition {
		Some(def) => def.container(),
		None => Container::None,
	};

	let remove_index =
		(index.is_some() && container_mapping.contains(ContainerKind::Index)) || index.is_none();
''','''	let container_mapping = active_property_definition
		.map(|def| def.container())
		.unwrap_or(Container::None);

	let remove_index = match index {
		Some(_) => container_mapping.contains(ContainerKind::Index),
		None => true,
	};
''')
Ref('cv_removeindex_or',V).r('''		(index.is_some() && container_mapping.contains(ContainerKind::Index)) || index.is_none();
''','''		index.is_none() || container_mapping.contains(ContainerKind::Index);
''')
Ref('cv_lang_andthen',V).r('''	let language = match active_property_definition {
		Some(def) => match def.language() {
			Some(lang) => lang.as_ref().map(|l| l.as_lenient_lang_tag_ref()).option(),
			None => active_context.default_language(),
		},
		None => active_context.default_language(),
	};
''','''	let language = match active_property_definition.and_then(|def| def.language()) {
		Some(lang) => lang.as_ref().map(|l| l.as_lenient_lang_tag_ref()).option(),
		None => active_context.default_language(),
	};
''')
Ref('cv_dir_mapor',V).r('''	let direction = match active_property_definition {
		Some(def) => match def.direction() {
			Some(dir) => dir.option(),
			None => active_context.default_base_direction(),
		},
		None => active_context.default_base_direction(),
	};
''','''	let direction = active_property_definition
		.and_then(|def| def.direction())
		.map(|dir| dir.option())
		.unwrap_or_else(|| active_context.default_base_direction());
''')
Ref('cv_typ_andthen',V).r('''	let type_mapping: Option<Type<N::Iri>> = match active_property_definition {
		Some(def) => def.typ().cloned(),
		None => None,
	};
''','''	let type_mapping: Option<Type<N::Iri>> =
		active_property_definition.and_then(|def| def.typ().cloned());
''')
Ref('cv_def_andthen',V).r('''	let active_property_definition = match active_property {
		Some(active_property) => active_context.get(active_property),
		None => None,
	};
''','''	let active_property_definition = active_property.and_then(|p| active_context.get(p));
''')
Ref('cv_lit_to_json',V).r('''				match lit {
					Literal::Null => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Null);
					}
					Literal::Boolean(b) => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Boolean(*b));
					}
					Literal::Number(n) => {
						result.insert(compact_key.unwrap(), json_syntax::Value::Number(n.clone()));
					}
					Literal::String(s) => {
						result.insert(
							compact_key.unwrap(),
							json_syntax::Value::String(s.as_str().into()),
						);
					}
				}
''','''				let json = match lit {
					Literal::Null => json_syntax::Value::Null,
					Literal::Boolean(b) => json_syntax::Value::Boolean(*b),
					Literal::Number(n) => json_syntax::Value::Number(n.clone()),
					Literal::String(s) => json_syntax::Value::String(s.as_str().into()),
				};
				result.insert(compact_key.unwrap(), json);
''')
Ref('cv_json_early',V).r('''			if type_mapping == Some(Type::Json) && remove_index {
				return Ok(value.clone());
			} else {
				let compact_key = compact_key(
''','''			if remove_index && matches!(type_mapping, Some(Type::Json)) {
				return Ok(value.clone());
			}
			{
				let compact_key = compact_key(
''')
Ref('cv_optional_string',V).r('''				result.insert(
					compact_key.unwrap(),
					match compact_ty {
						Some(s) => json_syntax::Value::String(s.into()),
						None => json_syntax::Value::Null,
					},
				);
''','''				let compact_ty = compact_ty
					.map(|s| json_syntax::Value::String(s.into()))
					.unwrap_or(json_syntax::Value::Null);
				result.insert(compact_key.unwrap(), compact_ty);
''')
Ref('cv_index_early',V).r('''	if !remove_index {
		if let Some(index) = index {
			let compact_key''','''	if let Some(index) = index {
		if !remove_index {
			let compact_key''')
Ref('cv_key_helper',V).r('''				if let Some(language) = ls.language() {
					let compact_key = crate::compact_key(
						vocabulary,
						active_context.as_ref(),
						&Term::Keyword(Keyword::Language),
						true,
						false,
						options,
					)?;
''','''				if let Some(language) = ls.language() {
					let compact_key =
						keyword_key(vocabulary, active_context.as_ref(), Keyword::Language, options)?;
''').r('''				if let Some(direction) = ls.direction() {
					let compact_key = crate::compact_key(
						vocabulary,
						active_context.as_ref(),
						&Term::Keyword(Keyword::Direction),
						true,
						false,
						options,
					)?;
''','''				if let Some(direction) = ls.direction() {
					let compact_key =
						keyword_key(vocabulary, active_context.as_ref(), Keyword::Direction, options)?;
''').app('''
fn keyword_key<N>(
	vocabulary: &N,
	active_context: &Context<N::Iri, N::BlankId>,
	keyword: Keyword,
	options: Options,
) -> Result<Option<json_syntax::object::Key>, crate::IriConfusedWithPrefix>
where
	N: VocabularyMut,
	N::Iri: Clone + Hash + Eq,
	N::BlankId: Clone + Hash + Eq,
{
	compact_key(
		vocabulary,
		active_context,
		&Term::Keyword(keyword),
		true,
		false,
		options,
	)
}
''')
Ref('cl_coll_expr',L).r('''	let mut list_or_set = false;
	if let Some(active_property) = active_property {
		if let Some(active_property_definition) = active_context.get(active_property) {
			list_or_set = active_property_definition
				.container()
				.contains(ContainerKind::List)
				|| active_property_definition
					.container()
					.contains(ContainerKind::Set);
		}
	}

	if result.is_empty()
		|| result.len() > 1
		|| !options.compact_arrays
''','''	let list_or_set = active_property
		.and_then(|p| active_context.get(p))
		.map(|def| def.container())
		.is_some_and(|c| c.contains(ContainerKind::List) || c.contains(ContainerKind::Set));

	if result.len() != 1
		|| !options.compact_arrays
''')
Ref('cl_coll_pop',L).r('''		return Ok(json_syntax::Value::Array(result.into_iter().collect()));
	}

	Ok(result.into_iter().next().unwrap())
''','''		Ok(json_syntax::Value::Array(result))
	} else {
		Ok(result.pop().unwrap())
	}
''')
Ref('cl_coll_continue',L).r('''		if !compacted_item.is_null() {
			result.push(compacted_item)
		}
	}
''','''		if compacted_item.is_null() {
			continue;
		}

		result.push(compacted_item);
	}
''')
Ref('cl_add_iflet',L).r('''	match map
		.get_unique(key)
		.ok()
		.unwrap()
		.map(|entry| entry.is_array())
	{
		Some(false) => {
			let Entry { key, value } = map.remove_unique(key).ok().unwrap().unwrap();
			map.insert(key, json_syntax::Value::Array(vec![value]));
		}
		None if as_array => {
			map.insert(key.into(), json_syntax::Value::Array(Vec::new()));
		}
		_ => (),
	}
''','''	let existing = map.get_unique(key).ok().unwrap();
	match existing {
		Some(entry) => {
			if !entry.is_array() {
				let entry = map.remove_unique(key).ok().unwrap().unwrap();
				map.insert(entry.key, json_syntax::Value::Array(vec![entry.value]));
			}
		}
		None => {
			if as_array {
				map.insert(key.into(), json_syntax::Value::Array(Vec::new()));
			}
		}
	}
''')
Ref('cl_add_match_tail',L).r('''			if let Some(array) = map.get_unique_mut(key).ok().unwrap() {
				array.as_array_mut().unwrap().push(value);
				return;
			}

			map.insert(key.into(), value);
''','''			match map.get_unique_mut(key).ok().unwrap() {
				Some(array) => array.as_array_mut().unwrap().push(value),
				None => {
					map.insert(key.into(), value);
				}
			}
''')
Ref('cl_list_chain',L).r('''					if let Some(index) = index {
						let mut index_container = false;
						if let Some(active_property) = active_property {
							if let Some(active_property_definition) =
								active_context.get(active_property)
							{
								if active_property_definition
									.container()
									.contains(ContainerKind::Index)
								{
									// then the compacted result will be inside of an @index container,
									// drop the @index entry by continuing to the next expanded property.
									index_container = true;
								}
							}
						}

						if !index_container {
''','''					if let Some(index) = index {
						let in_index_map = active_property
							.and_then(|p| active_context.get(p))
							.is_some_and(|d| d.container().contains(ContainerKind::Index));

						if !in_index_map {
''')
Ref('cl_list_prev',L).r('''				let mut active_context = active_context;
				// If active context has a previous context, the active context is not propagated.
				// If element does not contain an @value entry, and element does not consist of
				// a single @id entry, set active context to previous context from active context,
				// as the scope of a term-scoped context does not apply when processing new node objects.
				if let Some(previous_context) = active_context.previous_context() {
					active_context = previous_context
				}
''','''				let active_context = match active_context.previous_context() {
					Some(previous_context) => previous_context,
					None => active_context,
				};
''')
Ref('cl_from_default',L).r('''		json_ld_context_processing::Options {
			processing_mode: options.processing_mode,
			..Default::default()
		}
''','''		let mut result = json_ld_context_processing::Options::default();
		result.processing_mode = options.processing_mode;
		result
''')
Ref('cl_unordered_mut',L).r('''	pub fn unordered(self) -> Self {
		Self {
			ordered: false,
			..self
		}
	}
''','''	pub fn unordered(mut self) -> Self {
		self.ordered = false;
		self
	}
''')
Ref('cd_embed_early',D).r('''		let obj = match value {
			json_syntax::Value::Array(array) => {
				let mut obj = json_syntax::Object::new();
''','''		let mut obj = match value {
			json_syntax::Value::Array(array) => {
				let mut obj = json_syntax::Object::new();
''').r('''				Some(obj)
			}
			json_syntax::Value::Object(obj) => Some(obj),
			_null => None,
		};

		if let Some(mut obj) = obj {
			let json_context = IntoJson::into_json(context.unprocessed().clone());

			if !obj.is_empty()
				&& !json_context.is_null()
				&& !json_context.is_empty_array_or_object()
			{
				obj.insert_front("@context".into(), json_context);
			}

			*self = obj.into()
		};

		Ok(())
''','''				obj
			}
			json_syntax::Value::Object(obj) => obj,
			_null => return Ok(()),
		};

		let json_context = IntoJson::into_json(context.unprocessed().clone());
		let no_context = json_context.is_null() || json_context.is_empty_array_or_object();

		if !no_context && !obj.is_empty() {
			obj.insert_front("@context".into(), json_context);
		}

		*self = json_syntax::Value::Object(obj);
		Ok(())
''')
Ref('cd_embed_key',D).r('''				let mut obj = json_syntax::Object::new();

				if !array.is_empty() {
					let key''','''				let mut obj = json_syntax::Object::default();
				let has_items = !array.is_empty();

				if has_items {
					let key''')
Ref('tj_many_collect',J).r('''				let mut many = Vec::with_capacity(a.len());

				for item in a {
					many.push(ContextEntry::try_from_json(item)?)
				}

				Ok(Self::Many(many))
''','''				let entries = a
					.into_iter()
					.map(ContextEntry::try_from_json)
					.collect::<Result<Vec<_>, _>>()?;

				Ok(Self::Many(entries))
''')
Ref('tj_type_let_else',J).r('''				match container {
					Some(container) => Ok(Self {
						container,
						protected,
					}),
					None => Err(InvalidContext::InvalidTermDefinition),
				}
''','''				let Some(container) = container else {
					return Err(InvalidContext::InvalidTermDefinition);
				};

				Ok(Self {
					container,
					protected,
				})
''')
Ref('tj_nest_maperr',J).r('''			json_syntax::Value::String(s) => match Self::try_from(s.into_string()) {
				Ok(nest) => Ok(nest),
				Err(InvalidNest(s)) => Err(InvalidContext::InvalidNestValue(s)),
			},
''','''			json_syntax::Value::String(s) => Self::try_from(s.into_string())
				.map_err(|InvalidNest(s)| InvalidContext::InvalidNestValue(s)),
''')
Ref('tj_iri_map',J).r('''			json_syntax::Value::String(s) => match IriRefBuf::new(s.into_string()) {
				Ok(iri_ref) => Ok(Self::IriRef(iri_ref)),
				Err(e) => Err(InvalidContext::InvalidIriRef(e.0)),
			},
''','''			json_syntax::Value::String(s) => IriRefBuf::new(s.into_string())
				.map(Self::IriRef)
				.map_err(|e| InvalidContext::InvalidIriRef(e.0)),
''')
Ref('tj_container_helper',J).r('''							let container = match value {
								json_syntax::Value::Null => Nullable::Null,
								other => {
									let container = Container::try_from_json(other)?;
									Nullable::Some(container)
								}
							};

							def.container = Some(container)
''','''							def.container = Some(nullable_from_json(value, Container::try_from_json)?)
''').r('''							let term_def = match value {
								json_syntax::Value::Null => Nullable::Null,
								other => Nullable::Some(TermDefinition::try_from_json(other)?),
							};
''','''							let term_def =
								nullable_from_json(value, TermDefinition::try_from_json)?;
''').app('''
fn nullable_from_json<T, E>(
	value: json_syntax::Value,
	f: impl FnOnce(json_syntax::Value) -> Result<T, E>,
) -> Result<Nullable<T>, E> {
	if value.is_null() {
		return Ok(Nullable::Null);
	}

	f(value).map(Nullable::Some)
}
''')
Ref('tj_version_if',J).r('''			json_syntax::Value::Number(n) => match n.as_str() {
				"1.1" => Ok(Self::V1_1),
				_ => Err(InvalidContext::InvalidTermDefinition),
			},
''','''			json_syntax::Value::Number(n) if n.as_str() == "1.1" => Ok(Self::V1_1),
			json_syntax::Value::Number(_) => Err(InvalidContext::InvalidTermDefinition),
''')
Ref('tj_typec_ok',J).r('''			json_syntax::Value::String(s) => match Keyword::try_from(s.as_str()) {
				Ok(Keyword::Set) => Ok(Self::Set),
				_ => Err(InvalidContext::InvalidTermDefinition),
			},
''','''			json_syntax::Value::String(s) => {
				if matches!(Keyword::try_from(s.as_str()), Ok(Keyword::Set)) {
					Ok(Self::Set)
				} else {
					Err(InvalidContext::InvalidTermDefinition)
				}
			}
''')
Ref('tj_dup_if',J).r('''							if container
								.replace(definition::TypeContainer::try_from_json(value)?)
								.is_some()
							{
								return Err(InvalidContext::DuplicateKey);
							}
''','''							let new = definition::TypeContainer::try_from_json(value)?;
							if container.is_some() {
								return Err(InvalidContext::DuplicateKey);
							}
							container = Some(new);
''')
Ref('tj_vocab_map',J).r('''impl TryFromJson for definition::Vocab {
	type Error = InvalidContext;

	fn try_from_json(value: json_syntax::Value) -> Result<Self, InvalidContext> {
		match value {
			json_syntax::Value::String(s) => Ok(Self::from(s.into_string())),
			unexpected => Err(InvalidContext::Unexpected(
				unexpected.kind(),
				&[json_syntax::Kind::String],
			)),
		}
	}
}
''','''fn expect_string(value: json_syntax::Value) -> Result<String, InvalidContext> {
	if let json_syntax::Value::String(s) = value {
		Ok(s.into_string())
	} else {
		Err(InvalidContext::Unexpected(
			value.kind(),
			&[json_syntax::Kind::String],
		))
	}
}

impl TryFromJson for definition::Vocab {
	type Error = InvalidContext;

	fn try_from_json(value: json_syntax::Value) -> Result<Self, InvalidContext> {
		expect_string(value).map(Self::from)
	}
}
''')
