from lib import Ref
F='crates/compaction/src/property.rs'
Ref('cp_list_array',F).r('''	if !compacted_item.is_array() {
		let array = vec![compacted_item];
		compacted_item = json_syntax::Value::Array(array)
	}
''','''	compacted_item = match compacted_item {
		json_syntax::Value::Array(items) => json_syntax::Value::Array(items),
		single => json_syntax::Value::Array(vec![single]),
	};
''')
Ref('cp_list_array2',F).r('''	let mut compacted_item = Box::pin(compact_collection_with(''','''	let compacted_item = Box::pin(compact_collection_with(''').r('''	if !compacted_item.is_array() {
		let array = vec![compacted_item];
		compacted_item = json_syntax::Value::Array(array)
	}
''','''	let compacted_item = into_array(compacted_item);
''').app('''
fn into_array(value: json_syntax::Value) -> json_syntax::Value {
	if value.is_array() {
		return value;
	}

	json_syntax::Value::Array(vec![value])
}
''')
Ref('cp_list_early',F).r('''	if !container.contains(ContainerKind::List) {
		// Convert''','''	if container.contains(ContainerKind::List) {
		nest_result.insert(item_active_property.into(), compacted_item);
		return Ok(());
	}

	{
		// Convert''').r('''			options,
		)?
	} else {
		// Otherwise, set the value of the item active property entry in nest result to compacted item.
		nest_result.insert(item_active_property.into(), compacted_item);
	}

	Ok(())''','''			options,
		)
	}
''')
Ref('cp_graph_map_helper',F).r('''		if nest_result
			.get_unique(item_active_property)
			.ok()
			.unwrap()
			.is_none()
		{
			nest_result.insert(
				item_active_property.into(),
				json_ld_syntax::Object::default().into(),
			);
		}

		let map_object = nest_result
			.get_unique_mut(item_active_property)
			.ok()
			.unwrap()
			.unwrap();
		let map_object = map_object.as_object_mut().unwrap();
''','''		let map_object = entry_object(nest_result, item_active_property);
''',n=2).r('''	if nest_result
		.get_unique(item_active_property)
		.ok()
		.unwrap()
		.is_none()
	{
		nest_result.insert(
			item_active_property.into(),
			json_syntax::Object::default().into(),
		);
	}

	let map_object = nest_result
		.get_unique_mut(item_active_property)
		.ok()
		.unwrap()
		.unwrap();
	let map_object = map_object.as_object_mut().unwrap();
''','''	let map_object = entry_object(nest_result, item_active_property);
''').app('''
fn entry_object<'a>(parent: &'a mut json_syntax::Object, key: &str) -> &'a mut json_syntax::Object {
	if parent.get_unique(key).ok().unwrap().is_none() {
		parent.insert(key.into(), json_syntax::Object::default().into());
	}

	parent
		.get_unique_mut(key)
		.ok()
		.unwrap()
		.unwrap()
		.as_object_mut()
		.unwrap()
}
''')
Ref('cp_graph_id',F).r('''		let (id_value, vocab) = match &node.id {
			Some(entry) => (entry.clone().into_term(), false),
			None => (Term::Keyword(Keyword::None), true),
		};
''','''		let vocab = node.id.is_none();
		let id_value = node
			.id
			.as_ref()
			.map(|id| id.clone().into_term())
			.unwrap_or(Term::Keyword(Keyword::None));
''')
Ref('cp_graph_nested',F).r('''	if container.contains(ContainerKind::Graph) && container.contains(ContainerKind::Id) {
''','''	let is_graph = container.contains(ContainerKind::Graph);
	let has_index = container.contains(ContainerKind::Index);
	if is_graph && container.contains(ContainerKind::Id) {
''').r('''	} else if container.contains(ContainerKind::Graph)
		&& container.contains(ContainerKind::Index)
		&& index_map
	{
''','''	} else if is_graph && has_index && index_map {
''').r('''	} else if container.contains(ContainerKind::Graph)
		&& !container.contains(ContainerKind::Index)
		&& node.is_simple_graph()
	{
''','''	} else if is_graph && !has_index && node.is_simple_graph() {
''')
Ref('cp_graph_included',F).r('''		compacted_item = match compacted_item {
			json_syntax::Value::Array(items) if items.len() > 1 => {
				let key = compact_iri(
					vocabulary,
					active_context,
					&Term::Keyword(Keyword::Included),
					true,
					false,
					options,
				)?
				.unwrap();
				let mut map = json_syntax::Object::default();
				map.insert(key.into(), json_syntax::Value::Array(items));
				json_syntax::Value::Object(map)
			}
			item => item,
		};
''','''		let multiple = compacted_item.as_array().is_some_and(|items| items.len() > 1);
		if multiple {
			let included = Term::Keyword(Keyword::Included);
			let key = compact_iri(vocabulary, active_context, &included, true, false, options)?;
			let mut map = json_syntax::Object::default();
			map.insert(key.unwrap().into(), compacted_item);
			compacted_item = json_syntax::Value::Object(map)
		}
''')
Ref('cp_graph_value',F).r('''			map.insert(
				key.into(),
				match value {
					Some(s) => s.into(),
					None => json_syntax::Value::Null,
				},
			);
''','''			let value: json_syntax::Value = value.map(Into::into).unwrap_or(json_syntax::Value::Null);
			map.insert(key.into(), value);
''')
Ref('cp_idx_mapkey',F).r('''	let mut map_key = None;
	if let Some(index) = index {
		if in_index_map && !has_index_key {
			map_key = Some(index.to_owned())
		} else {
			let key = compact_key(
				vocabulary,
				active_context,
				&Term::Keyword(Keyword::Index),
				true,
				false,
				options,
			)?;
			object.insert(key.unwrap(), index.into());
		}
	}
''','''	let map_key = match index {
		Some(index) if in_index_map && !has_index_key => Some(index.to_owned()),
		Some(index) => {
			let key = compact_key(
				vocabulary,
				active_context,
				&Term::Keyword(Keyword::Index),
				true,
				false,
				options,
			)?;
			object.insert(key.unwrap(), index.into());
			None
		}
		None => None,
	};
''')
Ref('cp_idx_order',F).r('''	let in_index_map =
		container.contains(ContainerKind::Index) && !container.contains(ContainerKind::Graph);
	let has_index_key = active_context
		.get(item_active_property)
		.is_some_and(|definition| definition.index().is_some());
''','''	let has_index_key = match active_context.get(item_active_property) {
		Some(definition) => definition.index().is_some(),
		None => false,
	};
	let in_index_map =
		!container.contains(ContainerKind::Graph) && container.contains(ContainerKind::Index);
''')
Ref('cp_nest_valid',F).r('''					if *nest_term != Nest::Nest {
						match active_context.get(nest_term.as_str()) {
							Some(term_def)
								if term_def.value() == Some(&Term::Keyword(Keyword::Nest)) => {}
							_ => return Err(Error::InvalidNestValue),
						}
					}
''','''					let valid = *nest_term == Nest::Nest
						|| active_context
							.get(nest_term.as_str())
							.and_then(|d| d.value())
							.is_some_and(|v| *v == Term::Keyword(Keyword::Nest));
					if !valid {
						return Err(Error::InvalidNestValue);
					}
''')
Ref('cp_nest_valid2',F).r('''					if *nest_term != Nest::Nest {
						match active_context.get(nest_term.as_str()) {
							Some(term_def)
								if term_def.value() == Some(&Term::Keyword(Keyword::Nest)) => {}
							_ => return Err(Error::InvalidNestValue),
						}
					}
''','''					check_nest(active_context, nest_term)?;
''').app('''
fn check_nest<I, B>(active_context: &Context<I, B>, nest_term: &Nest) -> Result<(), Error>
where
	I: Clone + Hash + Eq,
	B: Clone + Hash + Eq,
{
	if *nest_term == Nest::Nest {
		return Ok(());
	}

	if let Some(definition) = active_context.get(nest_term.as_str()) {
		if let Some(Term::Keyword(Keyword::Nest)) = definition.value() {
			return Ok(());
		}
	}

	Err(Error::InvalidNestValue)
}
''')
Ref('cp_nest_asarray',F).r('''	let as_array = if container.contains(ContainerKind::Set)
		|| item_active_property == "@graph"
		|| item_active_property == "@list"
	{
		true
	} else {
		!compact_arrays
	};
''','''	let as_array = !compact_arrays
		|| matches!(item_active_property, "@graph" | "@list")
		|| container.contains(ContainerKind::Set);
''')
Ref('cp_empty_flag',F).r('''	let mut is_empty = true;

''','').r('''	for expanded_item in expanded_value {
		is_empty = false;
''','''	let is_empty = expanded_value.is_empty();
	for expanded_item in expanded_value {
''')
Ref('cp_indexmap_loop',F).r('''	let index_map = expanded_value
		.iter()
		.all(|expanded_item| match expanded_item.inner().as_ref() {
			object::Ref::Node(node) if node.is_graph() => node.is_simple_graph(),
			_ => true,
		});
''','''	let mut index_map = true;
	for expanded_item in &expanded_value {
		if let object::Ref::Node(node) = expanded_item.inner().as_ref() {
			if node.is_graph() && !node.is_simple_graph() {
				index_map = false;
				break;
			}
		}
	}
''')
Ref('cp_letelse',F).r('''		if let Some(item_active_property) = item_active_property {
			let (nest_result, container, as_array) = select_nest_result(''','''		let Some(item_active_property) = item_active_property else {
			continue;
		};
		{
			let (nest_result, container, as_array) = select_nest_result(''')
Ref('cp_conttype',F).r('''						let container_type = if container.contains(ContainerKind::Language) {
							ContainerKind::Language
						} else if container.contains(ContainerKind::Index) {
							ContainerKind::Index
						} else if container.contains(ContainerKind::Id) {
							ContainerKind::Id
						} else {
							ContainerKind::Type
						};
''','''						let container_type = map_kind(container);
''').app('''
/// Kind of map used by the given container.
fn map_kind(container: Container) -> ContainerKind {
	if container.contains(ContainerKind::Language) {
		return ContainerKind::Language;
	}

	if container.contains(ContainerKind::Index) {
		return ContainerKind::Index;
	}

	match container.contains(ContainerKind::Id) {
		true => ContainerKind::Id,
		false => ContainerKind::Type,
	}
}
''')
Ref('cp_ismap',F).r('''					if !container.contains(ContainerKind::Graph)
						&& (container.contains(ContainerKind::Language)
							|| container.contains(ContainerKind::Index)
							|| container.contains(ContainerKind::Id)
							|| container.contains(ContainerKind::Type))
					{
''','''					let is_map = [
						ContainerKind::Language,
						ContainerKind::Index,
						ContainerKind::Id,
						ContainerKind::Type,
					]
					.into_iter()
					.any(|kind| container.contains(kind));
					if is_map && !container.contains(ContainerKind::Graph) {
''')
Ref('cp_indexkey',F).r('''						let index_key = match active_context.get(item_active_property.as_str()) {
							Some(def) if def.index().is_some() => def.index(),
							_ => None,
						};
''','''						let index_key = active_context
							.get(item_active_property.as_str())
							.and_then(|def| def.index());
''')
Ref('cp_mapkey_none',F).r('''						let map_key = match map_key {
							Some(key) => key,
							None => {
								let key = compact_iri(
									vocabulary,
									active_context,
									&Term::Keyword(Keyword::None),
									true,
									false,
									options,
								)?;
								key.unwrap()
							}
						};
''','''						let map_key = if let Some(key) = map_key {
							key
						} else {
							let none = Term::Keyword(Keyword::None);
							compact_iri(vocabulary, active_context, &none, true, false, options)?
								.unwrap()
						};
''')
Ref('cp_remaining',F).r('''							if !remaining_values.is_empty() {
								if let Some(map) = compacted_item.as_object_mut() {
									for value in remaining_values {
										add_value(
											map,
											container_key.as_deref().unwrap(),
											value,
											false,
										)
									}
								}
							}
''','''							if let Some(map) = compacted_item.as_object_mut() {
								for value in remaining_values {
									add_value(map, container_key.as_deref().unwrap(), value, false)
								}
							}
''')
Ref('cp_typesplit',F).r('''											json_syntax::Value::Array(values) => {
												let mut values = values.into_iter();
												match values.next() {
													Some(first_value) => (
														first_value.as_str().map(ToOwned::to_owned),
														values.collect(),
													),
													None => (None, values.collect()),
												}
											}
''','''											json_syntax::Value::Array(values) => {
												let mut values = values.into_iter();
												let first_value = values.next();
												let key = first_value
													.and_then(|v| v.as_str().map(ToOwned::to_owned));
												(key, values.collect())
											}
''')
Ref('cp_singleid',F).r('''							if let Some(map) = compacted_item.as_object() {
								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
''','''							let only_id = compacted_item.as_object().is_some_and(|map| {
								map.get_unique("@id").ok().unwrap().is_some() && map.len() == 1
							});
							if only_id {
								{
''')
Ref('cp_langmap',F).r('''							if let object::Ref::Value(value) = expanded_item.inner().as_ref() {
								compacted_item = value_value(value)
							}
''','''							compacted_item = match expanded_item.inner().as_ref() {
								object::Ref::Value(value) => value_value(value),
								_ => compacted_item,
							};
''')
Ref('cp_last_add',F).r('''			let (nest_result, _, _) = select_nest_result(
				result,
				active_context,
				&item_active_property,
				options.compact_arrays,
			)?;

			// Use `add_value` to add an empty array to the `item_active_property` entry in
			// `nest_result` using true for `as_array`.
			add_value(nest_result, &item_active_property, Vec::new().into(), true)
''','''			let selected = select_nest_result(
				result,
				active_context,
				&item_active_property,
				options.compact_arrays,
			)?;
			let empty = json_syntax::Value::Array(Vec::new());
			add_value(selected.0, &item_active_property, empty, true)
''')
