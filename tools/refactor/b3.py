from lib import Ref
F='crates/expansion/src/node.rs'
X=Ref('exp_node_defaults',F)
X.r('''				let mut container_mapping = Container::new();

				let key_definition = active_context.get(key);
				let mut is_reverse_property = false;
				let mut is_json = false;

				if let Some(key_definition) = key_definition {
					is_reverse_property = key_definition.reverse_property();

					// Initialize container mapping to key's container mapping in active context.
					container_mapping = key_definition.container();

					// If key's term definition in `active_context` has a type mapping of `@json`,
					// set expanded value to a new map,
					// set the entry `@value` to `value`, and set the entry `@type` to `@json`.
					if key_definition.typ() == Some(&Type::Json) {
						is_json = true;
					}
				}
''','''				let key_definition = active_context.get(key);
				let (container_mapping, is_reverse_property, is_json) = match key_definition {
					Some(d) => (d.container(), d.reverse_property(), matches!(d.typ(), Some(Type::Json))),
					None => (Container::new(), false, false),
				};
''')
X=Ref('exp_node_direction',F)
X.r('''							let mut direction = active_context.default_base_direction();

							// If key's term definition in active context has a
							// direction mapping, update direction with that value.
							if let Some(key_definition) = key_definition {
								if let Some(key_direction) = key_definition.direction() {
									direction = key_direction.option()
								}
							}
''','''							let direction = match key_definition.and_then(|d| d.direction()) {
								Some(d) => d.option(),
								None => active_context.default_base_direction(),
							};
''')
X=Ref('exp_node_langentries',F)
X.r('''							let mut language_entries: Vec<&Entry> = Vec::with_capacity(value.len());
							for language_entry in value.iter() {
								language_entries.push(language_entry);
							}
''','''							let mut language_entries: Vec<&Entry> = value.iter().collect();
''')
X=Ref('exp_node_lang_item',F)
X.r('''											if let Ok(v) =
												LangString::new(item.clone(), language, direction)
											{
												// If item is neither @none nor well-formed
												// according to section 2.2.9 of [BCP47],
												// processors SHOULD issue a warning.
												// TODO warning

												// Append v to expanded value.
												expanded_value.push(
													Object::Value(Value::LangString(v)).into(),
												)
											} else {
												expanded_value.push(
													Object::Value(Value::Literal(
														Literal::String(item.clone()),
														None,
													))
													.into(),
												)
											}
''','''											expanded_value.push(language_map_item(item, language, direction));
''')
X.app('''
fn language_map_item<T, B>(
	item: &json_syntax::String,
	language: Option<LenientLangTagBuf>,
	direction: Option<json_ld_syntax::Direction>,
) -> IndexedObject<T, B> {
	let value = match LangString::new(item.clone(), language, direction) {
		Ok(v) => Value::LangString(v),
		Err(_) => Value::Literal(Literal::String(item.clone()), None),
	};

	Object::Value(value).into()
}
''')
X=Ref('exp_node_index_key',F)
X.r('''							let index_key = if let Some(key_definition) = key_definition {
								if let Some(index) = key_definition.index() {
									index.as_str()
								} else {
									"@index"
								}
							} else {
								"@index"
							};
''','''							let index_key = key_definition
								.and_then(|d| d.index())
								.map(|i| i.as_str())
								.unwrap_or("@index");
''')
X=Ref('exp_node_map_context',F)
X.r('''								let mut map_context = Mown::Borrowed(active_context);
								if container_mapping.contains(ContainerKind::Type)
									|| container_mapping.contains(ContainerKind::Id)
								{
									if let Some(previous_context) =
										active_context.previous_context()
									{
										map_context = Mown::Borrowed(previous_context)
									}
								}
''','''								let is_type_map = container_mapping.contains(ContainerKind::Type);
								let mut map_context = Mown::Borrowed(
									if is_type_map || container_mapping.contains(ContainerKind::Id) {
										active_context.previous_context().unwrap_or(active_context)
									} else {
										active_context
									},
								);
''')
X=Ref('exp_node_reverse_letelse',F)
X.r('''						if let Some(value) = value.as_object() {
							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
''','''						{
							let Some(value) = value.as_object() else {
								return Err(Error::InvalidReverseValue);
							};
							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
''')
X.r('''						} else {
							return Err(Error::InvalidReverseValue);
						}
''','''						}
''')
X=Ref('exp_node_nest_def',F)
X.r('''							let mut property_scoped_base_url = None;
							let property_scoped_context = match active_context.get(nesting_key) {
								Some(definition) => {
									if let Some(base_url) = definition.base_url() {
										property_scoped_base_url = Some(base_url.clone());
									}

									definition.context()
								}
								None => None,
							};
''','''							let nesting_definition = active_context.get(nesting_key);
							let property_scoped_base_url =
								nesting_definition.and_then(|d| d.base_url().cloned());
							let property_scoped_context = nesting_definition.and_then(|d| d.context());
''')
X=Ref('exp_node_nest_entries',F)
X.r('''								let mut nested_entries: Vec<&Entry> = Vec::new();

								for entry in nested_value.iter() {
									nested_entries.push(entry)
								}
''','''								let mut nested_entries: Vec<&Entry> = nested_value.iter().collect();
''')
