from lib import Ed
e=Ed('crates/compaction/src/node.rs')
e.r('''			let type_mapping = match active_property {
				Some(prop) => match active_context.get(prop) {
					Some(def) => def.typ(),
					None => None,
				},
				None => None,
			};
''','''			let type_mapping = active_property
				.and_then(|prop| active_context.get(prop))
				.and_then(|def| def.typ());
''')
e.r('''		let mut index_container = false;
		if let Some(active_property) = active_property {
			if let Some(active_property_definition) = active_context.get(active_property) {
				if active_property_definition
					.container()
					.contains(ContainerKind::Index)
				{
					// then the compacted result will be inside of an @index container,
					// drop the @index entry by continuing to the next expanded property.
					index_container = true;
				}
			}
		}
''','''		let index_container = active_property
			.and_then(|p| active_context.get(p))
			.is_some_and(|d| d.container().contains(ContainerKind::Index));
''')
e.r('''				// Initialize compacted value to an empty array.
				let mut compacted_value = Vec::with_capacity(types.len());

				// For each item expanded type in expanded value:
				for ty in types.iter() {
					let ty = ty.clone().into_term();

					// Set term by IRI compacting expanded type using type-scoped context for active context.
					let compacted_ty =
						compact_iri(vocabulary, type_scoped_context, &ty, true, false, options)?;

					// Append term, to compacted value.
					compacted_value.push(optional_string(compacted_ty))
				}

				json_syntax::Value::Array(compacted_value.into_iter().collect())
''','''				let compacted_value = types
					.iter()
					.map(|ty| {
						compact_iri(vocabulary, type_scoped_context, &ty.clone().into_term(), true, false, options)
							.map(optional_string)
					})
					.collect::<Result<Vec<_>, _>>()?;
				json_syntax::Value::Array(compacted_value)
''')
e.r('''	if let Some(active_property) = active_property {
		if let Some(active_property_definition) = type_scoped_context.get(active_property) {
			if let Some(local_context) = active_property_definition.context() {
				active_context = Mown::Owned(
					local_context
						.process_with(
							vocabulary,
							active_context.as_ref(),
							loader,
							active_property_definition.base_url().cloned(),
							ProcessingOptions::from(options).with_override(),
						)
						.await?
						.into_processed(),
				)
			}
		}
	}
''','''	if let Some(definition) = active_property.and_then(|p| type_scoped_context.get(p)) {
		if let Some(c) = enter_scope(vocabulary, definition, active_context.as_ref(), loader, ProcessingOptions::from(options).with_override()).await? {
			active_context = Mown::Owned(c)
		}
	}
''')
e.r('''				if let Some(local_context) = active_property_definition.context() {
					active_context = Mown::Owned(
						local_context
							.process_with(
								vocabulary,
								active_context.as_ref(),
								loader,
								active_property_definition.base_url().cloned(),
								ProcessingOptions::from(options).with_override(),
							)
							.await?
							.into_processed(),
					)
				}
''','''				let processing_options = ProcessingOptions::from(options).with_override();
				if let Some(c) = enter_scope(vocabulary, active_property_definition, active_context.as_ref(), loader, processing_options).await? {
					active_context = Mown::Owned(c)
				}
''')
e.app('''
async fn enter_scope<N, L>(
	vocabulary: &mut N,
	definition: json_ld_core::context::TermDefinitionRef<'_, N::Iri, N::BlankId>,
	active_context: &Context<N::Iri, N::BlankId>,
	loader: &L,
	options: ProcessingOptions,
) -> Result<Option<Context<N::Iri, N::BlankId>>, Error>
where
	N: VocabularyMut,
	N::Iri: Clone + Hash + Eq,
	N::BlankId: Clone + Hash + Eq,
	L: Loader,
{
	match definition.context() {
		Some(local_context) => {
			let base = definition.base_url().cloned();
			let processed = local_context
				.process_with(vocabulary, active_context, loader, base, options)
				.await?;
			Ok(Some(processed.into_processed()))
		}
		None => Ok(None),
	}
}
''')
e.w()
