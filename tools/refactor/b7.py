from lib import Ref
N='crates/core/src/flattening/node_map.rs'
Ref('nm_graph_iflet',N).r('''		match id {
			Some(id) => self.graphs.get(id),
			None => Some(&self.default_graph),
		}
''','''		if let Some(id) = id {
			self.graphs.get(id)
		} else {
			Some(&self.default_graph)
		}
''')
Ref('nm_declare_entry',N).r('''		if let std::collections::hash_map::Entry::Vacant(entry) = self.graphs.entry(id) {
			entry.insert(NodeMapGraph::new());
		}
''','''		self.graphs.entry(id).or_insert_with(NodeMapGraph::new);
''')
Ref('nm_iter_or_else',N).r('''		match self.default_graph.take() {
			Some(default_graph) => Some((None, default_graph)),
			None => self.graphs.next().map(|(id, graph)| (Some(id), graph)),
		}
''','''		if let Some(default_graph) = self.default_graph.take() {
			return Some((None, default_graph));
		}

		let (id, graph) = self.graphs.next()?;
		Some((Some(id), graph))
''')
Ref('nm_declare_guard',N).r('''				(Some(entry_index), Some(index)) => {
					if entry_index != index {
						return Err(ConflictingIndexes {
							node_id: id,
							defined_index: entry_index.to_string(),
							conflicting_index: index.to_string(),
						});
					}
				}
				(None, Some(index)) => entry.set_index(Some(index.to_owned())),
				_ => (),
''','''				(None, Some(index)) => entry.set_index(Some(index.to_owned())),
				(Some(entry_index), Some(index)) if entry_index != index => {
					return Err(ConflictingIndexes {
						node_id: id,
						defined_index: entry_index.to_string(),
						conflicting_index: index.to_string(),
					});
				}
				_ => (),
''')
Ref('nm_declare_contains',N).r('''		if let Some(entry) = self.nodes.get_mut(&id) {
			match (entry.index(), index) {''','''		if !self.nodes.contains_key(&id) {
			self.nodes.insert(
				id.clone(),
				Indexed::new(Node::with_id(id.clone()), index.map(ToOwned::to_owned)),
			);
		} else {
			let entry = self.nodes.get_mut(&id).unwrap();
			match (entry.index(), index) {''').r('''				_ => (),
			}
		} else {
			self.nodes.insert(
				id.clone(),
				Indexed::new(Node::with_id(id.clone()), index.map(ToOwned::to_owned)),
			);
		}
''','''				_ => (),
			}
		}
''')
Ref('nm_merge_reorder',N).r('''			flat_node.set_graph_entry(node.graph);
			flat_node.set_included(node.included);
			flat_node.properties_mut().extend_unique(node.properties);
''','''			flat_node.properties_mut().extend_unique(node.properties);
			flat_node.set_included(node.included);
			flat_node.set_graph_entry(node.graph);
''')
Ref('nm_list_collect',N).r('''			let mut flat_list = Vec::new();

			for item in list {
				flat_list.push(extend_node_map(env, node_map, item, active_graph)?);
			}
''','''			let flat_list = list
				.iter()
				.map(|item| extend_node_map(env, node_map, item, active_graph))
				.collect::<Result<Vec<_>, _>>()?;
''')
Ref('nm_index_hoist',N).r('''		Object::Value(value) => {
			let flat_value = value.clone();
			Ok(Indexed::new(
				Object::Value(flat_value),
				element.index().map(ToOwned::to_owned),
			))
		}
''','''		Object::Value(value) => {
			let index = element.index().map(|index| index.to_string());
			Ok(Indexed::new(Object::Value(value.clone()), index))
		}
''')
Ref('nm_types_helper',N).r('''		if let Some(entry) = node.types.as_deref() {
			let types = flat_node.types_mut_or_default();
			for ty in entry {
				let ty = env.assign_node_id(Some(ty));
				if !types.contains(&ty) {
					types.push(ty)
				}
			}
		}
	}
''','''		if let Some(entry) = &node.types {
			add_types(env, flat_node.types_mut_or_default(), entry);
		}
	}
''').app('''
/// Adds the given types to `types`, without duplicates.
fn add_types<N: Vocabulary, G: Generator<N>>(
	env: &mut Environment<N, G>,
	types: &mut Vec<Id<N::Iri, N::BlankId>>,
	entry: &[Id<N::Iri, N::BlankId>],
) where
	N::Iri: Clone + Eq + Hash,
	N::BlankId: Clone + Eq + Hash,
{
	for ty in entry {
		let id = env.assign_node_id(Some(ty));
		if types.contains(&id) {
			continue;
		}
		types.push(id);
	}
}
''')
Ref('nm_graph_iflet2',N).r('''		match flat_node.graph_entry_mut() {
			Some(graph) => graph.extend(flat_graph),
			None => flat_node.set_graph_entry(Some(flat_graph)),
		}
''','''		if let Some(graph) = flat_node.graph_entry_mut() {
			graph.extend(flat_graph);
		} else {
			flat_node.set_graph_entry(Some(flat_graph));
		}
''')
Ref('nm_included_flatten',N).r('''	if let Some(included_entry) = node.included_entry() {
		for inode in included_entry {
			extend_node_map_from_node(env, node_map, inode.inner(), inode.index(), active_graph)?;
		}
	}
''','''	for inode in node.included_entry().into_iter().flatten() {
		extend_node_map_from_node(env, node_map, inode.inner(), inode.index(), active_graph)?;
	}
''')
Ref('nm_props_with',N).r('''		let mut flat_objects = Vec::new();
		for object in objects {
			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
			flat_objects.push(flat_object);
		}
		node_map
			.graph_mut(active_graph)
			.unwrap()
			.get_mut(&id)
			.unwrap()
			.properties_mut()
			.insert_all_unique(property.clone(), flat_objects)
''','''		let mut flat_objects = Vec::with_capacity(objects.len());
		for object in objects {
			flat_objects.push(extend_node_map(env, node_map, object, active_graph)?);
		}
		let graph = node_map.graph_mut(active_graph).unwrap();
		let flat_node = graph.get_mut(&id).unwrap();
		flat_node
			.properties_mut()
			.insert_all_unique(property.clone(), flat_objects)
''')
Ref('nm_reverse_letelse',N).r('''	if let Some(reverse_properties) = node.reverse_properties_entry() {
		for (property, nodes) in reverse_properties.iter() {
			for subject in nodes {''','''	let Some(reverse_properties) = node.reverse_properties_entry() else {
		return Ok(Indexed::new(Node::with_id(id), None));
	};

	{
		for (property, nodes) in reverse_properties.iter() {
			for subject in nodes {''')
Ref('nm_reverse_obj',N).r('''				flat_subject.properties_mut().insert_unique(
					property.clone(),
					Indexed::none(Object::node(Node::with_id(id.clone()))),
				)
''','''				let reference = Object::node(Node::with_id(id.clone()));
				flat_subject
					.properties_mut()
					.insert_unique(property.clone(), Indexed::none(reference))
''')
FL='crates/core/src/flattening/mod.rs'
Ref('fl_filter_then',FL).r('''	if node.index().is_none() && node.is_empty() {
		None
	} else {
		Some(node)
	}
''','''	let keep = node.index().is_some() || !node.is_empty();
	keep.then_some(node)
''')
Ref('fl_subgraph_guard',FL).r('''	if node.index().is_none() && node.types().is_empty() && node.properties().is_empty() {
		None
	} else {
		node.set_graph_entry(None);
		node.set_included(None);
		node.set_reverse_properties(None);
		Some(node.map_inner(Object::node))
	}
''','''	if node.types().is_empty() && node.properties().is_empty() && node.index().is_none() {
		return None;
	}

	node.set_reverse_properties(None);
	node.set_included(None);
	node.set_graph_entry(None);
	Some(node.map_inner(Object::node))
''')
Ref('fl_sortkey',FL).r('''				nodes.sort_by(|a, b| {
					a.id.as_ref()
						.unwrap()
						.with(vocabulary)
						.as_str()
						.cmp(b.id.as_ref().unwrap().with(vocabulary).as_str())
				});
			}
			entry''','''				nodes.sort_by(|a, b| {
					let a = a.id.as_ref().unwrap().with(vocabulary).as_str();
					let b = b.id.as_ref().unwrap().with(vocabulary).as_str();
					a.cmp(b)
				});
			}
			entry''')
Q='crates/core/src/rdf/quad.rs'
Ref('rq_graph_transpose',Q).r('''						match graph.map(|r| r.try_into()) {
							Some(Ok(r)) => Some(r),
							None => None,
							_ => continue,
						};
''','''						match graph {
							Some(r) => match r.try_into() {
								Ok(r) => Some(r),
								Err(_) => continue,
							},
							None => None,
						};
''')
Ref('rq_letelse',Q).r('''					let rdf_subject: &'a ValidId<N::Iri, N::BlankId> = match subject.try_into() {
						Ok(r) => r,
						Err(_) => continue,
					};
''','''					let Ok(rdf_subject) = <&'a ValidId<N::Iri, N::BlankId>>::try_from(subject) else {
						continue;
					};
''')
Ref('rq_none_first',Q).r('''			match self.quads.next() {
				Some(crate::quad::QuadRef(graph, subject, property, object)) => {
					let rdf_graph''','''			let crate::quad::QuadRef(graph, subject, property, object) = self.quads.next()?;
			{
				{
					let rdf_graph''').r('''						));
					}
				}
				None => break None,
			}
''','''						));
					}
				}
			}
''')
Ref('rq_value_letelse',Q).r('''					if let Some(compound_value) =
						object.rdf_value_with(self.vocabulary, self.generator, self.rdf_direction)
					{
						if let''','''					let Some(compound_value) =
						object.rdf_value_with(self.vocabulary, self.generator, self.rdf_direction)
					else {
						continue;
					};
					{
						if let''')
R='crates/core/src/rdf/mod.rs'
Ref('rm_bool',R).r('''						let lit = if *b {
							"true".to_string()
						} else {
							"false".to_string()
						};

						(lit, Some(vocabulary.insert(XSD_BOOLEAN)))''','''						let lit = if *b { "true" } else { "false" };
						let ty = vocabulary.insert(XSD_BOOLEAN);
						(lit.to_string(), Some(ty))''')
Ref('rm_number_neg',R).r('''						if n.is_i64()
							&& !ty
								.as_ref()
								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
								.unwrap_or(false)
						{
							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
						} else {
							(
								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
								Some(vocabulary.insert(XSD_DOUBLE)),
							)
						}
''','''						let as_double = ty
							.as_ref()
							.is_some_and(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE);
						if as_double || !n.is_i64() {
							(
								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
								Some(vocabulary.insert(XSD_DOUBLE)),
							)
						} else {
							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
						}
''')
Ref('rm_type_or',R).r('''				let rdf_ty = match ty {
					Some(id) => Some(id.clone()),
					None => prefered_rdf_ty,
				};
''','''				let rdf_ty = ty.clone().or(prefered_rdf_ty);
''')
Ref('rm_lit_tail',R).r('''				Some(CompoundLiteral {
					value: match rdf_ty {
						Some(ty) => Value::Literal(vocabulary.insert_owned_literal(Literal::new(
							rdf_lit,
							rdf_types::LiteralType::Any(ty),
						))),
						None => {
							let ty = vocabulary.insert(XSD_STRING);
							Value::Literal(vocabulary.insert_owned_literal(Literal::new(
								rdf_lit,
								rdf_types::LiteralType::Any(ty),
							)))
						}
					},
					triples: None,
				})
''','''				let ty = rdf_ty.unwrap_or_else(|| vocabulary.insert(XSD_STRING));
				let literal = Literal::new(rdf_lit, rdf_types::LiteralType::Any(ty));
				Some(CompoundLiteral {
					value: Value::Literal(vocabulary.insert_owned_literal(literal)),
					triples: None,
				})
''')
Ref('rm_list_early',R).r('''			Self::List(list) => {
				if list.is_empty() {
					Some(CompoundValue {
						value: Value::Id(ValidId::Iri(vocabulary.insert(RDF_NIL))),
						triples: None,
					})
				} else {
					let id = generator.next(vocabulary);
					Some(CompoundValue {
						value: Clone::clone(&id).into_term(),
						triples: Some(CompoundValueTriples::List(ListTriples::new(
							list.as_slice(),
							id,
						))),
					})
				}
			}
''','''			Self::List(list) if !list.is_empty() => {
				let id = generator.next(vocabulary);
				let triples = ListTriples::new(list.as_slice(), Clone::clone(&id));
				Some(CompoundValue {
					value: id.into_term(),
					triples: Some(CompoundValueTriples::List(triples)),
				})
			}
			Self::List(_) => Some(CompoundValue {
				value: Value::Id(ValidId::Iri(vocabulary.insert(RDF_NIL))),
				triples: None,
			}),
''')
D='crates/core/src/quad.rs'
Ref('qd_pushobj',D).r('''		match object.inner() {
			Object::Node(node) => self.push_node(graph, node),
			Object::List(objects) => self
				.stack
				.push(QuadsFrame::IndexedObjectSlice(graph, objects.iter())),
			Object::Value(_) => (),
		}
''','''		if let Object::Node(node) = object.inner() {
			self.push_node(graph, node);
		} else if let Object::List(objects) = object.inner() {
			let frame = QuadsFrame::IndexedObjectSlice(graph, objects.iter());
			self.stack.push(frame);
		}
''')
Ref('qd_pushnode_letelse',D).r('''		if let Some(id) = &node.id {
			if let Some(graph) = node.graph_entry() {''','''		let Some(id) = &node.id else {
			return;
		};
		{
			if let Some(graph) = node.graph_entry() {''')
Ref('qd_merge_arms',D).r('''				QuadsFrame::IndexedNodeSet(graph, nodes) => {
					let graph = *graph;
					match nodes.next() {
						Some(node) => self.push_node(graph, node),
						None => {
							self.stack.pop();
						}
					}
				}
''','''				QuadsFrame::IndexedNodeSet(graph, nodes) => {
					let graph = *graph;
					if let Some(node) = nodes.next() {
						self.push_node(graph, node);
					} else {
						self.stack.pop();
					}
				}
''')
Ref('qd_types_return',D).r('''					match types.next() {
						Some(ty) => {
							return Some(QuadRef(
								graph,
								subject,
								PropertyRef::Type,
								ObjectRef::<T, B>::Ref(ty),
							))
						}
						None => {
							self.stack.pop();
						}
					}
''','''					let Some(ty) = types.next() else {
						self.stack.pop();
						continue;
					};
					let object = ObjectRef::<T, B>::Ref(ty);
					return Some(QuadRef(graph, subject, PropertyRef::Type, object));
''')
S='crates/core/src/serialization.rs'
Ref('se_rank',S).r('''		if !self.is_list_node() {
			0
		} else if self.list.values.is_some() {
			1
		} else {
			2
		}
''','''		match (self.is_list_node(), &self.list.values) {
			(false, _) => 0,
			(true, Some(_)) => 1,
			(true, None) => 2,
		}
''')
Ref('se_rdfprop',S).r('''		if iri == RDF_TYPE {
			return Some(RdfProperty::Type);
		} else if iri == RDF_FIRST {
			return Some(RdfProperty::First);
		} else if iri == RDF_REST {
			return Some(RdfProperty::Rest);
		}
	}

	None
''','''		if iri == RDF_REST {
			return Some(RdfProperty::Rest);
		}
		if iri == RDF_FIRST {
			return Some(RdfProperty::First);
		}
		if iri == RDF_TYPE {
			return Some(RdfProperty::Type);
		}
	}

	None
''')
Ref('se_rdftype_any',S).r('''	for i in interpretation.iris_of(id) {
		let iri = vocabulary.iri(i).unwrap();
		if iri == RDF_LIST {
			return RdfType::List;
		}
	}

	RdfType::Other(id)
''','''	let is_list = interpretation
		.iris_of(id)
		.any(|i| vocabulary.iri(i).unwrap() == RDF_LIST);

	if is_list {
		RdfType::List
	} else {
		RdfType::Other(id)
	}
''')
Ref('se_nil_helper',S).r('''					if nil.is_none() {
						for i in interpretation.iris_of(quad.2) {
							let iri = vocabulary.iri(i).unwrap();
							if iri == RDF_NIL {
								nil = Some(quad.2);
							}
						}
					}
''','''					if nil.is_none() && is_nil(vocabulary, interpretation, quad.2) {
						nil = Some(quad.2);
					}
''').app('''
fn is_nil<V: IriVocabulary, I: ReverseIriInterpretation<Iri = V::Iri>>(
	vocabulary: &V,
	interpretation: &I,
	id: &I::Resource,
) -> bool {
	for i in interpretation.iris_of(id) {
		if vocabulary.iri(i).unwrap() == RDF_NIL {
			return true;
		}
	}
	false
}
''')
Ref('se_refs',S).r('''			if quad.0 == quad.2 || is_type {
				// Types are not embedded: their resource must be rendered on its
				// own.
				object.references = usize::MAX;
			} else {
				let r = object.references;
				object.references = r.saturating_add(1)
			}
''','''			object.references = if is_type || quad.0 == quad.2 {
				// Types are not embedded: their resource must be rendered on its
				// own.
				usize::MAX
			} else {
				object.references.saturating_add(1)
			};
''')
Ref('se_render_values',S).r('''				let mut objects = Vec::with_capacity(values.len());

				for value in values {
					objects.push(render_object_or_reference(
						vocabulary,
						interpretation,
						rdf_terms,
						graph,
						value,
						context,
					)?);
				}

				Ok(Indexed::none(Object::List(List::new(objects))))
''','''				let objects: Result<Vec<_>, _> = values
					.iter()
					.map(|value| {
						render_object_or_reference(
							vocabulary,
							interpretation,
							rdf_terms,
							graph,
							value,
							context,
						)
					})
					.collect();

				Ok(Indexed::none(Object::List(List::new(objects?))))
''')
Ref('se_id',S).r('''				if let Some(id) = id_of(interpretation, id) {
					node.id = Some(id)
				}
''','''				node.id = id_of(interpretation, id);
''')
Ref('se_result_continue',S).r('''		for (id, resource) in &graph.resources {
			if resource.references != 1 && !resource.is_empty() {
				result.insert(render_object(
					vocabulary,
					interpretation,
					rdf_terms,
					&graph,
					id,
					resource,
					context,
				)?);
			}
		}

		Ok(result)''','''		for (id, resource) in &graph.resources {
			if resource.is_empty() || resource.references == 1 {
				continue;
			}

			let object = render_object(
				vocabulary,
				interpretation,
				rdf_terms,
				&graph,
				id,
				resource,
				context,
			)?;
			result.insert(object);
		}

		Ok(result)''')
