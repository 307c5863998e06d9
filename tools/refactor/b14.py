from lib import Ref
S='crates/serialization/src/'; SX=S+'expanded/'
OB=SX+'object.rs'; LI=SX+'list.rs'; ND=SX+'node.rs'; PR=SX+'property.rs'; DG=SX+'default_graph.rs'; VA=SX+'value.rs'; LB=S+'lib.rs'
RD='src/processor/remote_document.rs'
Y='crates/syntax/src/'; CI=Y+'compact_iri.rs'; CM=Y+'compare.rs'; CN=Y+'container.rs'; LG=Y+'lang.rs'; TJ=Y+'try_from_json.rs'
Ref('so_if_iri',OB).r('''				if let Id::Iri(iri) = &id {
					let iri = self.vocabulary.iri(iri).unwrap();
					if iri == RDF_FIRST {
						let serializer =
							SerializeListFirst::new(self.vocabulary, self.interpretation);
						self.first = value.visit_objects(serializer)?;
					} else if iri == RDF_REST {
						let serializer =
							SerializeListRest::new(self.vocabulary, self.interpretation);
						self.rest = value.visit_objects(serializer)?;
					} else {
						self.list_only = false;
					}
				} else {
					self.list_only = false;
				}
''','''				match &id {
					Id::Iri(iri) => {
						let iri = self.vocabulary.iri(iri).unwrap();
						if iri == RDF_FIRST {
							self.first = value.visit_objects(SerializeListFirst::new(
								self.vocabulary,
								self.interpretation,
							))?;
						} else if iri == RDF_REST {
							self.rest = value.visit_objects(SerializeListRest::new(
								self.vocabulary,
								self.interpretation,
							))?;
						} else {
							self.list_only = false;
						}
					}
					Id::Blank(_) => self.list_only = false,
				}
''')
Ref('so_end_match',OB).r('''		if self.first.is_some()
			&& self.rest.is_some()
			&& self.list_only
			&& self.reverse_properties.is_empty()
			&& self.included.is_empty()
			&& self.graph.is_none()
		{
			#[allow(clippy::unnecessary_unwrap)]
			let mut items = self.rest.unwrap();
			#[allow(clippy::unnecessary_unwrap)]
			items.push(Indexed::none(self.first.unwrap()));
			items.reverse();
			Ok(Object::List(List::new(items)))
		} else {
			let mut node''','''		let is_list = self.list_only
			&& self.reverse_properties.is_empty()
			&& self.included.is_empty()
			&& self.graph.is_none();

		if let (true, Some(first), Some(mut items)) = (is_list, self.first, self.rest) {
			items.push(Indexed::none(first));
			items.reverse();
			Ok(Object::List(List::new(items)))
		} else {
			let mut node''')
Ref('so_end_reverse_first',OB).r('''			items.push(Indexed::none(self.first.unwrap()));
			items.reverse();
			Ok(Object::List(List::new(items)))''','''			items.push(Indexed::none(self.first.unwrap()));
			let items: Vec<_> = items.into_iter().rev().collect();
			Ok(Object::List(List::new(items)))''')
Ref('so_types_partition',OB).r('''			let mut non_iri_objects = Multiset::new();

			for obj in objects {
				match into_type_value(obj) {
					Ok(ty) => self.types.push(ty),
					Err(obj) => {
						non_iri_objects.insert(obj);
					}
				}
			}

			if !non_iri_objects.is_empty() {
				self.properties.set(prop, non_iri_objects);
			}
		} else {''','''			let mut others = Multiset::new();

			for obj in objects {
				if let Some(obj) = into_type_value(obj).map(|ty| self.types.push(ty)).err() {
					others.insert(obj);
				}
			}

			if others.is_empty() {
				return Ok(());
			}

			self.properties.set(prop, others);
		} else {''')
Ref('so_objects_var',OB).r('''		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
			let mut non_iri_objects = Multiset::new();

			for obj in objects {
				match into_type_value(obj) {
					Ok(ty) => self.types.push(ty),
					Err(obj) => {
						non_iri_objects.insert(obj);
					}
				}
			}

			if !non_iri_objects.is_empty() {
				self.properties.set(prop, non_iri_objects);
			}
		} else {
			self.properties.set(prop, objects);
		}

		Ok(())''','''		if !is_iri(self.vocabulary, &prop, RDF_TYPE) {
			self.properties.set(prop, objects);
			return Ok(());
		}

		let mut non_iri_objects = Multiset::new();
		for obj in objects {
			match into_type_value(obj) {
				Ok(ty) => self.types.push(ty),
				Err(obj) => {
					non_iri_objects.insert(obj);
				}
			}
		}

		if !non_iri_objects.is_empty() {
			self.properties.set(prop, non_iri_objects);
		}

		Ok(())''')
Ref('so_helper_list',OB).r('''		if self.first.is_some()
			&& self.rest.is_some()
			&& self.list_only
			&& self.reverse_properties.is_empty()
			&& self.included.is_empty()
			&& self.graph.is_none()
		{''','''		if self.is_list() {''').r('''			list_only: true,
		}
	}
}''','''			list_only: true,
		}
	}

	fn is_list(&self) -> bool {
		self.list_only
			&& self.first.is_some()
			&& self.rest.is_some()
			&& self.graph.is_none()
			&& self.included.is_empty()
			&& self.reverse_properties.is_empty()
	}
}''')
Ref('so_ifsome',OB).r('''			let mut node = Node::new();

			if !self.types.is_empty() {
				node.types = Some(self.types)
			}

			*node.properties_mut() = self.properties;

			if !self.reverse_properties.is_empty() {
				node.set_reverse_properties(Some(self.reverse_properties));
			}
''','''			let mut node = Node::new();
			*node.properties_mut() = self.properties;
			node.types = Some(self.types).filter(|types| !types.is_empty());

			if !self.reverse_properties.is_empty() {
				node.set_reverse_properties(Some(self.reverse_properties));
			}
''')
Ref('so_lexical_early',OB).r('''	match value
		.lexical_representation(vocabulary, interpretation)
		.map(CowRdfTerm::into_owned)
	{
		Some(Term::Literal(lit)) => {
			let value = literal_to_value(vocabulary, lit);
			Ok(Object::Value(value))
		}
		Some(Term::Id(id)) => {''','''	let term = value
		.lexical_representation(vocabulary, interpretation)
		.map(CowRdfTerm::into_owned);
	match term {
		Some(Term::Literal(lit)) => Ok(Object::Value(literal_to_value(vocabulary, lit))),
		Some(Term::Id(id)) => {''')
Ref('sl_end_and',LI).r('''		match (self.first, self.rest) {
			(Some(first), Some(mut result)) if self.well_formed => {
				result.push(Indexed::none(first));
				Ok(Some(result))
			}
			_ => Ok(None),
		}''','''		if !self.well_formed {
			return Ok(None);
		}

		Ok(self.rest.zip(self.first).map(|(mut result, first)| {
			result.push(Indexed::none(first));
			result
		}))''')
Ref('sl_end_iflet',LI).r('''		match (self.first, self.rest) {
			(Some(first), Some(mut result)) if self.well_formed => {
				result.push(Indexed::none(first));
				Ok(Some(result))
			}
			_ => Ok(None),
		}''','''		if let (Some(first), Some(mut result), true) = (self.first, self.rest, self.well_formed) {
			result.push(Indexed::none(first));
			return Ok(Some(result));
		}

		Ok(None)''')
Ref('sl_first_then',LI).r('''		Ok(self.result.filter(|_| self.well_formed))''','''		Ok(if self.well_formed { self.result } else { None })''')
Ref('sl_rest_if',LI).r('''		self.result = match repr {
			_ if self.visited => None,
			Some(Term::Id(Id::Iri(iri))) if self.vocabulary.iri(&iri).unwrap() == RDF_NIL => {
				Some(Vec::new())
			}
			// A cell with an identifier may be referred to from elsewhere.
			Some(_) => None,
			None => {
				let serializer = SerializeList::new(self.vocabulary, self.interpretation);
				value.visit_subject(serializer)?
			}
		};
''','''		self.result = if self.visited {
			None
		} else {
			match repr {
				Some(Term::Id(Id::Iri(iri))) if self.vocabulary.iri(&iri).unwrap() == RDF_NIL => {
					Some(Vec::new())
				}
				// A cell with an identifier may be referred to from elsewhere.
				Some(_) => None,
				None => {
					let serializer = SerializeList::new(self.vocabulary, self.interpretation);
					value.visit_subject(serializer)?
				}
			}
		};
''')
Ref('sn_let_else',ND).r('''		let prop = match predicate
			.lexical_representation(self.vocabulary, self.interpretation)
			.map(CowRdfTerm::into_owned)
		{
			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
			_ => return Err(Error::InvalidPredicate),
		};

		let serializer = SerializeProperty''','''		let Some(Term::Id(id)) = predicate
			.lexical_representation(self.vocabulary, self.interpretation)
			.map(CowRdfTerm::into_owned)
		else {
			return Err(Error::InvalidPredicate);
		};
		let prop = json_ld_core::Id::Valid(id);

		let serializer = SerializeProperty''')
Ref('sn_iri_helper',ND).r('''		let prop = match predicate
			.lexical_representation(self.vocabulary, self.interpretation)
			.map(CowRdfTerm::into_owned)
		{
			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
			_ => return Err(Error::InvalidPredicate),
		};

		let serializer = SerializeReverseProperty''','''		let prop = predicate_id(
			predicate
				.lexical_representation(self.vocabulary, self.interpretation)
				.map(CowRdfTerm::into_owned),
		)?;

		let serializer = SerializeReverseProperty''').app('''
fn predicate_id<T, B, L>(
	term: Option<Term<rdf_types::Id<T, B>, L>>,
) -> Result<json_ld_core::Id<T, B>, Error> {
	match term {
		Some(Term::Id(id)) => Ok(json_ld_core::Id::Valid(id)),
		Some(Term::Literal(_)) | None => Err(Error::InvalidPredicate),
	}
}
''')
Ref('sn_new_map',ND).r('''		let result = match id {
			Some(id) => Node::with_id(id),
			None => Node::new(),
		};
''','''		let result = id.map(Node::with_id).unwrap_or_else(Node::new);
''')
Ref('sn_itv_guard',ND).r('''			Object::Node(node) => {
				if node.is_empty() && node.id.is_some() {
					#[allow(clippy::unnecessary_unwrap)]
					Ok(node.id.unwrap())
				} else {
					Err(Indexed::none(Object::Node(node)))
				}
			}
			obj =>''','''			Object::Node(node) if node.is_empty() && node.id.is_some() => Ok(node.id.unwrap()),
			obj =>''')
Ref('sn_itv_early',ND).r('''	match obj.index() {
		Some(_) => Err(obj),
		None => match obj.into_inner() {
			Object::Node(node) => {
				if node.is_empty() && node.id.is_some() {
					#[allow(clippy::unnecessary_unwrap)]
					Ok(node.id.unwrap())
				} else {
					Err(Indexed::none(Object::Node(node)))
				}
			}
			obj => Err(Indexed::none(obj)),
		},
	}''','''	if obj.index().is_some() {
		return Err(obj);
	}

	match obj.into_inner() {
		Object::Node(node) => {
			if node.is_empty() && node.id.is_some() {
				Ok(node.id.unwrap())
			} else {
				Err(Indexed::none(Object::Node(node)))
			}
		}
		obj => Err(Indexed::none(obj)),
	}''')
Ref('sn_isiri_opt',ND).r('''		json_ld_core::Id::Valid(rdf_types::Id::Iri(i)) => match vocabulary.iri(i) {
			Some(i) => i == iri,
			None => false,
		},
		_ => false,''','''		json_ld_core::Id::Valid(rdf_types::Id::Iri(i)) => vocabulary.iri(i) == Some(iri),
		_ => false,''')
Ref('sn_isiri_and',ND).r('''		json_ld_core::Id::Valid(rdf_types::Id::Iri(i)) => match vocabulary.iri(i) {
			Some(i) => i == iri,
			None => false,
		},
		_ => false,''','''		json_ld_core::Id::Valid(rdf_types::Id::Iri(i)) => {
			vocabulary.iri(i).is_some_and(|found| found == iri)
		}
		_ => false,''')
Ref('sd_match',DG).r('''		let id = match value
			.lexical_representation(self.vocabulary, self.interpretation)
			.map(CowRdfTerm::into_owned)
		{
			Some(Term::Literal(lit)) => {
				let value = literal_to_value(self.vocabulary, lit);
				self.result.insert(Indexed::new(Object::Value(value), None));
				return Ok(());
			}
			Some(Term::Id(id)) => Some(json_ld_core::Id::Valid(id)),
			_ => None,
		};

		let serializer = SerializeNode::new(self.vocabulary, self.interpretation, id);

		let node = value.visit_subject(serializer)?;
		self.result.insert(Indexed::new(Object::node(node), None));
		Ok(())''','''		let object = match value
			.lexical_representation(self.vocabulary, self.interpretation)
			.map(CowRdfTerm::into_owned)
		{
			Some(Term::Literal(lit)) => Object::Value(literal_to_value(self.vocabulary, lit)),
			Some(Term::Id(id)) => {
				let id = Some(json_ld_core::Id::Valid(id));
				let serializer = SerializeNode::new(self.vocabulary, self.interpretation, id);
				Object::node(value.visit_subject(serializer)?)
			}
			None => {
				let serializer = SerializeNode::new(self.vocabulary, self.interpretation, None);
				Object::node(value.visit_subject(serializer)?)
			}
		};

		self.result.insert(Indexed::none(object));
		Ok(())''')
Ref('sv_filter',VA).r('''				let literal_ty = if vocabulary.iri(&iri).unwrap() == XSD_STRING {
					None
				} else {
					Some(iri)
				};
''','''				let is_string = vocabulary.iri(&iri).unwrap() == XSD_STRING;
				let literal_ty = if is_string { None } else { Some(iri) };
''')
Ref('sv_then',VA).r('''				let literal_ty = if vocabulary.iri(&iri).unwrap() == XSD_STRING {
					None
				} else {
					Some(iri)
				};
''','''				let literal_ty = (vocabulary.iri(&iri).unwrap() != XSD_STRING).then_some(iri);
''')
Ref('sv_flat',VA).r('''		RdfLiteral::Any(s, ty) => match ty {
			LiteralType::Any(iri) => {
				let literal_ty = if vocabulary.iri(&iri).unwrap() == XSD_STRING {
					None
				} else {
					Some(iri)
				};

				Value::Literal(Literal::String(s.into()), literal_ty)
			}
			LiteralType::LangString(language) => {
				Value::LangString(LangString::new(s.into(), Some(language.into()), None).unwrap())
			}
		},
''','''		RdfLiteral::Any(s, LiteralType::Any(iri)) => {
			let literal_ty = if vocabulary.iri(&iri).unwrap() == XSD_STRING {
				None
			} else {
				Some(iri)
			};

			Value::Literal(Literal::String(s.into()), literal_ty)
		}
		RdfLiteral::Any(s, LiteralType::LangString(language)) => {
			Value::LangString(LangString::new(s.into(), Some(language.into()), None).unwrap())
		}
''')
Ref('sv_isok',VA).r('''	match json_syntax::Number::new(&number) {
		Ok(_) => {
			let n = unsafe { json_syntax::NumberBuf::new_unchecked(number.into_bytes().into()) };
			Value::Literal(Literal::Number(n), None)
		}
		Err(_) => {
			let ty = vocabulary.insert(ty.iri());
			Value::Literal(Literal::String(number.into()), Some(ty))
		}
	}''','''	if json_syntax::Number::new(&number).is_ok() {
		let n = unsafe { json_syntax::NumberBuf::new_unchecked(number.into_bytes().into()) };
		return Value::Literal(Literal::Number(n), None);
	}

	let ty = vocabulary.insert(ty.iri());
	Value::Literal(Literal::String(number.into()), Some(ty))''')
Ref('rd_doc',RD).r('''		match context {
			Some(context) => compact_expanded_full(
				&flattened_output,
				self.url(),
				vocabulary,
				context,
				loader,
				options,
				warnings,
			)
			.await
			.map_err(FlattenError::Compact),
			None => Ok(json_ld_syntax::IntoJson::into_json(
				flattened_output.into_with(vocabulary),
			)),
		}''','''		let Some(context) = context else {
			let output = flattened_output.into_with(vocabulary);
			return Ok(json_ld_syntax::IntoJson::into_json(output));
		};

		let base = self.url();
		compact_expanded_full(
			&flattened_output,
			base,
			vocabulary,
			context,
			loader,
			options,
			warnings,
		)
		.await
		.map_err(FlattenError::Compact)''')
Ref('rd_ordered_let',RD).r('''		let flattened_output =
			Flatten::flatten_with(expanded_input, vocabulary, generator, options.ordered)
				.map_err(FlattenError::ConflictingIndexes)?;
''','''		let ordered = options.ordered;
		let flattened_output =
			match Flatten::flatten_with(expanded_input, vocabulary, generator, ordered) {
				Ok(output) => output,
				Err(e) => return Err(FlattenError::ConflictingIndexes(e)),
			};
''')
Ref('rd_ctxurl_match',RD).r('''		if let Some(context_url) = self.context_url() {
			active_context = RemoteDocumentReference::Iri(context_url.clone())
				.load_context_with(vocabulary, loader)
				.await
				.map_err(ExpandError::ContextLoading)?
				.into_document()
				.process_full(''','''		if let Some(context_url) = self.context_url() {
			let linked = RemoteDocumentReference::Iri(context_url.clone())
				.load_context_with(vocabulary, loader)
				.await
				.map_err(ExpandError::ContextLoading)?;

			active_context = linked
				.into_document()
				.process_full(''')
Ref('rd_unordered_opts',RD).r('''		let expanded_input = JsonLdProcessor::expand_full(
			self,
			vocabulary,
			loader,
			options.clone().unordered(),
			&mut warnings,
		)
		.await
		.map_err(CompactError::Expand)?;
''','''		let expansion_options = options.clone().unordered();
		let expanded_input = match JsonLdProcessor::expand_full(
			self,
			vocabulary,
			loader,
			expansion_options,
			&mut warnings,
		)
		.await
		{
			Ok(expanded) => expanded,
			Err(e) => return Err(CompactError::Expand(e)),
		};
''')
Ref('ci_flat',CI).r('''			Some((prefix, suffix)) if prefix != "_" && !suffix.starts_with("//") => {
				match IriRef::new(s) {
					Ok(_) => Ok(unsafe { Self::new_unchecked(s) }),
					Err(_) => Err(InvalidCompactIri(s)),
				}
			}
			_ => Err(InvalidCompactIri(s)),''','''			Some((prefix, suffix))
				if prefix != "_" && !suffix.starts_with("//") && IriRef::new(s).is_ok() =>
			{
				Ok(unsafe { Self::new_unchecked(s) })
			}
			_ => Err(InvalidCompactIri(s)),''')
Ref('ci_early',CI).r('''		match s.split_once(':') {
			Some((prefix, suffix)) if prefix != "_" && !suffix.starts_with("//") => {
				match IriRef::new(s) {
					Ok(_) => Ok(unsafe { Self::new_unchecked(s) }),
					Err(_) => Err(InvalidCompactIri(s)),
				}
			}
			_ => Err(InvalidCompactIri(s)),
		}''','''		let Some((prefix, suffix)) = s.split_once(':') else {
			return Err(InvalidCompactIri(s));
		};

		if prefix == "_" || suffix.starts_with("//") {
			return Err(InvalidCompactIri(s));
		}

		IriRef::new(s)
			.map(|_| unsafe { Self::new_unchecked(s) })
			.map_err(|_| InvalidCompactIri(s))''')
Ref('ci_prefix_split',CI).r('''		let i = self.find(':').unwrap();
		&self[0..i]''','''		let end = self.find(':').unwrap();
		&self[..end]''')
Ref('cm_zip',CM).r('''					let mut selected = Vec::new();
					selected.resize(b.len(), false);
''','''					let mut selected = vec![false; b.len()];
''')
Ref('cm_inner_found',CM).r('''					'next_item: for item in a {
						for (other, selected) in b.iter().zip(selected.iter_mut()) {
							if !*selected && item.compare(other) {
								*selected = true;
								continue 'next_item;
							}
						}

						return false;
					}

					true
				} else {''','''					for item in a {
						let mut found = false;
						for (other, selected) in b.iter().zip(selected.iter_mut()) {
							if !*selected && item.compare(other) {
								*selected = true;
								found = true;
								break;
							}
						}

						if !found {
							return false;
						}
					}

					true
				} else {''')
Ref('cm_obj_early',CM).r('''				if a.len() == b.len() {
					for entry in a {
						match b.get_unique(&*entry.key) {
							Ok(Some(value)) => {
								if !entry.value.compare(value) {
									return false;
								}
							}
							_ => return false,
						}
					}

					true
				} else {
					false
				}''','''				if a.len() != b.len() {
					return false;
				}

				for entry in a {
					match b.get_unique(&*entry.key) {
						Ok(Some(value)) if entry.value.compare(value) => (),
						_ => return false,
					}
				}

				true''')
Ref('cm_obj_all',CM).r('''				if a.len() == b.len() {
					for entry in a {
						match b.get_unique(&*entry.key) {
							Ok(Some(value)) => {
								if !entry.value.compare(value) {
									return false;
								}
							}
							_ => return false,
						}
					}

					true
				} else {
					false
				}''','''				a.len() == b.len()
					&& a.iter().all(|entry| match b.get_unique(&*entry.key) {
						Ok(Some(value)) => entry.value.compare(value),
						_ => false,
					})''')
Ref('cn_try',CN).r('''			k => Err(k),''','''			Keyword::Any
			| Keyword::Base
			| Keyword::Context
			| Keyword::Default
			| Keyword::Direction
			| Keyword::Embed
			| Keyword::EmbedSubject
			| Keyword::EmptyIncluded => Err(k),
			other => Err(other),''') if False else None
Ref('cn_size',CN).r('''			Self::None => (0, Some(0)),
			Self::Many(m) => m.size_hint(),''','''			Self::Many(m) => m.size_hint(),
			Self::None => (0, Some(0)),''')
Ref('cn_from_str',CN).r('''		self.into_keyword().into_str()''','''		let keyword: Keyword = (*self).into();
		keyword.into_str()''')
Ref('lg_err_match',LG).r('''		let err = LangTag::new(s.as_str())
			.err()
			.map(|InvalidLangTag(s)| InvalidLangTag(s.to_owned()));
		(Self(s), err)''','''		let err = match LangTag::new(s.as_str()) {
			Ok(_) => None,
			Err(InvalidLangTag(s)) => Some(InvalidLangTag(s.to_owned())),
		};
		(Self(s), err)''')
Ref('lg_eq_ops',LG).r('''		self.as_lenient_lang_tag_ref()
			.eq(other.as_lenient_lang_tag_ref())''','''		*self.as_lenient_lang_tag_ref() == *other.as_lenient_lang_tag_ref()''')
Ref('tj_iri_map',TJ).r('''			json_syntax::Value::String(s) => match IriRefBuf::new(s.into_string()) {
				Ok(iri_ref) => Ok(iri_ref),
				Err(e) => Err(InvalidContext::InvalidIriRef(e.0)),
			},''','''			json_syntax::Value::String(s) => {
				IriRefBuf::new(s.into_string()).map_err(|e| InvalidContext::InvalidIriRef(e.0))
			}''')
Ref('tj_container_collect',TJ).r('''				let mut container = Vec::new();

				for item in a {
					container.push(ContainerKind::try_from_json(item)?)
				}

				Ok(Self::Many(container))''','''				let kinds: Result<Vec<_>, _> =
					a.into_iter().map(ContainerKind::try_from_json).collect();
				Ok(Self::Many(kinds?))''')
Ref('tj_lang_0',TJ).r('''				let (lang, _) = LenientLangTagBuf::new(s.into_string());
				Ok(lang)''','''				Ok(LenientLangTagBuf::new(s.into_string()).0)''')
Ref('tj_dir_or',TJ).r('''			json_syntax::Value::String(s) => match Direction::try_from(s.as_str()) {
				Ok(d) => Ok(d),
				Err(_) => Err(InvalidContext::InvalidDirection),
			},''','''			json_syntax::Value::String(s) => {
				Direction::try_from(s.as_str()).or(Err(InvalidContext::InvalidDirection))
			}''')
Ref('tj_null_if',TJ).r('''		match value {
			json_syntax::Value::Null => Ok(Self::Null),
			some => T::try_from_json(some).map(Self::Some),
		}''','''		if value.is_null() {
			return Ok(Self::Null);
		}

		Ok(Self::Some(T::try_from_json(value)?))''')
