from lib import Ref
O='crates/core/src/object/mod.rs'
V='crates/core/src/object/value.rs'
D='crates/core/src/object/node/mod.rs'
Ref('ob_equiv_iflet',O).r('''		match (self, other) {
			(Self::Value(a), Self::Value(b)) => a == b,
			(Self::Node(a), Self::Node(b)) => a.equivalent(b),
			_ => false,
		}
''','''		match self {
			Self::Value(a) => match other {
				Self::Value(b) => a == b,
				_ => false,
			},
			Self::Node(a) => {
				if let Self::Node(b) = other {
					a.equivalent(b)
				} else {
					false
				}
			}
			Self::List(_) => false,
		}
''')
Ref('ob_as_value_iflet',O).r('''	pub fn as_value(&self) -> Option<&Value<T>> {
		match self {
			Self::Value(v) => Some(v),
			_ => None,
		}
	}
''','''	pub fn as_value(&self) -> Option<&Value<T>> {
		if let Self::Value(v) = self {
			return Some(v);
		}

		None
	}
''')
Ref('ob_is_graph_asnode',O).r('''		match self {
			Object::Node(n) => n.is_graph(),
			_ => false,
		}
''','''		self.as_node().map(Node::is_graph).unwrap_or(false)
''')
Ref('ob_is_graph_isomeand',O).r('''		match self {
			Object::Node(n) => n.is_graph(),
			_ => false,
		}
''','''		self.as_node().is_some_and(|n| n.is_graph())
''')
Ref('ob_language_andthen',O).r('''		match self {
			Object::Value(value) => value.language(),
			_ => None,
		}
''','''		self.as_value().and_then(Value::language)
''')
Ref('ob_as_str_chain',O).r('''		match self {
			Object::Value(value) => value.as_str(),
			Object::Node(node) => node.as_str(),
			_ => None,
		}
''','''		match self {
			Object::List(_) => None,
			Object::Node(node) => node.as_str(),
			Object::Value(value) => value.as_str(),
		}
''')
Ref('ob_unnamed_maperr',O).r('''			Object::Node(n) => match n.into_unnamed_graph() {
				Ok(g) => Ok(g),
				Err(n) => Err(Indexed::new(Object::node(n), index)),
			},
''','''			Object::Node(n) => n
				.into_unnamed_graph()
				.map_err(|n| Indexed::new(Object::node(n), index)),
''')
Ref('ob_into_indexed_match',O).r('''		object.into_node().map(|node| Indexed::new(node, index))
''','''		match object {
			Object::Node(node) => Some(Indexed::new(*node, index)),
			_ => None,
		}
''')
Ref('ob_entries_next_iflet',O).r('''		self.index
			.take()
			.map(IndexedEntryRef::Index)
			.or_else(|| self.inner.next().map(IndexedEntryRef::Object))
''','''		match self.index.take() {
			Some(index) => Some(IndexedEntryRef::Index(index)),
			None => self.inner.next().map(IndexedEntryRef::Object),
		}
''')
Ref('ob_eq_indexed_guard',O).r('''		self.index() == other.index() && self.inner().equivalent(other.inner())
''','''		if self.index() != other.index() {
			return false;
		}

		self.inner().equivalent(other.inner())
''')
Ref('va_set_type_replace',V).r('''			Self::Literal(_, old_ty) => {
				std::mem::swap(old_ty, &mut ty);
				ty
			}
''','''			Self::Literal(_, old_ty) => std::mem::replace(old_ty, ty.take()),
''')
Ref('va_map_literal',V).r('''		if let Self::Literal(_, ty) = self {
			*ty = f(ty.take())
		}
''','''		match self {
			Self::Literal(_, ty) => {
				let old = std::mem::take(ty);
				*ty = f(old);
			}
			_ => (),
		}
''')
Ref('va_try_langfirst',V).r('''				if language.is_some() || direction.is_some() {
					Ok(Self::LangString(LangString::try_from_json(
						object,
						value_entry.value,
						language,
						direction,
					)?))
				} else {
					let lit = value_entry.value.try_into()?;
					Ok(Self::Literal(lit, None))
				}
''','''				if language.is_none() && direction.is_none() {
					let lit = Literal::try_from(value_entry.value)?;
					return Ok(Self::Literal(lit, None));
				}

				LangString::try_from_json(object, value_entry.value, language, direction)
					.map(Self::LangString)
''')
Ref('va_try_guard',V).r('''				json_syntax::Value::String(ty) => match ty.as_str() {
					"@json" => Ok(Self::Json(value_entry.value)),
					iri => match Iri::new(iri) {
						Ok(iri) => {
							let ty = vocabulary.insert(iri);
							let lit = value_entry.value.try_into()?;
							Ok(Self::Literal(lit, Some(ty)))
						}
						Err(_) => Err(InvalidExpandedJson::InvalidValueType),
					},
				},
''','''				json_syntax::Value::String(ty) if ty.as_str() == "@json" => {
					Ok(Self::Json(value_entry.value))
				}
				json_syntax::Value::String(ty) => {
					let iri =
						Iri::new(ty.as_str()).map_err(|_| InvalidExpandedJson::InvalidValueType)?;
					let ty = vocabulary.insert(iri);
					let lit = value_entry.value.try_into()?;
					Ok(Self::Literal(lit, Some(ty)))
				}
''')
Ref('va_entry_helper',V).r('''				let language = object
					.remove_unique("@language")
					.map_err(InvalidExpandedJson::duplicate_key)?
					.map(json_syntax::object::Entry::into_value);
				let direction = object
					.remove_unique("@direction")
					.map_err(InvalidExpandedJson::duplicate_key)?
					.map(json_syntax::object::Entry::into_value);
''','''				let language = take_value(&mut object, "@language")?;
				let direction = take_value(&mut object, "@direction")?;
''').app('''
/// Removes the entry `key` and returns its value.
fn take_value(
	object: &mut json_syntax::Object,
	key: &str,
) -> Result<Option<json_syntax::Value>, InvalidExpandedJson> {
	match object.remove_unique(key) {
		Ok(entry) => Ok(entry.map(|e| e.value)),
		Err(e) => Err(InvalidExpandedJson::duplicate_key(e)),
	}
}
''')
Ref('va_typ_match',V).r('''			Value::Literal(_, Some(ty)) => Some(TypeRef::Id(ty)),
			Value::Json(_) => Some(TypeRef::Json),
			_ => None,
''','''			Value::Literal(_, ty) => ty.as_ref().map(TypeRef::Id),
			Value::LangString(_) => None,
			Value::Json(_) => Some(TypeRef::Json),
''')
Ref('va_map_ids',V).r('''			Self::Literal(l, type_) => Value::Literal(l, type_.map(map_iri)),
''','''			Self::Literal(l, Some(type_)) => Value::Literal(l, Some(map_iri(type_))),
			Self::Literal(l, None) => Value::Literal(l, None),
''')
Ref('no_as_str_map',D).r('''		match self.as_iri() {
			Some(iri) => Some(iri.as_ref()),
			None => None,
		}
''','''		self.as_iri().map(AsRef::as_ref)
''')
Ref('no_types_deref',D).r('''		match self.types.as_ref() {
			Some(entry) => entry,
			None => &[],
		}
''','''		self.types.as_deref().unwrap_or(&[])
''')
Ref('no_has_type_any',D).r('''		for self_ty in self.types() {
			if self_ty == ty {
				return true;
			}
		}

		false
''','''		self.types().iter().any(|self_ty| self_ty == ty)
''')
Ref('no_has_type_any2',D).r('''		for self_ty in self.types() {
			if self_ty == ty {
				return true;
			}
		}

		false
''','''		let mut found = false;
		for self_ty in self.types() {
			if self_ty == ty {
				found = true;
				break;
			}
		}

		found
''')
Ref('no_is_empty_not',D).r('''		self.types.is_none()
			&& self.graph.is_none()
			&& self.included.is_none()
			&& self.properties.is_empty()
			&& self.reverse_properties.is_none()
	}

	/// Tests if the node is a graph object''','''		let any = self.types.is_some()
			|| self.graph.is_some()
			|| self.included.is_some()
			|| !self.properties.is_empty()
			|| self.reverse_properties.is_some();
		!any
	}

	/// Tests if the node is a graph object''')
Ref('no_equiv_short',D).r('''		if self.id.is_some() && other.id.is_some() {
			self == other
		} else {
			false
		}
''','''		self.id.is_some() && other.id.is_some() && self == other
''')
Ref('no_unnamed_match',D).r('''		if self.is_unnamed_graph() {
			Ok(self.graph.unwrap())
		} else {
			Err(self)
		}
''','''		if !self.is_unnamed_graph() {
			return Err(self);
		}

		Ok(self.graph.expect("unnamed graph"))
''')
Ref('no_relabel_iflet',D).r('''			None => {
				let value = generator.next(vocabulary);
				Some(value.into())
			}
			id => id,
''','''			Some(id) => Some(id),
			None => Some(generator.next(vocabulary).into()),
''')
Ref('no_relabel_types',D).r('''			if let Some(b) = ty.as_blank().cloned() {
				*ty = relabeling
					.entry(b)
					.or_insert_with(|| generator.next(vocabulary))
					.clone()
					.into();
			}
''','''			let Some(b) = ty.as_blank().cloned() else {
				continue;
			};
			let label = relabeling
				.entry(b)
				.or_insert_with(|| generator.next(vocabulary));
			*ty = label.clone().into();
''')
Ref('no_relabel_graphloop',D).r('''			*graph = std::mem::take(graph)
				.into_iter()
				.map(|mut o| {
					o.relabel_with(vocabulary, generator, relabeling);
					o
				})
				.collect();
''','''			let objects = std::mem::take(graph);
			for mut o in objects {
				o.relabel_with(vocabulary, generator, relabeling);
				graph.insert(o);
			}
''')
Ref('no_canon_helper',D).r('''		for (_, objects) in self.properties_mut() {
			for object in objects {
				object.canonicalize_with(buffer)
			}
		}
''','''		self.properties_mut()
			.iter_mut()
			.flat_map(|(_, objects)| objects)
			.for_each(|object| object.canonicalize_with(buffer));
''')
Ref('no_canon_letelse',D).r('''		if let Some(reverse_properties) = self.reverse_properties_mut() {
			for (_, nodes) in reverse_properties.iter_mut() {
				for node in nodes {
					node.canonicalize_with(buffer)
				}
			}
		}
''','''		let Some(reverse_properties) = self.reverse_properties_mut() else {
			return;
		};

		for (_, nodes) in reverse_properties.iter_mut() {
			nodes.iter_mut().for_each(|node| node.canonicalize_with(buffer));
		}
''')
Ref('no_eq_order',D).r('''		self.id.eq(&other.id)
			&& multiset::compare_unordered_opt(self.types.as_deref(), other.types.as_deref())
			&& self.graph.as_ref() == other.graph.as_ref()
			&& self.included.as_ref() == other.included.as_ref()
			&& self.properties.eq(&other.properties)
			&& self.reverse_properties.eq(&other.reverse_properties)
''','''		if self.id != other.id || self.graph != other.graph || self.included != other.included {
			return false;
		}

		self.properties == other.properties
			&& self.reverse_properties == other.reverse_properties
			&& multiset::compare_unordered_opt(self.types.as_deref(), other.types.as_deref())
''')
Ref('no_hashkey_if',D).r('''			Term::Keyword(Keyword::Id) => self.id.is_some(),
			Term::Keyword(Keyword::Type) => self.types.is_some(),
			Term::Keyword(Keyword::Graph) => self.graph.is_some(),
			Term::Keyword(Keyword::Included) => self.included.is_some(),
			Term::Keyword(Keyword::Reverse) => self.reverse_properties.is_some(),
			Term::Id(prop) => self.properties.contains(prop),
			_ => false,
''','''			Term::Keyword(keyword) => match keyword {
				Keyword::Id => self.id.is_some(),
				Keyword::Type => self.types.is_some(),
				Keyword::Graph => self.graph.is_some(),
				Keyword::Included => self.included.is_some(),
				Keyword::Reverse => self.reverse_properties.is_some(),
				_ => false,
			},
			Term::Id(prop) => self.properties.contains(prop),
			Term::Null => false,
''')
