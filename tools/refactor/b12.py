from lib import Ref
X='crates/core/src/context/mod.rs'
V='crates/core/src/context/inverse.rs'
D='crates/core/src/context/definition.rs'
C='crates/core/src/container.rs'
L='crates/core/src/lang_string.rs'
Ref('cx_voc_asref',X).r('''		match &self.vocabulary {
			Some(v) => Some(v),
			None => None,
		}''','''		self.vocabulary.as_ref()''')
Ref('cx_prev_deref',X).r('''		match &self.previous_context {
			Some(c) => Some(c),
			None => None,
		}''','''		self.previous_context.as_deref()''')
Ref('cx_lang_match',X).r('''		self.default_language
			.as_ref()
			.map(|tag| tag.as_lenient_lang_tag_ref())''','''		match &self.default_language {
			Some(tag) => Some(tag.as_lenient_lang_tag_ref()),
			None => None,
		}''')
Ref('cx_prot_any',X).r('''		for binding in self.definitions() {
			if binding.definition().protected() {
				return true;
			}
		}

		false''','''		self.definitions().iter().any(|binding| binding.definition().protected())''')
Ref('cx_prot_find',X).r('''		for binding in self.definitions() {
			if binding.definition().protected() {
				return true;
			}
		}

		false''','''		let mut found = false;
		for binding in self.definitions().iter() {
			found = found || binding.definition().protected();
		}
		found''')
Ref('cx_prot_type_first',X).r('''		for binding in self.definitions() {
			if binding.definition().protected() {
				return true;
			}
		}

		false''','''		self.definitions().into_iter().map(|b| b.definition()).find(|d| d.protected()).is_some()''')
Ref('cx_setnormal_order',X).r('''		self.inverse.take();
		self.definitions.set_normal(key, definition)''','''		let previous = self.definitions.set_normal(key, definition);
		self.inverse.take();
		previous''')
Ref('cx_base_replace',X).r('''		self.inverse.take();
		self.base_iri = iri
''','''		self.base_iri = iri;
		let _ = self.inverse.take();
''')
Ref('cx_invalidate_helper',X).r('''		self.inverse.take();
		self.vocabulary = vocab;''','''		self.invalidate();
		self.vocabulary = vocab;''').r('''		self.inverse.take();
		self.default_language = lang;''','''		self.invalidate();
		self.default_language = lang;''').r('''	/// Sets the base IRI.
''','''	/// Forgets the inverse computed from the previous state.
	fn invalidate(&mut self) {
		self.inverse.take();
	}

	/// Sets the base IRI.
''')
Ref('cx_inverse_reset',X).r('''		self.inverse.take();
		self.default_base_direction = dir;''','''		self.inverse = OnceCell::new();
		self.default_base_direction = dir;''')
Ref('cx_prev_let',X).r('''		self.inverse.take();
		self.previous_context = Some(Box::new(previous))''','''		let boxed = Box::new(previous);
		self.inverse.take();
		self.previous_context = Some(boxed);''')
Ref('cx_syntax_vars',X).r('''		json_ld_syntax::context::Definition {
			base: self
				.base_iri
				.map(|i| Nullable::Some(vocabulary.iri(&i).unwrap().to_owned().into())),
			import: None,''','''		let base = match self.base_iri {
			Some(i) => Some(Nullable::Some(vocabulary.iri(&i).unwrap().to_owned().into())),
			None => None,
		};

		json_ld_syntax::context::Definition {
			base,
			import: None,''')
Ref('cx_syntax_bindings_loop',X).r('''			bindings: bindings
				.into_iter()
				.map(|(key, definition)| (key, definition.into_syntax_definition(vocabulary)))
				.collect(),''','''			bindings: {
				let converted = bindings.into_iter();
				converted
					.map(|binding| {
						let (key, definition) = binding;
						let definition = definition.into_syntax_definition(vocabulary);
						(key, definition)
					})
					.collect()
			},''')
Ref('cx_syntax_vocab_match',X).r('''			vocab: self.vocabulary.map(|v| match v {
				Term::Null => Nullable::Null,
				Term::Id(r) => Nullable::Some(r.with(vocabulary).to_string().into()),
				Term::Keyword(_) => panic!("invalid vocab"),
			}),''','''			vocab: match self.vocabulary {
				None => None,
				Some(Term::Null) => Some(Nullable::Null),
				Some(Term::Id(r)) => Some(Nullable::Some(r.with(vocabulary).to_string().into())),
				Some(Term::Keyword(_)) => panic!("invalid vocab"),
			},''')
Ref('cx_eq_order',X).r('''		self.original_base_url == other.original_base_url
			&& self.base_iri == other.base_iri
			&& self.vocabulary == other.vocabulary
			&& self.default_language == other.default_language
			&& self.default_base_direction == other.default_base_direction
			&& self.previous_context == other.previous_context
			&& self.definitions == other.definitions''','''		if self.base_iri != other.base_iri || self.original_base_url != other.original_base_url {
			return false;
		}

		self.default_base_direction == other.default_base_direction
			&& self.default_language == other.default_language
			&& self.vocabulary == other.vocabulary
			&& self.definitions == other.definitions
			&& self.previous_context == other.previous_context''')
Ref('cx_clone_new',X).r('''			definitions: self.definitions.clone(),
			inverse: OnceCell::default(),
		}
	}
}

impl<T: PartialEq''','''			definitions: self.definitions.clone(),
			inverse: OnceCell::new(),
		}
	}
}

impl<T: PartialEq''')
Ref('cx_into_syntax_let',X).r('''		json_ld_syntax::context::Context::One(json_ld_syntax::ContextEntry::Definition(
			self.into_syntax_definition(vocabulary),
		))''','''		let definition = self.into_syntax_definition(vocabulary);
		json_ld_syntax::context::Context::One(json_ld_syntax::ContextEntry::Definition(definition))''')
Ref('cx_map_prev_match',X).r('''			previous_context: self
				.previous_context
				.map(|c| Box::new((*c).map_ids_with(map_iri, map_id))),''','''			previous_context: match self.previous_context {
				Some(c) => {
					let mapped = (*c).map_ids_with(map_iri, map_id);
					Some(Box::new(mapped))
				}
				None => None,
			},''')

Ref('iv_setany_getorinsert',V).r('''		if self.any.is_none() {
			self.any = Some(term.clone())
		}''','''		self.any.get_or_insert_with(|| term.clone());''',2)
Ref('iv_setany_match',V).r('''		if self.any.is_none() {
			self.any = Some(term.clone())
		}''','''		match self.any {
			Some(_) => (),
			None => self.any = Some(term.clone()),
		}''',2)
Ref('iv_set_entry',V).r('''		if !self.map.contains_key(ty) {
			self.map.insert(ty.clone(), term.clone());
		}''','''		self.map.entry(ty.clone()).or_insert_with(|| term.clone());''')
Ref('iv_set_getnone',V).r('''		if !self.map.contains_key(ty) {
			self.map.insert(ty.clone(), term.clone());
		}''','''		if self.map.get(ty).is_none() {
			let ty = ty.clone();
			let term = term.clone();
			self.map.insert(ty, term);
		}''')
Ref('iv_setlang_contains',V).r('''		self.map.entry(lang_dir).or_insert_with(|| term.clone());''','''		if !self.map.contains_key(&lang_dir) {
			self.map.insert(lang_dir, term.clone());
		}''')
Ref('iv_setlang_match',V).r('''		let lang_dir = lang_dir.map(|(l, d)| (l.map(|l| l.to_owned()), d));
		self.map.entry(lang_dir).or_insert_with(|| term.clone());''','''		let lang_dir = match lang_dir {
			Nullable::Null => Nullable::Null,
			Nullable::Some((l, d)) => Nullable::Some((l.map(LenientLangTag::to_owned), d)),
		};
		self.map.entry(lang_dir).or_insert_with(|| term.clone());''')
Ref('iv_none_inline',V).r('''		self.set(Nullable::Some((None, None)), term)''','''		self.map
			.entry(Nullable::Some((None, None)))
			.or_insert_with(|| term.clone());''')
Ref('iv_ref_entry',V).r('''		if !self.contains(container) {
			self.map.insert(*container, insert());
		}
		self.map.get_mut(container).unwrap()''','''		self.map.entry(*container).or_insert_with(insert)''')
Ref('iv_ref2_entry',V).r('''		if !self.contains(term) {
			self.insert(term.clone(), insert());
		}
		self.map.get_mut(term).unwrap()''','''		self.map.entry(term.clone()).or_insert_with(insert)''')
Ref('iv_select_and_then',V).r('''		match self.get(var) {
			Some(container_map) => container_map.select(containers, selection),
			None => None,
		}''','''		self.get(var)
			.and_then(|container_map| container_map.select(containers, selection))''')
Ref('iv_select_q',V).r('''		match self.get(var) {
			Some(container_map) => container_map.select(containers, selection),
			None => None,
		}''','''		let container_map = self.get(var)?;
		container_map.select(containers, selection)''')
SEL='''		for container in containers {
			if let Some(type_lang_map) = self.get(container) {
				match selection {
					Selection::Any => return Some(&type_lang_map.any.none),
					Selection::Type(preferred_values) => {
						for item in preferred_values {
							if let Some(term) = type_lang_map.typ.select(item.clone()) {
								return Some(term);
							}
						}
					}
					Selection::Lang(preferred_values) => {
						for item in preferred_values {
							if let Some(term) = type_lang_map.language.select(*item) {
								return Some(term);
							}
						}
					}
				}
			}
		}

		None'''
Ref('iv_sel_findmap',V).r(SEL,'''		containers.iter().filter_map(|container| self.get(container)).find_map(|maps| match selection {
			Selection::Any => Some(&maps.any.none),
			Selection::Type(preferred_values) => preferred_values
				.iter()
				.find_map(|item| maps.typ.select(item.clone())),
			Selection::Lang(preferred_values) => preferred_values
				.iter()
				.find_map(|item| maps.language.select(*item)),
		})''')
Ref('iv_sel_helper',V).r(SEL,'''		for container in containers {
			let Some(maps) = self.get(container) else {
				continue;
			};

			let found = maps.pick(selection);
			if found.is_some() {
				return found;
			}
		}

		None''').app('''
impl<T: Clone + Hash + Eq> InverseContainer<T> {
	/// The term preferred by `selection`.
	fn pick(&self, selection: &Selection<T>) -> Option<&Key> {
		match selection {
			Selection::Any => Some(&self.any.none),
			Selection::Type(preferred) => {
				for item in preferred {
					let term = self.typ.select(item.clone());
					if term.is_some() {
						return term;
					}
				}
				None
			}
			Selection::Lang(preferred) => {
				for item in preferred {
					let term = self.language.select(*item);
					if term.is_some() {
						return term;
					}
				}
				None
			}
		}
	}
}
''')
Ref('iv_sel_continue',V).r(SEL,SEL.replace('''			if let Some(type_lang_map) = self.get(container) {
				match''','''			let type_lang_map = match self.get(container) {
				Some(m) => m,
				None => continue,
			};
			{
				match'''))
SORT='''			let a = a.term().as_str();
			let b = b.term().as_str();
			let ord = a.len().cmp(&b.len());
			if ord == Ordering::Equal {
				a.cmp(b)
			} else {
				ord
			}'''
Ref('iv_sort_then',V).r(SORT,'''			let a = a.term().as_str();
			let b = b.term().as_str();
			a.len().cmp(&b.len()).then_with(|| a.cmp(b))''').r('use std::cmp::Ordering;\n','')
Ref('iv_sort_match',V).r(SORT,'''			let (a, b) = (a.term().as_str(), b.term().as_str());
			match a.len().cmp(&b.len()) {
				Ordering::Equal => a.cmp(b),
				ord => ord,
			}''')
Ref('iv_sort_tuple',V).r(SORT,'''			let a = a.term().as_str();
			let b = b.term().as_str();
			(a.len(), a).cmp(&(b.len(), b))''').r('use std::cmp::Ordering;\n','')
Ref('iv_sort_key',V).r('definitions.sort_by(|a, b| {\n'+SORT+'\n		});','''definitions.sort_by_key(|binding| {
			let term = binding.term().as_str();
			(term.len(), term)
		});''').r('use std::cmp::Ordering;\n','')
Ref('iv_from_letelse',V).r('''			if let BindingRef::Normal(term, term_definition) = binding {
				if let Some(var) = term_definition.value.as_ref() {''','''			if let BindingRef::Normal(term, term_definition) = binding {
				if let Some(var) = &term_definition.value {''')
Ref('iv_rev_getor',V).r('''						if type_map.reverse.is_none() {
							type_map.reverse = Some(term.clone())
						}''','''						type_map.reverse.get_or_insert_with(|| term.clone());''')
Ref('iv_lang_only',V).r('''										match language {
											Nullable::Some(language) => lang_map.set(
												Nullable::Some((
													Some(language.as_lenient_lang_tag_ref()),
													None,
												)),
												term,
											),
											Nullable::Null => lang_map.set(Nullable::Null, term),
										}''','''										let key = match language {
											Nullable::Null => Nullable::Null,
											Nullable::Some(language) => Nullable::Some((
												Some(language.as_lenient_lang_tag_ref()),
												None,
											)),
										};
										lang_map.set(key, term)''')
Ref('iv_dir_only',V).r('''										match direction {
											Nullable::Some(direction) => lang_map.set(
												Nullable::Some((None, Some(*direction))),
												term,
											),
											Nullable::Null => {
												lang_map.set(Nullable::Some((None, None)), term)
											}
										}''','''										let direction = match direction {
											Nullable::Some(direction) => Some(*direction),
											Nullable::Null => None,
										};
										lang_map.set(Nullable::Some((None, direction)), term)''')
Ref('iv_default_vars',V).r('''										lang_map.set(
											Nullable::Some((
												context.default_language(),
												context.default_base_direction(),
											)),
											term,
										);
										lang_map.set_none(term);
										type_map.set_none(term);''','''										let language = context.default_language();
										let direction = context.default_base_direction();
										type_map.set_none(term);
										lang_map.set(Nullable::Some((language, direction)), term);
										lang_map.set_none(term);''')
Ref('iv_none_iflet',V).r('''							Some(Type::None) => {
								// Otherwise, if term definition has a type mapping which is @none:
								type_map.set_any(term);
								lang_map.set_any(term);
							}''','''							Some(Type::None) => {
								// Otherwise, if term definition has a type mapping which is @none:
								lang_map.set_any(term);
								type_map.set_any(term);
							}''')

Ref('de_len_from',D).r('''		if self.type_.is_some() {
			self.normal.len() + 1
		} else {
			self.normal.len()
		}''','''		match &self.type_ {
			Some(_) => self.normal.len() + 1,
			None => self.normal.len(),
		}''')
Ref('de_empty_len',D).r('''		self.type_.is_none() && self.normal.is_empty()''','''		self.normal.is_empty() && self.type_.is_none()''')
Ref('de_get_match',D).r('''		if KeywordType.borrow() == term {
			self.type_.as_ref().map(TermDefinitionRef::Type)
		} else {
			self.normal.get(term).map(TermDefinitionRef::Normal)
		}''','''		if KeywordType.borrow() != term {
			return match self.normal.get(term) {
				Some(d) => Some(TermDefinitionRef::Normal(d)),
				None => None,
			};
		}

		match &self.type_ {
			Some(d) => Some(TermDefinitionRef::Type(d)),
			None => None,
		}''')
Ref('de_contains_get',D).r('''		if KeywordType.borrow() == term {
			self.type_.is_some()
		} else {
			self.normal.contains_key(term)
		}''','''		let is_type = KeywordType.borrow() == term;
		(is_type && self.type_.is_some()) || (!is_type && self.normal.contains_key(term))''')
Ref('de_contains_viaget',D).r('''		if KeywordType.borrow() == term {
			self.type_.is_some()
		} else {
			self.normal.contains_key(term)
		}''','''		self.get(term).is_some()''')
Ref('de_insert_match',D).r('''			Binding::Type(definition) => self.insert_type(definition).map(TermDefinition::Type),''','''			Binding::Type(definition) => match self.insert_type(definition) {
				Some(old) => Some(TermDefinition::Type(old)),
				None => None,
			},''')
Ref('de_set_iflet',D).r('''		match definition {
			Some(d) => self.normal.insert(term, d),
			None => self.normal.remove(&term),
		}''','''		if let Some(d) = definition {
			self.normal.insert(term, d)
		} else {
			self.normal.remove(&term)
		}''')
Ref('de_settype_let',D).r('''		std::mem::replace(&mut self.type_, definition)''','''		let previous = self.type_.take();
		self.type_ = definition;
		previous''')
Ref('de_next_match',D).r('''		self.type_
			.take()
			.map(BindingRef::Type)
			.or_else(|| self.normal.next().map(|(k, d)| BindingRef::Normal(k, d)))''','''		match self.type_.take() {
			Some(d) => Some(BindingRef::Type(d)),
			None => self.normal.next().map(|(k, d)| BindingRef::Normal(k, d)),
		}''')
Ref('de_next_iflet',D).r('''		self.type_
			.take()
			.map(Binding::Type)
			.or_else(|| self.normal.next().map(|(k, d)| Binding::Normal(k, d)))''','''		if let Some(d) = self.type_.take() {
			return Some(Binding::Type(d));
		}

		let (k, d) = self.normal.next()?;
		Some(Binding::Normal(k, d))''')
Ref('de_type_prot_then',D).r('''			protected: if self.protected { Some(true) } else { None },
		}
	}
}

/// Term definition.''','''			protected: self.protected.then_some(true),
		}
	}
}

/// Term definition.''')

Ref('co_syntax_fold',C).r('''				let mut container = Container::new();

				for t in m {
					if !container.add(*t) {
						return Err(InvalidContainer);
					}
				}

				Ok(container)''','''				let mut container = Container::new();

				for t in m {
					container = container.with(*t).ok_or(InvalidContainer)?;
				}

				Ok(container)''')
Ref('co_syntax_from',C).r('''				let mut container = Container::new();

				for t in m {
					if !container.add(*t) {
						return Err(InvalidContainer);
					}
				}

				Ok(container)''','''				Self::from(m).map_err(|_| InvalidContainer)''')
Ref('co_from_letelse',C).r('''		for item in iter {
			if !container.add(*item) {
				return Err(*item);
			}
		}''','''		for item in iter {
			match container.with(*item) {
				Some(c) => container = c,
				None => return Err(*item),
			}
		}''')
Ref('co_add_iflet',C).r('''		match self.with(c) {
			Some(container) => {
				*self = container;
				true
			}
			None => false,
		}''','''		if let Some(container) = self.with(c) {
			*self = container;
			return true;
		}

		false''')
Ref('co_add_map',C).r('''		match self.with(c) {
			Some(container) => {
				*self = container;
				true
			}
			None => false,
		}''','''		let extended = self.with(c);
		if let Some(container) = extended {
			*self = container;
		}
		extended.is_some()''')
Ref('co_syntax_slice',C).r('''		let slice = self.as_slice();

		match slice.len() {
			0 => None,
			1 => Some(json_ld_syntax::Container::One(slice[0])),
			_ => Some(json_ld_syntax::Container::Many(slice.to_vec())),
		}''','''		match self.as_slice() {
			[] => None,
			[kind] => Some(json_ld_syntax::Container::One(*kind)),
			kinds => Some(json_ld_syntax::Container::Many(kinds.to_vec())),
		}''')
Ref('co_empty_slice',C).r('''		matches!(self, Container::None)''','''		*self == Container::None''')
Ref('co_contains_iter',C).r('''		self.as_slice().contains(&c)''','''		self.iter().any(|kind| *kind == c)''')
Ref('co_with_merge',C).r('''			(Container::IdSet, ContainerKind::Id) => *self,
			(Container::IdSet, ContainerKind::Set) => *self,
''','''			(Container::IdSet, ContainerKind::Id | ContainerKind::Set) => *self,
''')
Ref('co_with_contains',C).r('''		let new_container = match (self, c) {''','''		if self.contains(c) {
			return Some(*self);
		}

		let new_container = match (self, c) {''')

Ref('ls_new_neg',L).r('''		if language.is_some() || direction.is_some() {
			Ok(Self {
				data,
				language,
				direction,
			})
		} else {
			Err(data)
		}''','''		if language.is_none() && direction.is_none() {
			return Err(data);
		}

		Ok(Self {
			data,
			language,
			direction,
		})''')
Ref('ls_new_match',L).r('''		if language.is_some() || direction.is_some() {
			Ok(Self {
				data,
				language,
				direction,
			})
		} else {
			Err(data)
		}''','''		match (&language, direction) {
			(None, None) => Err(data),
			_ => Ok(Self {
				data,
				language,
				direction,
			}),
		}''')
Ref('ls_setlang_early',L).r('''		if self.direction.is_some() || language.is_some() {
			self.language = language;
			Ok(())
		} else {
			Err(InvalidLangString)
		}''','''		if language.is_none() && self.direction.is_none() {
			return Err(InvalidLangString);
		}

		self.language = language;
		Ok(())''')
Ref('ls_set_order',L).r('''		if direction.is_some() || language.is_some() {
			self.language = language;
			self.direction = direction;
			Ok(())''','''		if language.is_some() || direction.is_some() {
			self.direction = direction;
			self.language = language;
			Ok(())''')
Ref('ls_json_letelse',L).r('''		let data = match value {
			json_syntax::Value::String(s) => s,
			v => {
				return Err(InvalidExpandedJson::Unexpected(
					v.kind(),
					json_syntax::Kind::String,
				))
			}
		};
''','''		let data = expect_string(value)?;
''').app('''
fn expect_string(value: json_syntax::Value) -> Result<json_syntax::String, InvalidExpandedJson> {
	match value {
		json_syntax::Value::String(s) => Ok(s),
		v => Err(InvalidExpandedJson::Unexpected(
			v.kind(),
			json_syntax::Kind::String,
		)),
	}
}
''')
Ref('ls_json_dir_maperr',L).r('''			Some(json_syntax::Value::String(value)) => match Direction::try_from(value.as_str()) {
				Ok(direction) => Some(direction),
				Err(_) => return Err(InvalidExpandedJson::InvalidDirection),
			},''','''			Some(json_syntax::Value::String(value)) => Some(
				Direction::try_from(value.as_str())
					.map_err(|_| InvalidExpandedJson::InvalidDirection)?,
			),''')
Ref('ls_json_empty',L).r('''		match object.into_iter().next() {
			None => Ok(Self::new(data, language, direction).unwrap()),
			Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
		}''','''		if !object.is_empty() {
			return Err(InvalidExpandedJson::UnexpectedEntry);
		}

		Ok(Self::new(data, language, direction).unwrap())''')
