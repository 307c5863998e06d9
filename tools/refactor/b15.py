from lib import Ref
C='crates/core/src/'; N=C+'object/node/'
MS=N+'multiset.rs'; PP=N+'properties.rs'; IX=C+'indexed.rs'; ME=C+'object/mapped_eq.rs'
Ref('ms_cmp_early',MS).r('''	if a.len() == b.len() {
		let mut free_indexes = Vec::new();
		free_indexes.resize(a.len(), true);

		for item in a {
			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => *free = false,
				None => return false,
			}
		}

		true
	} else {
		false
	}
}

pub(crate) fn compare_unordered_opt''','''	if a.len() != b.len() {
		return false;
	}

	let mut free_indexes = vec![true; a.len()];

	for item in a {
		let found = free_indexes
			.iter_mut()
			.enumerate()
			.find(|(i, free)| **free && item == &b[*i]);
		match found {
			Some((_, free)) => *free = false,
			None => return false,
		}
	}

	true
}

pub(crate) fn compare_unordered_opt''')
Ref('ms_cmp_letelse',MS).r('''			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => *free = false,
				None => return false,
			}
''','''			let Some((_, free)) = free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			else {
				return false;
			};
			*free = false;
''')
Ref('ms_cmp_used',MS).r('''		let mut free_indexes = Vec::new();
		free_indexes.resize(a.len(), true);

		for item in a {
			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => *free = false,
				None => return false,
			}
		}

		true
''','''		let mut used = vec![false; b.len()];

		for item in a {
			match (0..b.len()).find(|&i| !used[i] && item == &b[i]) {
				Some(i) => used[i] = true,
				None => return false,
			}
		}

		true
''')
Ref('ms_cmp_all',MS).r('''		for item in a {
			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => *free = false,
				None => return false,
			}
		}

		true
	} else {''','''		a.iter().all(|item| {
			match free_indexes
				.iter_mut()
				.enumerate()
				.find(|(i, free)| **free && item == &b[*i])
			{
				Some((_, free)) => {
					*free = false;
					true
				}
				None => false,
			}
		})
	} else {''')
Ref('ms_opt_if',MS).r('''	match (a, b) {
		(Some(a), Some(b)) => compare_unordered(a, b),
		(None, None) => true,
		_ => false,
	}
''','''	match a {
		Some(a) => match b {
			Some(b) => compare_unordered(a, b),
			None => false,
		},
		None => b.is_none(),
	}
''')
Ref('ms_opt_map',MS).r('''		(Some(a), Some(b)) => compare_unordered(a, b),
		(None, None) => true,
		_ => false,
''','''		(None, None) => true,
		(None, Some(_)) | (Some(_), None) => false,
		(Some(a), Some(b)) => compare_unordered(a, b),
''')
Ref('ms_hash_fold',MS).r('''		let mut hash = 0u64;

		for item in self {
			hash = hash.wrapping_add(self.hasher.hash_one(item));
		}

		state.write_u64(hash)
''','''		let hash = self
			.data
			.iter()
			.fold(0u64, |hash, item| hash.wrapping_add(self.hasher.hash_one(item)));

		state.write_u64(hash)
''')
Ref('ms_insu_neg',MS).r('''		if self.contains(&value) {
			false
		} else {
			self.insert(value);
			true
		}
''','''		let absent = !self.contains(&value);
		if absent {
			self.data.push(value);
		}
		absent
''')
Ref('ms_fromiter_extend',MS).r('''		let mut result = Self::new();

		for item in iter {
			result.insert(item)
		}

		result
''','''		let mut result = Self::new();
		result.extend(iter);
		result
''')
Ref('ms_fromiter_collect',MS).r('''		let mut result = Self::new();

		for item in iter {
			result.insert(item)
		}

		result
''','''		Self {
			data: iter.into_iter().collect(),
			hasher: S::default(),
		}
''')
Ref('ms_json_loop',MS).r('''		json_syntax::Value::Array(
			self.into_iter()
				.map(|item| item.into_json_with(vocabulary))
				.collect(),
		)
''','''		let mut array = Vec::with_capacity(self.data.len());
		for item in self {
			array.push(item.into_json_with(vocabulary));
		}
		json_syntax::Value::Array(array)
''')
Ref('pp_get_map',PP).r('''		match self.0.get(prop) {
			Some(values) => Objects::new(Some(values.iter())),
			None => Objects::new(None),
		}
''','''		Objects::new(self.0.get(prop).map(|values| values.iter()))
''')
Ref('pp_any_q',PP).r('''		match self.0.get(prop) {
			Some(values) => values.iter().next(),
			None => None,
		}
''','''		let values = self.0.get(prop)?;
		values.iter().next()
''')
Ref('pp_any_andthen',PP).r('''		match self.0.get(prop) {
			Some(values) => values.iter().next(),
			None => None,
		}
''','''		self.0.get(prop).and_then(|values| values.iter().next())
''')
Ref('pp_ins_match',PP).r('''	pub fn insert(&mut self, prop: Id<T, B>, value: IndexedObject<T, B>) {
		if let Some(node_values) = self.0.get_mut(&prop) {
			node_values.insert(value);
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
	}
''','''	pub fn insert(&mut self, prop: Id<T, B>, value: IndexedObject<T, B>) {
		match self.0.get_mut(&prop) {
			Some(node_values) => node_values.insert(value),
			None => {
				self.0.insert(prop, Multiset::singleton(value));
			}
		}
	}
''')
Ref('pp_ins_entry',PP).r('''	pub fn insert(&mut self, prop: Id<T, B>, value: IndexedObject<T, B>) {
		if let Some(node_values) = self.0.get_mut(&prop) {
			node_values.insert(value);
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
	}
''','''	pub fn insert(&mut self, prop: Id<T, B>, value: IndexedObject<T, B>) {
		self.0.entry(prop).or_default().insert(value)
	}
''')
Ref('pp_insu_any',PP).r('''			if node_values.iter().all(|v| !v.equivalent(&value)) {
				node_values.insert(value)
			}
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
''','''			if !node_values.iter().any(|v| v.equivalent(&value)) {
				node_values.insert(value)
			}
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
''')
Ref('pp_insu_loop',PP).r('''			if node_values.iter().all(|v| !v.equivalent(&value)) {
				node_values.insert(value)
			}
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
''','''			for v in node_values.iter() {
				if v.equivalent(&value) {
					return;
				}
			}
			node_values.insert(value)
		} else {
			self.0.insert(prop, Multiset::singleton(value));
		}
''')
Ref('pp_insall_helper',PP).r('''		if let Some(node_values) = self.0.get_mut(&prop) {
			for value in values {
				if node_values.iter().all(|v| !v.equivalent(&value)) {
					node_values.insert(value)
				}
			}
		} else {
			let values = values.into_iter();
			let mut node_values: PropertyObjects<T, B> =
				Multiset::with_capacity(values.size_hint().0);
			for value in values {
				if node_values.iter().all(|v| !v.equivalent(&value)) {
					node_values.insert(value)
				}
			}

			self.0.insert(prop, node_values);
		}
''','''		if let Some(node_values) = self.0.get_mut(&prop) {
			add_unique(node_values, values);
		} else {
			let values = values.into_iter();
			let mut node_values: PropertyObjects<T, B> =
				Multiset::with_capacity(values.size_hint().0);
			add_unique(&mut node_values, values);
			self.0.insert(prop, node_values);
		}
''').app('''
fn add_unique<T: Eq + Hash, B: Eq + Hash>(
	node_values: &mut PropertyObjects<T, B>,
	values: impl IntoIterator<Item = IndexedObject<T, B>>,
) {
	for value in values {
		if node_values.iter().all(|v| !v.equivalent(&value)) {
			node_values.insert(value)
		}
	}
}
''')
Ref('pp_insall_nocap',PP).r('''			let values = values.into_iter();
			let mut node_values: PropertyObjects<T, B> =
				Multiset::with_capacity(values.size_hint().0);
			for value in values {
''','''			let mut node_values: PropertyObjects<T, B> = Multiset::new();
			for value in values {
''')
Ref('pp_extu_foreach',PP).r('''		for (prop, values) in iter {
			self.insert_all_unique(prop, values)
		}
''','''		iter.into_iter()
			.for_each(|(prop, values)| self.insert_all_unique(prop, values))
''')
Ref('ix_json_match',IX).r('''		match value {
			json_syntax::Value::Object(object) => Self::try_from_json_object_in(vocabulary, object),
			_ => Err(InvalidExpandedJson::InvalidObject),
		}
''','''		let json_syntax::Value::Object(object) = value else {
			return Err(InvalidExpandedJson::InvalidObject);
		};
		Self::try_from_json_object_in(vocabulary, object)
''')
Ref('ix_idx_flat',IX).r('''		let index = match object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?
		{
			Some(index_entry) => match index_entry.value {
				json_syntax::Value::String(index) => Some(index.to_string()),
				_ => return Err(InvalidExpandedJson::InvalidIndex),
			},
			None => None,
		};
''','''		let entry = object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?;
		let index = match entry.map(|e| e.value) {
			Some(json_syntax::Value::String(index)) => Some(index.to_string()),
			Some(_) => return Err(InvalidExpandedJson::InvalidIndex),
			None => None,
		};
''')
Ref('ix_idx_transpose',IX).r('''		let index = match object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?
		{
			Some(index_entry) => match index_entry.value {
				json_syntax::Value::String(index) => Some(index.to_string()),
				_ => return Err(InvalidExpandedJson::InvalidIndex),
			},
			None => None,
		};
''','''		let index = object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?
			.map(|entry| match entry.value {
				json_syntax::Value::String(index) => Ok(index.to_string()),
				_ => Err(InvalidExpandedJson::InvalidIndex),
			})
			.transpose()?;
''')
Ref('ix_trycast_maperr',IX).r('''		match self.value.try_into() {
			Ok(value) => Ok(Indexed::new(value, self.index)),
			Err(e) => Err(Indexed::new(e, self.index)),
		}
''','''		let (value, index) = self.into_parts();
		match value.try_into() {
			Ok(value) => Ok(Indexed::new(value, index)),
			Err(e) => Err(Indexed::new(e, index)),
		}
''')
Ref('ix_tojson_tuple',IX).r('''		if let Some(obj) = result.as_object_mut() {
			if let Some(index) = self.index {
				obj.insert("@index".into(), index.into_json());
			}
		}
''','''		if let (Some(obj), Some(index)) = (result.as_object_mut(), self.index) {
			obj.insert("@index".into(), index.into_json());
		}
''')
Ref('ix_tojson_swap',IX).r('''		if let Some(obj) = result.as_object_mut() {
			if let Some(index) = self.index {
				obj.insert("@index".into(), index.into_json());
			}
		}
''','''		if let Some(index) = self.index {
			if let Some(obj) = result.as_object_mut() {
				obj.insert("@index".into(), index.into_json());
			}
		}
''')
Ref('ix_tojson_variant',IX).r('''		if let Some(obj) = result.as_object_mut() {
			if let Some(index) = self.index {
''','''		if let json_syntax::Value::Object(obj) = &mut result {
			if let Some(index) = self.index {
''')
Ref('me_obj_order',ME).r('''			(Self::Value(a), Self::Value(b)) => a == b,
			(Self::Node(a), Self::Node(b)) => a.mapped_eq(b, f),
			(Self::List(a), Self::List(b)) => a.mapped_eq(b, f),
			_ => false,
''','''			(Self::List(a), Self::List(b)) => a.mapped_eq(b, f),
			(Self::Node(a), Self::Node(b)) => a.mapped_eq(b, f),
			(Self::Value(a), Self::Value(b)) => a == b,
			_ => false,
''')
Ref('me_node_flags',ME).r('''		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
			&& self.types().unordered_mapped_eq(other.types(), f.clone())
			&& opt_mapped_eq''','''		if !opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone()) {
			return false;
		}

		self.types().unordered_mapped_eq(other.types(), f.clone())
			&& opt_mapped_eq''')
Ref('me_slice_loop',ME).r('''		self.len() == other.len()
			&& self
				.iter()
				.zip(other)
				.all(move |(a, b)| a.mapped_eq(b, f.clone()))
''','''		if self.len() != other.len() {
			return false;
		}
		for (a, b) in self.iter().zip(other) {
			if !a.mapped_eq(b, f.clone()) {
				return false;
			}
		}
		true
''')
Ref('me_id_nested',ME).r('''			(Self::Blank(a), Self::Blank(b)) => f(a) == b,
			(Self::Iri(a), Self::Iri(b)) => a == b,
			_ => false,
''','''			(Self::Blank(a), other) => match other {
				Self::Blank(b) => f(a) == b,
				Self::Iri(_) => false,
			},
			(Self::Iri(a), other) => match other {
				Self::Iri(b) => a == b,
				Self::Blank(_) => false,
			},
''')
Ref('me_idx_nested',ME).r('''		self.index() == other.index() && self.inner().mapped_eq(other.inner(), f)
''','''		if self.index() != other.index() {
			false
		} else {
			self.inner().mapped_eq(other.inner(), f)
		}
''')
Ref('me_opt_if',ME).r('''	match (a, b) {
		(Some(a), Some(b)) => a.mapped_eq(b, f),
		(None, None) => true,
		_ => false,
	}
}
''','''	if let (Some(a), Some(b)) = (a, b) {
		a.mapped_eq(b, f)
	} else {
		a.is_none() && b.is_none()
	}
}
''')
LS=C+'lang_string.rs'; CT=C+'container.rs'; TY=C+'ty.rs'; TM=C+'term.rs'; OT=C+'object/typ.rs'
Ref('ls_new_neg',LS).r('''	) -> Result<Self, json_ld_syntax::String> {
		if language.is_some() || direction.is_some() {
			Ok(Self {
				data,
				language,
				direction,
			})
		} else {
			Err(data)
		}
''','''	) -> Result<Self, json_ld_syntax::String> {
		if language.is_none() && direction.is_none() {
			return Err(data);
		}

		Ok(Self {
			data,
			language,
			direction,
		})
''')
Ref('ls_new_match',LS).r('''	) -> Result<Self, json_ld_syntax::String> {
		if language.is_some() || direction.is_some() {
			Ok(Self {
				data,
				language,
				direction,
			})
		} else {
			Err(data)
		}
''','''	) -> Result<Self, json_ld_syntax::String> {
		match (&language, &direction) {
			(None, None) => Err(data),
			_ => Ok(Self {
				data,
				language,
				direction,
			}),
		}
''')
Ref('ls_set_viaset',LS).r('''		if direction.is_some() || self.language.is_some() {
			self.direction = direction;
			Ok(())
		} else {
			Err(InvalidLangString)
		}
''','''		if direction.is_none() && self.language.is_none() {
			return Err(InvalidLangString);
		}
		self.direction = direction;
		Ok(())
''')
Ref('ls_json_string_helper',LS).r('''		let data = match value {
			json_syntax::Value::String(s) => s,
			v => {
				return Err(InvalidExpandedJson::Unexpected(
					v.kind(),
					json_syntax::Kind::String,
				))
			}
		};
''','''		let data = expect_string(value)?;
''').r('''			Some(json_syntax::Value::String(value)) => {
				let (tag, _) = LenientLangTagBuf::new(value.to_string());
				Some(tag)
			}
			Some(v) => {
				return Err(InvalidExpandedJson::Unexpected(
					v.kind(),
					json_syntax::Kind::String,
				))
			}
			None => None,
''','''			Some(value) => {
				let value = expect_string(value)?;
				let (tag, _) = LenientLangTagBuf::new(value.to_string());
				Some(tag)
			}
			None => None,
''').app('''
fn expect_string(value: json_syntax::Value) -> Result<json_syntax::String, InvalidExpandedJson> {
	match value {
		json_syntax::Value::String(s) => Ok(s),
		v => Err(InvalidExpandedJson::Unexpected(
			v.kind(),
			json_syntax::Kind::String,
		)),
	}
}
''')
Ref('ls_json_dir_maperr',LS).r('''			Some(json_syntax::Value::String(value)) => match Direction::try_from(value.as_str()) {
				Ok(direction) => Some(direction),
				Err(_) => return Err(InvalidExpandedJson::InvalidDirection),
			},
''','''			Some(json_syntax::Value::String(value)) => Some(
				Direction::try_from(value.as_str())
					.map_err(|_| InvalidExpandedJson::InvalidDirection)?,
			),
''')
Ref('ls_json_last_isempty',LS).r('''		match object.into_iter().next() {
			None => Ok(Self::new(data, language, direction).unwrap()),
			Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
		}
''','''		if object.into_iter().next().is_some() {
			return Err(InvalidExpandedJson::UnexpectedEntry);
		}

		Ok(Self::new(data, language, direction).unwrap())
''')
Ref('ls_json_empty',LS).r('''		match object.into_iter().next() {
			None => Ok(Self::new(data, language, direction).unwrap()),
			Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
		}
''','''		if object.is_empty() {
			Ok(Self::new(data, language, direction).unwrap())
		} else {
			Err(InvalidExpandedJson::UnexpectedEntry)
		}
''')
Ref('ct_from_find',CT).r('''			if !container.add(*item) {
				return Err(*item);
			}
''','''			match container.with(*item) {
				Some(c) => container = c,
				None => return Err(*item),
			}
''')
Ref('ct_add_some',CT).r('''		match self.with(c) {
			Some(container) => {
				*self = container;
				true
			}
			None => false,
		}
''','''		let container = self.with(c);
		if let Some(container) = container {
			*self = container;
		}
		container.is_some()
''')
Ref('ct_add_letelse',CT).r('''		match self.with(c) {
			Some(container) => {
				*self = container;
				true
			}
			None => false,
		}
''','''		let Some(container) = self.with(c) else {
			return false;
		};
		*self = container;
		true
''')
Ref('ct_with_some',CT).r('''			_ => return None,
		};

		Some(new_container)
''','''			_ => None?,
		};

		Some(new_container)
''')
Ref('ct_with_reorder',CT).r('''			(Container::List, ContainerKind::List) => *self,
			(Container::Set, ContainerKind::Set) => *self,
''','').r('''			(Container::LanguageSet, ContainerKind::Set) => *self,
''','''			(Container::LanguageSet, ContainerKind::Set) => *self,
			(Container::List, ContainerKind::List) | (Container::Set, ContainerKind::Set) => *self,
''')
Ref('ct_syntax_pat',CT).r('''		match slice.len() {
			0 => None,
			1 => Some(json_ld_syntax::Container::One(slice[0])),
			_ => Some(json_ld_syntax::Container::Many(slice.to_vec())),
		}
''','''		match slice {
			[] => None,
			[kind] => Some(json_ld_syntax::Container::One(*kind)),
			kinds => Some(json_ld_syntax::Container::Many(kinds.to_vec())),
		}
''')
Ref('ct_contains_any',CT).r('''		self.as_slice().contains(&c)
''','''		self.iter().any(|k| *k == c)
''')
Ref('ty_map_order',TY).r('''			Type::Id => Type::Id,
			Type::Json => Type::Json,
			Type::None => Type::None,
			Type::Vocab => Type::Vocab,
			Type::Iri(t) => Type::Iri(f(t)),
''','''			Type::Iri(t) => Type::Iri(f(t)),
			Type::Vocab => Type::Vocab,
			Type::None => Type::None,
			Type::Json => Type::Json,
			Type::Id => Type::Id,
''')
Ref('ty_cloned_map',TY).r('''		match self {
			Type::Id => Type::Id,
			Type::Json => Type::Json,
			Type::None => Type::None,
			Type::Vocab => Type::Vocab,
			Type::Iri(t) => Type::Iri(t.clone()),
		}
''','''		self.map(|t| t.clone())
''')
Ref('ty_tryfrom_nested',TY).r('''			Term::Keyword(Keyword::Id) => Ok(Type::Id),
			Term::Keyword(Keyword::Json) => Ok(Type::Json),
			Term::Keyword(Keyword::None) => Ok(Type::None),
			Term::Keyword(Keyword::Vocab) => Ok(Type::Vocab),
			Term::Id''','''			Term::Keyword(k) => match k {
				Keyword::Id => Ok(Type::Id),
				Keyword::Json => Ok(Type::Json),
				Keyword::None => Ok(Type::None),
				Keyword::Vocab => Ok(Type::Vocab),
				other => Err(Term::Keyword(other)),
			},
			Term::Id''')
Ref('ty_fmt_str',TY).r('''			Type::Id => write!(f, "@id"),
			Type::Json => write!(f, "@json"),
			Type::None => write!(f, "@none"),
			Type::Vocab => write!(f, "@vocab"),
			Type::Iri(id) => id.fmt(f),
''','''			Type::Id => f.write_str("@id"),
			Type::Json => f.write_str("@json"),
			Type::None => f.write_str("@none"),
			Type::Vocab => f.write_str("@vocab"),
			Type::Iri(id) => id.fmt(f),
''')
Ref('tm_fmt_iflet',TM).r('''		match self {
			Self::Null => write!(f, "null"),
			Self::Id(id) => id.with(vocabulary).fmt(f),
			Self::Keyword(k) => k.fmt(f),
		}
''','''		match self {
			Self::Keyword(k) => k.fmt(f),
			Self::Id(id) => id.with(vocabulary).fmt(f),
			Self::Null => f.write_str("null"),
		}
''')
Ref('tm_iri_iflet',TM).r('''		match self {
			Term::Id(p) => p.as_iri(),
			_ => None,
		}
''','''		if let Term::Id(p) = self {
			p.as_iri()
		} else {
			None
		}
''')
Ref('ot_str_fmt',OT).r('''			Self::Json => write!(f, "@json"),
			Self::Id(id) => id.fmt(f),
			Self::Blank(id) => id.fmt(f),
			Self::Invalid(id) => id.fmt(f),
''','''			Self::Json => f.write_str("@json"),
			Self::Id(id) => id.fmt(f),
			Self::Blank(id) => id.fmt(f),
			Self::Invalid(id) => id.fmt(f),
''',2)
Ref('ot_fromref_nested',OT).r('''			Id::Valid(ValidId::Iri(id)) => Self::Id(id),
			Id::Valid(ValidId::Blank(id)) => Self::Blank(id),
			Id::Invalid(id) => Self::Invalid(id),
''','''			Id::Valid(valid) => match valid {
				ValidId::Iri(id) => Self::Id(id),
				ValidId::Blank(id) => Self::Blank(id),
			},
			Id::Invalid(id) => Self::Invalid(id),
''')
