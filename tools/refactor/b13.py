from lib import Ref
L='crates/core/src/loader/'
CH=L+'chain.rs'; FS=L+'fs.rs'; MP=L+'map.rs'; LM=L+'mod.rs'
ID='crates/core/src/id.rs'; IX='crates/core/src/indexed.rs'; LI='crates/core/src/object/list.rs'
ME='crates/core/src/object/mapped_eq.rs'; EX='crates/core/src/document/expanded.rs'; DM='crates/core/src/document/mod.rs'
TY='crates/core/src/object/typ.rs'; CT='crates/core/src/ty.rs'; TE='crates/core/src/term.rs'
Ref('ch_early',CH).r('''		match self.0.load(url).await {
			Ok(doc) => Ok(doc),
			Err(LoadError { cause: e1, .. }) => match self.1.load(url).await {
				Ok(doc) => Ok(doc),
				Err(LoadError { target, cause: e2 }) => Err(LoadError::new(target, Error(e1, e2))),
			},
		}''','''		let e1 = match self.0.load(url).await {
			Ok(doc) => return Ok(doc),
			Err(e) => e.cause,
		};
		match self.1.load(url).await {
			Ok(doc) => Ok(doc),
			Err(e) => Err(LoadError::new(e.target, Error(e1, e.cause))),
		}''')
Ref('ch_maperr',CH).r('''match self.1.load(url).await {
				Ok(doc) => Ok(doc),
				Err(LoadError { target, cause: e2 }) => Err(LoadError::new(target, Error(e1, e2))),
			},''','''self
				.1
				.load(url)
				.await
				.map_err(|LoadError { target, cause: e2 }| LoadError::new(target, Error(e1, e2))),''')
Ref('ch_helper',CH).r('''Err(LoadError::new(target, Error(e1, e2)))''','''Err(both(target, e1, e2))''').app('''
fn both(target: IriBuf, first: LoadErrorCause, second: LoadErrorCause) -> LoadError {
	LoadError::new(target, Error(first, second))
}
''')
Ref('fs_find_map',FS).r('''		for (path, target_url) in &self.mount_points {
			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
				let mut filepath = path.clone();
				for seg in suffix.as_path().segments() {
					filepath.push(seg.as_str())
				}

				return Some(filepath);
			}
		}

		None''','''		self.mount_points.iter().find_map(|(path, target_url)| {
			let (suffix, _, _) = url.as_iri_ref().suffix(target_url)?;
			let mut filepath = path.clone();
			for seg in suffix.as_path().segments() {
				filepath.push(seg.as_str())
			}
			Some(filepath)
		})''')
Ref('fs_continue',FS).r('''			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
				let mut filepath = path.clone();
				for seg in suffix.as_path().segments() {
					filepath.push(seg.as_str())
				}

				return Some(filepath);
			}
''','''			let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) else {
				continue;
			};

			let mut filepath = path.clone();
			for seg in suffix.as_path().segments() {
				filepath.push(seg.as_str())
			}

			return Some(filepath);
''')
Ref('fs_letelse',FS).r('''		match self.filepath(url) {
			Some(filepath) => {
				let file = File::open(filepath)
					.map_err(|e| LoadError::new(url.to_owned(), Error::IO(e)))?;
				let mut buf_reader = BufReader::new(file);
				let mut contents = String::new();
				buf_reader
					.read_to_string(&mut contents)
					.map_err(|e| LoadError::new(url.to_owned(), Error::IO(e)))?;
				let (doc, _) = json_syntax::Value::parse_str(&contents)
					.map_err(|e| LoadError::new(url.to_owned(), Error::Parse(e)))?;
				Ok(RemoteDocument::new(
					Some(url.to_owned()),
					Some("application/ld+json".parse().unwrap()),
					doc,
				))
			}
			None => Err(LoadError::new(url.to_owned(), Error::NoMountPoint)),
		}''','''		let fail = |e: Error| LoadError::new(url.to_owned(), e);
		let Some(filepath) = self.filepath(url) else {
			return Err(fail(Error::NoMountPoint));
		};

		let file = File::open(filepath).map_err(|e| fail(Error::IO(e)))?;
		let mut buf_reader = BufReader::new(file);
		let mut contents = String::new();
		buf_reader
			.read_to_string(&mut contents)
			.map_err(|e| fail(Error::IO(e)))?;
		let (doc, _) = json_syntax::Value::parse_str(&contents).map_err(|e| fail(Error::Parse(e)))?;
		let url = Some(url.to_owned());
		let content_type = Some("application/ld+json".parse().unwrap());
		Ok(RemoteDocument::new(url, content_type, doc))''')
Ref('fs_okor',FS).r('''		match self.filepath(url) {
			Some(filepath) => {''','''		match self
			.filepath(url)
			.ok_or_else(|| LoadError::new(url.to_owned(), Error::NoMountPoint))
		{
			Ok(filepath) => {''').r('''			None => Err(LoadError::new(url.to_owned(), Error::NoMountPoint)),''','''			Err(e) => Err(e),''')
Ref('fs_mount_let',FS).r('''		self.mount_points.push((path.as_ref().into(), url));''','''		let path = path.as_ref().to_path_buf();
		self.mount_points.push((path, url));''')
Ref('mp_okor',MP).r('''		match self.get(url) {
			Some(document) => Ok(document.clone()),
			None => Err(LoadError::new(url.to_owned(), EntryNotFound)),
		}''','''		self.get(url)
			.cloned()
			.ok_or_else(|| LoadError::new(url.to_owned(), EntryNotFound))''')
Ref('mp_helper',MP).r('''		match self.get(url) {
			Some(document) => Ok(document.clone()),
			None => Err(LoadError::new(url.to_owned(), EntryNotFound)),
		}''','''		found(self.get(url), url)''',2).app('''
fn found(document: Option<&RemoteDocument>, url: &Iri) -> LoadingResult<IriBuf> {
	match document {
		Some(document) => Ok(document.clone()),
		None => Err(LoadError::new(url.to_owned(), EntryNotFound)),
	}
}
''')
Ref('lm_map_destruct',LM).r('''		RemoteDocument {
			url: self.url,
			content_type: self.content_type,
			context_url: self.context_url,
			profile: self.profile,
			document: f(self.document),
		}''','''		let Self {
			url,
			content_type,
			context_url,
			profile,
			document,
		} = self;
		RemoteDocument::new_full(url, content_type, context_url, profile, f(document))''')
Ref('lm_trymap_let',LM).r('''		Ok(RemoteDocument {
			url: self.url,
			content_type: self.content_type,
			context_url: self.context_url,
			profile: self.profile,
			document: f(self.document)?,
		})''','''		match f(self.document) {
			Ok(document) => Ok(RemoteDocument {
				url: self.url,
				content_type: self.content_type,
				context_url: self.context_url,
				profile: self.profile,
				document,
			}),
			Err(e) => Err(e),
		}''')
Ref('lm_mapiris_loop',LM).r('''		RemoteDocument {
			url: self.url.map(&mut f),
			content_type: self.content_type,
			context_url: self.context_url.map(&mut f),
			profile: self
				.profile
				.into_iter()
				.map(|p| p.map_iri(&mut f))
				.collect(),
			document: self.document,
		}''','''		let url = self.url.map(&mut f);
		let context_url = self.context_url.map(&mut f);
		let mut profile = HashSet::new();
		for p in self.profile {
			profile.insert(p.map_iri(&mut f));
		}
		RemoteDocument {
			url,
			content_type: self.content_type,
			context_url,
			profile,
			document: self.document,
		}''')
Ref('lm_fromiri_order',LM).r('''		if iri == iri!("http://www.w3.org/ns/json-ld#expanded") {
			Some(Self::Expanded)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#compacted") {
			Some(Self::Compacted)
		} else if''','''		if iri == iri!("http://www.w3.org/ns/json-ld#compacted") {
			Some(Self::Compacted)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#expanded") {
			Some(Self::Expanded)
		} else if''')
Ref('lm_fromiri_match',LM).r('''		if iri == iri!("http://www.w3.org/ns/json-ld#expanded") {
			Some(Self::Expanded)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#compacted") {
			Some(Self::Compacted)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#context") {
			Some(Self::Context)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#flattened") {
			Some(Self::Flattened)
		} else if iri == iri!("http://www.w3.org/ns/json-ld#framed") {
			Some(Self::Framed)
		} else {
			None
		}''','''		[
			Self::Expanded,
			Self::Compacted,
			Self::Context,
			Self::Flattened,
			Self::Framed,
		]
		.into_iter()
		.find(|p| iri == p.iri())''')
Ref('lm_profile_mapor',LM).r('''		match StandardProfile::from_iri(iri) {
			Some(p) => Self::Standard(p),
			None => Self::Custom(iri.to_owned()),
		}''','''		StandardProfile::from_iri(iri)
			.map(Self::Standard)
			.unwrap_or_else(|| Self::Custom(iri.to_owned()))''')
Ref('lm_profile_iflet',LM).r('''		match StandardProfile::from_iri(iri) {
			Some(p) => Self::Standard(p),
			None => Self::Custom(vocabulary.insert(iri)),
		}''','''		if let Some(p) = StandardProfile::from_iri(iri) {
			return Self::Standard(p);
		}

		Self::Custom(vocabulary.insert(iri))''')
Ref('lm_loadwith_match',LM).r('''		let document = self.load(lexical_url).await?;
		Ok(document.map_iris(|i| vocabulary.insert_owned(i)))''','''		match self.load(lexical_url).await {
			Ok(document) => Ok(document.map_iris(|i| vocabulary.insert_owned(i))),
			Err(e) => Err(e),
		}''')
Ref('lm_extract_flat',LM).r('''		match self {
			Self::Object(mut o) => match o
				.remove_unique("@context")
				.map_err(ExtractContextError::duplicate_context)?
			{
				Some(context) => {
					use json_ld_syntax::TryFromJson;
					json_ld_syntax::context::Context::try_from_json(context.value)
						.map_err(ExtractContextError::Syntax)
				}
				None => Err(ExtractContextError::NoContext),
			},
			other => Err(ExtractContextError::Unexpected(other.kind())),
		}''','''		use json_ld_syntax::TryFromJson;

		let mut o = match self {
			Self::Object(o) => o,
			other => return Err(ExtractContextError::Unexpected(other.kind())),
		};

		let context = o
			.remove_unique("@context")
			.map_err(ExtractContextError::duplicate_context)?
			.ok_or(ExtractContextError::NoContext)?;

		json_ld_syntax::context::Context::try_from_json(context.value)
			.map_err(ExtractContextError::Syntax)''')
Ref('lm_dup_closure',LM).r('''.map_err(ExtractContextError::duplicate_context)?''','''.map_err(|_| ExtractContextError::DuplicateContext)?''')
# ids
Ref('id_json_iflet',ID).r('''			json_syntax::Value::String(s) => match Iri::new(s.as_str()) {
				Ok(iri) => Ok(Self::Valid(ValidId::Iri(vocabulary.insert(iri)))),
				Err(_) => match BlankId::new(s.as_str()) {
					Ok(blank_id) => Ok(Self::Valid(ValidId::Blank(
						vocabulary.insert_blank_id(blank_id),
					))),
					Err(_) => Ok(Self::Invalid(s.to_string())),
				},
			},''','''			json_syntax::Value::String(s) => {
				if let Ok(iri) = Iri::new(s.as_str()) {
					return Ok(Self::Valid(ValidId::Iri(vocabulary.insert(iri))));
				}

				if let Ok(blank_id) = BlankId::new(s.as_str()) {
					let id = vocabulary.insert_blank_id(blank_id);
					return Ok(Self::Valid(ValidId::Blank(id)));
				}

				Ok(Self::Invalid(s.to_string()))
			}''')
Ref('id_json_delegate',ID).r('''			json_syntax::Value::String(s) => match Iri::new(s.as_str()) {
				Ok(iri) => Ok(Self::Valid(ValidId::Iri(vocabulary.insert(iri)))),
				Err(_) => match BlankId::new(s.as_str()) {
					Ok(blank_id) => Ok(Self::Valid(ValidId::Blank(
						vocabulary.insert_blank_id(blank_id),
					))),
					Err(_) => Ok(Self::Invalid(s.to_string())),
				},
			},''','''			json_syntax::Value::String(s) => Ok(Self::from_string_in(vocabulary, s.to_string())),''')
Ref('id_string_ctor',ID).r('''			Ok(iri) => Self::Valid(ValidId::Iri(iri.into())),
			Err(e) => match BlankIdBuf::new(e.0) {
				Ok(blank) => Self::Valid(ValidId::Blank(blank.into())),''','''			Ok(iri) => Self::iri(iri.into()),
			Err(e) => match BlankIdBuf::new(e.0) {
				Ok(blank) => Self::blank(blank.into()),''')
Ref('id_stringin_flat',ID).r('''		match Iri::new(&s) {
			Ok(iri) => Self::Valid(ValidId::Iri(vocabulary.insert(iri))),
			Err(_) => match BlankId::new(&s) {
				Ok(blank) => Self::Valid(ValidId::Blank(vocabulary.insert_blank_id(blank))),
				Err(_) => Self::Invalid(s),
			},
		}''','''		if let Ok(iri) = Iri::new(&s) {
			Self::iri(vocabulary.insert(iri))
		} else if let Ok(blank) = BlankId::new(&s) {
			Self::blank(vocabulary.insert_blank_id(blank))
		} else {
			Self::Invalid(s)
		}''')
Ref('id_preds',ID).r('''		!matches!(self, Self::Invalid(_))''','''		match self {
			Self::Valid(_) => true,
			Self::Invalid(_) => false,
		}''').r('''		matches!(self, Id::Valid(ValidId::Blank(_)))''','''		self.as_blank().is_some()''').r('''		matches!(self, Id::Valid(ValidId::Iri(_)))''','''		self.as_iri().is_some()''')
Ref('id_as_nested',ID).r('''		match self {
			Id::Valid(ValidId::Iri(k)) => Some(k),
			_ => None,
		}''','''		match self {
			Id::Valid(id) => match id {
				ValidId::Iri(k) => Some(k),
				ValidId::Blank(_) => None,
			},
			Id::Invalid(_) => None,
		}''')
Ref('id_asstr_ref',ID).r('''		match self {
			Id::Valid(ValidId::Iri(id)) => id.as_ref(),
			Id::Valid(ValidId::Blank(id)) => id.as_ref(),
			Id::Invalid(id) => id.as_str(),
		}''','''		match self {
			Id::Valid(id) => match id {
				ValidId::Iri(id) => id.as_ref(),
				ValidId::Blank(id) => id.as_ref(),
			},
			Id::Invalid(id) => id,
		}''')
Ref('id_eq_iflet',ID).r('''		match self {
			Id::Valid(ValidId::Iri(id)) => id == other,
			_ => false,
		}''','''		self.as_iri().map_or(false, |id| id == other)''')
Ref('id_term_eq',ID).r('''		match self {
			Term::Id(prop) => prop == r,
			_ => false,
		}''','''		matches!(self, Term::Id(prop) if prop == r)''')
Ref('id_try_term',ID).r('''		match term {
			Term::Id(prop) => Ok(prop),
			term => Err(term),
		}''','''		if let Term::Id(prop) = term {
			Ok(prop)
		} else {
			Err(term)
		}''')
# indexed
Ref('ix_index_deref',IX).r('''		match &self.index {
			Some(index) => Some(index.as_str()),
			None => None,
		}''','''		self.index.as_deref()''')
Ref('ix_ctor',IX).r('''		Indexed::new(f(self.value), self.index)''','''		let (value, index) = self.into_parts();
		Indexed {
			value: f(value),
			index,
		}''')
Ref('ix_trycast',IX).r('''		match self.value.try_into() {
			Ok(value) => Ok(Indexed::new(value, self.index)),
			Err(e) => Err(Indexed::new(e, self.index)),
		}''','''		let Self { value, index } = self;
		match U::try_from(value) {
			Ok(value) => Ok(Indexed::new(value, index)),
			Err(e) => Err(Indexed::new(e, index)),
		}''')
Ref('ix_json_mapinner',IX).r('''		let index = match object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?
		{
			Some(index_entry) => match index_entry.value {
				json_syntax::Value::String(index) => Some(index.to_string()),
				_ => return Err(InvalidExpandedJson::InvalidIndex),
			},
			None => None,
		};
''','''		let index_entry = object
			.remove_unique("@index")
			.map_err(InvalidExpandedJson::duplicate_key)?;

		let mut index = None;
		if let Some(index_entry) = index_entry {
			let json_syntax::Value::String(s) = index_entry.value else {
				return Err(InvalidExpandedJson::InvalidIndex);
			};
			index = Some(s.to_string());
		}
''')
Ref('ix_json_letelse',IX).r('''		match value {
			json_syntax::Value::Object(object) => Self::try_from_json_object_in(vocabulary, object),
			_ => Err(InvalidExpandedJson::InvalidObject),
		}''','''		let json_syntax::Value::Object(object) = value else {
			return Err(InvalidExpandedJson::InvalidObject);
		};
		Self::try_from_json_object_in(vocabulary, object)''')
Ref('ix_json_okmap',IX).r('''		let value = O::try_from_json_object_in(vocabulary, object)?;
		Ok(Self::new(value, index))''','''		O::try_from_json_object_in(vocabulary, object).map(|value| Self::new(value, index))''')
# list
Ref('li_canon_foreach',LI).r('''		for object in self {
			object.canonicalize_with(buffer)
		}''','''		self.entry
			.iter_mut()
			.for_each(|object| object.canonicalize_with(buffer))''')
Ref('li_mapids_loop',LI).r('''		List::new(
			self.entry
				.into_iter()
				.map(|indexed_object| {
					indexed_object.map_inner(|object| object.map_ids_with(map_iri, map_id))
				})
				.collect(),
		)''','''		let mut entry = Vec::with_capacity(self.entry.len());
		for indexed_object in self.entry {
			entry.push(indexed_object.map_inner(|object| object.map_ids_with(map_iri, map_id)));
		}
		List::new(entry)''')
Ref('li_json_empty',LI).r('''		match object.into_iter().next() {
			Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
			None => Ok(Self::new(list)),
		}''','''		if object.is_empty() {
			Ok(Self::new(list))
		} else {
			Err(InvalidExpandedJson::UnexpectedEntry)
		}''')
Ref('li_relabel_iter',LI).r('''		for object in self {
			object.relabel_with(vocabulary, generator, relabeling)
		}''','''		for object in self.entry.iter_mut() {
			object.relabel_with(vocabulary, generator, relabeling);
		}''')
# mapped eq
Ref('me_len_early',ME).r('''		if self.len() == other.len() {
			let other_vec''','''		if self.len() != other.len() {
			false
		} else {
			let other_vec''').r('''				return false;
			}

			true
		} else {
			false
		}''','''				return false;
			}

			true
		}''')
Ref('me_vec_macro',ME).r('''			let mut selected = Vec::new();
			selected.resize(other_vec.len(), false);
''','''			let mut selected = vec![false; other_vec.len()];
''')
Ref('me_index_op',ME).r('''item.mapped_eq(other_vec.get(i).unwrap(), f.clone())''','''item.mapped_eq(other_vec[i], f.clone())''')
Ref('me_nested_if',ME).r('''					if !*sel && item.mapped_eq(other_vec.get(i).unwrap(), f.clone()) {
						*sel = true;
						continue 'self_items;
					}''','''					if *sel {
						continue;
					}

					if item.mapped_eq(other_vec.get(i).unwrap(), f.clone()) {
						*sel = true;
						continue 'self_items;
					}''')
Ref('me_any',ME).r('''				for (i, sel) in selected.iter_mut().enumerate() {
					if !*sel && item.mapped_eq(other_vec.get(i).unwrap(), f.clone()) {
						*sel = true;
						continue 'self_items;
					}
				}

				return false;''','''				let mut found = false;
				for (i, sel) in selected.iter_mut().enumerate() {
					if !*sel && item.mapped_eq(other_vec.get(i).unwrap(), f.clone()) {
						*sel = true;
						found = true;
						break;
					}
				}

				if !found {
					return false;
				}''').r("'self_items: for item","for item")
Ref('me_slice_loop',ME).r('''		self.len() == other.len()
			&& self
				.iter()
				.zip(other)
				.all(move |(a, b)| a.mapped_eq(b, f.clone()))''','''		if self.len() != other.len() {
			return false;
		}

		for (a, b) in self.iter().zip(other) {
			if !a.mapped_eq(b, f.clone()) {
				return false;
			}
		}

		true''')
Ref('me_opt_match',ME).r('''		match (self, other) {
			(Some(a), Some(b)) => a.mapped_eq(b, f),
			(None, None) => true,
			_ => false,
		}''','''		match self {
			Some(a) => match other {
				Some(b) => a.mapped_eq(b, f),
				None => false,
			},
			None => other.is_none(),
		}''')
Ref('me_indexed_if',ME).r('''		self.index() == other.index() && self.inner().mapped_eq(other.inner(), f)''','''		if self.index() != other.index() {
			return false;
		}

		self.inner().mapped_eq(other.inner(), f)''')
Ref('me_vec_direct',ME).r('''		self.as_slice().mapped_eq(other.as_slice(), f)''','''		<[T] as MappedEq>::mapped_eq(self, other, f)''')
# expanded document
Ref('ex_identify_helper',EX).r('''		let objects = std::mem::take(&mut self.0);
		for mut object in objects {
			object.identify_all_with(vocabulary, generator);
			self.0.insert(object);
		}''','''		let mut result = IndexSet::new();
		for mut object in std::mem::take(&mut self.0) {
			object.identify_all_with(vocabulary, generator);
			result.insert(object);
		}
		self.0 = result;''')
Ref('ex_canon_collect',EX).r('''		let objects = std::mem::take(&mut self.0);
		for mut object in objects {
			object.canonicalize_with(buffer);
			self.0.insert(object);
		}''','''		let objects = std::mem::take(&mut self.0);
		self.0 = objects
			.into_iter()
			.map(|mut object| {
				object.canonicalize_with(buffer);
				object
			})
			.collect();''')
Ref('ex_relabel_foreach',EX).r('''		let mut relabeling = HashMap::new();
		for mut object in objects {
			object.relabel_with(vocabulary, generator, &mut relabeling);
			self.0.insert(object);
		}''','''		let mut relabeling = HashMap::new();
		objects.into_iter().for_each(|mut object| {
			object.relabel_with(vocabulary, generator, &mut relabeling);
			self.0.insert(object);
		});''')
Ref('ex_main_match',EX).r('''				if result.is_some() {
					return None;
				}

				result = Some(&**node)''','''				match result {
					Some(_) => return None,
					None => result = Some(&**node),
				}''')
Ref('ex_main_replace',EX).r('''				if result.is_some() {
					return None;
				}

				result = Some(*node)''','''				if result.replace(*node).is_some() {
					return None;
				}''')
Ref('ex_json_collect',EX).r('''				let mut result = Self::new();

				for item in items {
					result.insert(Indexed::try_from_json_in(vocabulary, item)?);
				}

				Ok(result)''','''				let objects: Result<IndexSet<_>, _> = items
					.into_iter()
					.map(|item| Indexed::try_from_json_in(vocabulary, item))
					.collect();

				objects.map(Self)''')
Ref('ex_json_letelse',EX).r('''		match value {
			json_syntax::Value::Array(items) => {
				let mut result = Self::new();

				for item in items {
					result.insert(Indexed::try_from_json_in(vocabulary, item)?);
				}

				Ok(result)
			}
			other => Err(InvalidExpandedJson::Unexpected(
				other.kind(),
				json_syntax::Kind::Array,
			)),
		}''','''		let items = match value {
			json_syntax::Value::Array(items) => items,
			other => {
				let found = other.kind();
				return Err(InvalidExpandedJson::Unexpected(
					found,
					json_syntax::Kind::Array,
				));
			}
		};

		let mut result = Self::new();
		for item in items {
			let object = Indexed::try_from_json_in(vocabulary, item)?;
			result.0.insert(object);
		}
		Ok(result)''')
Ref('ex_blank_loop',EX).r('''		self.traverse()
			.filter_map(|f| f.into_id().and_then(Id::into_blank))
			.collect()''','''		let mut result = HashSet::new();
		for f in self.traverse() {
			if let Some(Id::Valid(ValidId::Blank(b))) = f.into_id() {
				result.insert(b);
			}
		}
		result''').r("use crate::","use crate::ValidId;\nuse crate::")
Ref('ex_eq_op',EX).r('''		self.0.eq(&other.0)''','''		self.0 == other.0''')
Ref('ex_fromnode',EX).r('''		let mut result = Self::default();

		result.insert(value.map_inner(Object::node));

		result''','''		let object = value.map_inner(|node| Object::Node(Box::new(node)));
		let mut objects = IndexSet::new();
		objects.insert(object);
		Self(objects)''')
Ref('dm_eq',DM).r('''		self.expanded.eq(&other.expanded)''','''		self.as_expanded() == other.as_expanded()''')
# types & terms
Ref('ty_intoref',TY).r('''			Type::Id(id) => Ok(Id::Valid(ValidId::Iri(id))),
			Type::Blank(id) => Ok(Id::Valid(ValidId::Blank(id))),
			Type::Invalid(id) => Ok(Id::Invalid(id)),
			typ => Err(typ),''','''			Type::Json => Err(Type::Json),
			Type::Invalid(id) => Ok(Id::Invalid(id)),
			Type::Blank(id) => Ok(Id::blank(id)),
			Type::Id(id) => Ok(Id::iri(id)),''')
Ref('ty_eq_inline',TY).r('''		let other_ref: TypeRef<T, B> = other.into();
		*self == other_ref''','''		*self == TypeRef::from(other)''')
Ref('ct_try_nested',CT).r('''		match term {
			Term::Keyword(Keyword::Id) => Ok(Type::Id),
			Term::Keyword(Keyword::Json) => Ok(Type::Json),
			Term::Keyword(Keyword::None) => Ok(Type::None),
			Term::Keyword(Keyword::Vocab) => Ok(Type::Vocab),
			Term::Id(Id::Valid(ValidId::Iri(id))) => Ok(Type::Iri(id)),
			term => Err(term),
		}''','''		match term {
			Term::Keyword(k) => match k {
				Keyword::Id => Ok(Type::Id),
				Keyword::Json => Ok(Type::Json),
				Keyword::None => Ok(Type::None),
				Keyword::Vocab => Ok(Type::Vocab),
				other => Err(Term::Keyword(other)),
			},
			Term::Id(Id::Valid(ValidId::Iri(id))) => Ok(Type::Iri(id)),
			term => Err(term),
		}''')
Ref('ct_fmt_writestr',CT).r('''			Type::Id => write!(f, "@id"),
			Type::Json => write!(f, "@json"),''','''			Type::Id => f.write_str("@id"),
			Type::Json => f.write_str("@json"),''')
Ref('ct_fmt_kw',CT).r('''			Type::Id => write!(f, "@id"),
			Type::Json => write!(f, "@json"),
			Type::None => write!(f, "@none"),
			Type::Vocab => write!(f, "@vocab"),
			Type::Iri(id) => id.fmt(f),''','''			Type::Iri(id) => id.fmt(f),
			keyword => {
				let text = match keyword {
					Type::Id => "@id",
					Type::Json => "@json",
					Type::None => "@none",
					_ => "@vocab",
				};
				f.write_str(text)
			}''')
Ref('te_asiri_andthen',TE).r('''		match self {
			Term::Id(p) => p.as_iri(),
			_ => None,
		}''','''		let Term::Id(p) = self else {
			return None;
		};

		p.as_iri()''')
Ref('te_isnull',TE).r('''		matches!(self, Term::Null)''','''		match self {
			Term::Null => true,
			Term::Id(_) | Term::Keyword(_) => false,
		}''')
Ref('te_astext',TE).r('''			Term::Id(p) => p.with(vocabulary).as_str(),
			Term::Keyword(k) => k.into_str(),
			Term::Null => "",''','''			Term::Null => "",
			Term::Keyword(k) => k.into_str(),
			Term::Id(p) => p.as_ref_with(vocabulary),''')
Ref('te_fmt_str',TE).r('''			Term::Null => write!(f, "null"),
		}
	}
}

impl<T: fmt::Debug''','''			Term::Null => f.write_str("null"),
		}
	}
}

impl<T: fmt::Debug''')
