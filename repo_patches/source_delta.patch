From 4f37b547d2cf04a049fff0d12545f9e3a1ef5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 01/38] fix: adding @index to a @graph,@set container gives
 @graph,@index,@set

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From 234aa8c4bf9e6d70144894404744af5cdbac44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 02/38] fix: report invalid @protected value under its own
 error code

---
 crates/context-processing/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..08aebaa 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -130,7 +130,7 @@ impl Error {
 			Self::CyclicIriMapping => ErrorCode::CyclicIriMapping,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::KeywordRedefinition => ErrorCode::KeywordRedefinition,
-			Self::InvalidProtectedValue => ErrorCode::InvalidPropagateValue,
+			Self::InvalidProtectedValue => ErrorCode::InvalidProtectedValue,
 			Self::InvalidTypeMapping => ErrorCode::InvalidTypeMapping,
 			Self::InvalidReverseProperty => ErrorCode::InvalidReverseProperty,
 			Self::InvalidIriMapping => ErrorCode::InvalidIriMapping,
-- 
2.43.0


From 854ece4279c3964ccf1652f2e5262416115a85c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 03/38] fix: write included nodes under @included

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 02900fe9750e17feaacc2857ae7ecc11504c9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 04/38] fix: name of the @index entry key

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..c67dcd5 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -710,7 +710,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From f7f222f88ee5a17ac9f2a1a3c2dcccb688a6f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 05/38] fix: FragmentRef::is_json_object asks value and node
 fragments for objects, not arrays

---
 crates/core/src/object/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index c67dcd5..6bfd2e8 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1052,8 +1052,8 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_object(&self) -> bool {
 		match self {
 			Self::Object(_) | Self::IndexedObject(_) | Self::Node(_) | Self::IndexedNode(_) => true,
-			Self::ValueFragment(i) => i.is_json_array(),
-			Self::NodeFragment(i) => i.is_json_array(),
+			Self::ValueFragment(i) => i.is_json_object(),
+			Self::NodeFragment(i) => i.is_json_object(),
 			_ => false,
 		}
 	}
-- 
2.43.0


From 6dbd91335e07711d9a53b56421fe35212ed35f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 06/38] fix: compare node types in structural equality

---
 crates/core/src/object/mapped_eq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..2a48aa0 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -258,6 +258,7 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 		B: 'a + 'b,
 	{
 		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+			&& self.types().unordered_mapped_eq(other.types(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From c525911199d8d57ea80d7cc61fd95470bdb407b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 07/38] fix: rdf:type is not the rdf:first term when importing
 RDF

---
 crates/core/src/serialization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..0cb4142 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -265,7 +265,6 @@ impl<I, B> ExpandedDocument<I, B> {
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
-- 
2.43.0


From 15e8db0482dcb680c45761a5755e38c565830f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 08/38] fix: keep self-referencing resources when importing RDF

---
 crates/core/src/serialization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 0cb4142..e226202 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -297,7 +297,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			if quad.0 == quad.2 {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From 8fbe816af7cfdc32053689b122512b988a9f3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 09/38] fix: follow rdf:rest links back to list nodes when
 importing RDF lists

---
 crates/core/src/serialization.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index e226202..92687ab 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -289,7 +289,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				None => {
 					subject.insert(quad.1, quad.2);
@@ -319,10 +319,14 @@ impl<I, B> ExpandedDocument<I, B> {
 
 								loop {
 									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
 									values.push(first);
 
+									let Some(parent_id) =
+										head.list.reverse_rest.iter().next().copied()
+									else {
+										break;
+									};
+
 									if is_anonymous(interpretation, parent_id) {
 										if let Some(parent) = graph.get(&parent_id) {
 											if parent.references == 1 && parent.is_list_node() {
-- 
2.43.0


From 21df9233e23cfc3418699a69ca2c19acb419339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 10/38] fix: emit the graph of a node that also has properties

---
 crates/core/src/deserialization/object/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..aa596b4 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -51,7 +51,7 @@ where
 			}
 		}
 
-		if self.is_graph() {
+		if self.graph().is_some() {
 			visitor.graph(self)?;
 		}
 
-- 
2.43.0


From a135a6d80cc5f9cf0236c4f5adfb60178aca4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 11/38] fix: parse the duplicate key error code

---
 crates/syntax/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/syntax/src/error.rs b/crates/syntax/src/error.rs
index 094753b..48f175e 100644
--- a/crates/syntax/src/error.rs
+++ b/crates/syntax/src/error.rs
@@ -252,6 +252,7 @@ impl<'a> TryFrom<&'a str> for ErrorCode {
 			"invalid @prefix value" => Ok(InvalidPrefixValue),
 			"invalid @propagate value" => Ok(InvalidPropagateValue),
 			"invalid @protected value" => Ok(InvalidProtectedValue),
+			"duplicate key" => Ok(DuplicateKey),
 			"invalid @reverse value" => Ok(InvalidReverseValue),
 			"invalid @version value" => Ok(InvalidVersionValue),
 			"invalid base direction" => Ok(InvalidBaseDirection),
-- 
2.43.0


From 635c228f23c391a918a7f9de1c31d1999dd04e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 12/38] fix: keep nodes of named graphs that only have types
 when flattening

---
 crates/core/src/flattening/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..3838085 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,7 +94,7 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	if node.index().is_none() && node.types().is_empty() && node.properties().is_empty() {
 		None
 	} else {
 		node.set_graph_entry(None);
-- 
2.43.0


From 82ee00e2b2edd37bf8ac5e2eda5e8d29b195b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 13/38] fix: comparing documents with duplicate keys does not
 panic

---
 crates/syntax/src/compare.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..11871e5 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -36,13 +36,13 @@ impl Compare for Value {
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
 					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
+						match b.get_unique(&*entry.key) {
+							Ok(Some(value)) => {
 								if !entry.value.compare(value) {
 									return false;
 								}
 							}
-							None => return false,
+							_ => return false,
 						}
 					}
 
-- 
2.43.0


From daf0e9ac0cda1e9d786608f26e598bd9266f7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 14/38] fix: canonicalize the literals of graph and included
 nodes

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 6bfd2e8..e60425e 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..a37f152 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From 82d1452e3b797e209f1558eb749fd994daf53349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 15/38] fix: contexts with different term definitions are not
 equal

---
 crates/core/src/context/definition.rs | 2 +-
 crates/core/src/context/mod.rs        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index 69ab0cc..74c8c67 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -71,7 +71,7 @@ impl<'a, T, B> BindingRef<'a, T, B> {
 }
 
 /// Context term definitions.
-#[derive(Clone)]
+#[derive(PartialEq, Eq, Clone)]
 pub struct Definitions<T, B> {
 	normal: HashMap<Key, NormalTermDefinition<T, B>>,
 	type_: Option<TypeTermDefinition>,
diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 9b8051e..76d00a4 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -333,5 +333,6 @@ impl<T: PartialEq, B: PartialEq> PartialEq for Context<T, B> {
 			&& self.default_language == other.default_language
 			&& self.default_base_direction == other.default_base_direction
 			&& self.previous_context == other.previous_context
+			&& self.definitions == other.definitions
 	}
 }
-- 
2.43.0


From 673f1ebb5dad22ed1a260dac0ff2c1950604012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 16/38] fix: expand the entries of an object in order when
 asked to

---
 crates/expansion/src/element.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..42d7561 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -213,7 +213,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
-- 
2.43.0


From 7f268d9407dbd89a746aa25543ceede66c310521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 17/38] fix: defining a term without IRI mapping does not panic

---
 crates/context-processing/src/algorithm/define.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..b7e7702 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -415,10 +415,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
@@ -737,7 +736,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From b66349a54a197a6f42a897ae880dd3e710ba0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 18/38] fix: prefer the shortest compact IRI, then the least
 one

---
 crates/compaction/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..c4afff3 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| candidate.len() < compact_iri.len()
+							|| (candidate.len() == compact_iri.len() && candidate < compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 1f7d31599d9cdd0042fe31282c4478c664aef375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 19/38] fix: an IRI is only confused with a prefix if it has no
 authority and the term is a prefix

---
 crates/compaction/src/iri.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index c4afff3..c47a69f 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -473,7 +473,11 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		if iri.authority().is_none()
+			&& active_context
+				.get(iri.scheme().as_str())
+				.is_some_and(|definition| definition.prefix())
+		{
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From 1995f5e06aa6b8c216f2ded48dec230007761cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 20/38] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..02a5ff5 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -140,6 +140,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +180,25 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let string_ty = vocabulary.insert(XSD_STRING);
+							let value = vocabulary.insert_owned_literal(Literal::new(
+								string.to_string(),
+								match language {
+									Some(tag) => rdf_types::LiteralType::LangString(tag),
+									None => rdf_types::LiteralType::Any(string_ty.clone()),
+								},
+							));
+							let direction = vocabulary.insert_owned_literal(Literal::new(
+								direction.to_string(),
+								rdf_types::LiteralType::Any(string_ty),
+							));
 							Some(CompoundLiteral {
-								value: id.into_term(),
-								triples: None,
+								value: Clone::clone(&id).into_term(),
+								triples: Some(CompoundLiteralTriples {
+									id,
+									value: Some(Value::Literal(value)),
+									direction: Some(Value::Literal(direction)),
+								}),
 							})
 						}
 						None => match language {
-- 
2.43.0


From d363d13a7b2475e05fa014adf668a259fca9fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 21/38] fix: list items without RDF value do not break the list

---
 crates/core/src/rdf/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 02a5ff5..4c083bc 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -569,12 +569,12 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -591,14 +591,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From 8d2439222136b9b90eb5dcb720a7be7c394024c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 22/38] fix: traversing an object visits the items of its lists

---
 crates/core/src/object/list.rs | 38 ++++++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs  |  4 ++++
 2 files changed, 42 insertions(+)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..671170d 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,44 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn is_json_array(&self) -> bool {
+		matches!(self, Self::Value(_))
+	}
+
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(l) => SubFragments::Entry(Some(()), Some(l)),
+			Self::Key => SubFragments::None,
+			Self::Value(l) => SubFragments::Value(l.iter()),
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Value(std::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| super::FragmentRef::ListFragment(FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| super::FragmentRef::ListFragment(FragmentRef::Value(v)))
+				}),
+			Self::Value(o) => o.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index e60425e..e1f4169 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1052,6 +1052,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 		match self {
 			Self::IndexedNodeList(_) => true,
 			Self::ValueFragment(i) => i.is_json_array(),
+			Self::ListFragment(i) => i.is_json_array(),
 			Self::NodeFragment(n) => n.is_json_array(),
 			_ => false,
 		}
@@ -1077,6 +1078,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1112,6 +1114,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1131,6 +1134,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
-- 
2.43.0


From 1eedcb553dec4d4cb6493c5980f4efa0d997d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 23/38] fix: reject vocabulary mappings that are neither an IRI
 nor a blank node identifier

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..8ddbdcd 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -316,7 +316,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From 950319fd1dd0de1c44b2df3e0dd5dede404a4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:11 +0000
Subject: [PATCH 24/38] fix: the protected flag of a context applies to its
 @type definition

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index b7e7702..152ea13 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From fd77f61c7a428c73fbddb432441ab62d82678b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 25/38] fix: flattening keeps the types of every occurrence of
 a node

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..6d899d9 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let ty = env.assign_node_id(Some(ty));
+				if !types.contains(&ty) {
+					types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From f2252103cdb2220b27898ff1c151393eb3e404a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 26/38] fix: entries of index and id maps keep keys that expand
 to null

---
 crates/expansion/src/node.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..05b2fb6 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -747,16 +747,13 @@ where
 
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
-								let expanded_index = match expand_iri(
+								let expanded_index = expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
 									Some(options.policy.vocab),
-								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
-									key => key,
-								};
+								)?;
 
 								// If index value is not an array set index value to
 								// an array containing only index value.
@@ -799,7 +796,7 @@ where
 										item = Object::node(node).into();
 									}
 
-									if expanded_index.is_some() {
+									if expanded_index != Some(Term::Keyword(Keyword::None)) {
 										// If `container_mapping` includes @index,
 										// index key is not @index, and expanded index is
 										// not @none:
@@ -884,14 +881,18 @@ where
 											// of expanded index followed by any existing
 											// values of @type in item. Add the key-value
 											// pair (@type-types) to item.
-											if let Ok(typ) =
-												expanded_index.clone().unwrap().try_into()
-											{
-												if let Object::Node(ref mut node) = *item {
-													node.types_mut_or_default().insert(0, typ);
+											match expanded_index.clone() {
+												None | Some(Term::Null) => (),
+												Some(expanded_index) => {
+													if let Ok(typ) = expanded_index.try_into() {
+														if let Object::Node(ref mut node) = *item {
+															node.types_mut_or_default()
+																.insert(0, typ);
+														}
+													} else {
+														return Err(Error::InvalidTypeValue);
+													}
 												}
-											} else {
-												return Err(Error::InvalidTypeValue);
 											}
 										}
 									}
-- 
2.43.0


From 8981d922a0aead894d5025a68794d8c68b32f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 27/38] fix: terms defined as dependencies of others get the
 protection and base URL of their context

---
 crates/context-processing/src/algorithm/define.rs | 10 +++++++---
 crates/context-processing/src/algorithm/iri.rs    | 13 +++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 152ea13..7a59fb0 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -213,6 +213,7 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.clone(),
 							options,
 						)
 						.await?;
@@ -270,6 +271,7 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url.clone(),
 							options,
 						)
 						.await?
@@ -354,6 +356,7 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.clone(),
 										options,
 									)
 									.await?
@@ -400,6 +403,7 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.clone(),
 											options,
 										)
 										.await?;
@@ -448,9 +452,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..b82babf 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -34,6 +34,7 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<N::Iri>,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +68,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.clone(),
+				local_context.protected().unwrap_or(false),
+				options,
 			))
 			.await?;
 
@@ -120,9 +121,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url,
+						local_context.protected().unwrap_or(false),
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From bcba35e7be31fafb58bf7dbe99f63f59cceb8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 28/38] fix: entries of @reverse follow the container mapping
 of their term

---
 crates/expansion/src/node.rs | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 05b2fb6..90051ef 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -344,38 +344,45 @@ where
 											}
 										}
 
-										let reverse_expanded_value = Box::pin(expand_element(
+										// Expand the entry as the property of a node, so that the
+										// container mapping of the term is taken into account.
+										let (reversed, _) = Box::pin(expand_node_entries(
 											Environment {
 												vocabulary: env.vocabulary,
 												loader: env.loader,
 												warnings: env.warnings,
 											},
+											Indexed::none(Node::new()),
+											false,
 											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
+											type_scoped_context,
+											ActiveProperty::Some("@reverse"),
+											vec![ExpandedEntry(
+												reverse_key,
+												Term::Id(reverse_prop),
+												reverse_value,
+											)],
 											base_url,
 											options,
-											false,
 										))
 										.await?;
+										let reversed = reversed.into_inner();
 
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
-
-										if is_double_reversed {
+										// Entries that are reversed twice.
+										for (prop, nodes) in
+											reversed.reverse_properties.into_iter().flatten()
+										{
 											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
+												prop,
+												nodes
+													.into_iter()
+													.map(|node| node.map_inner(Object::node)),
 											)
-										} else {
+										}
+
+										for (prop, objects) in reversed.properties {
 											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
+											for object in objects {
 												match object.try_cast::<Node<N::Iri, N::BlankId>>()
 												{
 													Ok(node) => reverse_expanded_nodes.push(node),
@@ -388,7 +395,7 @@ where
 											}
 
 											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
+												prop,
 												reverse_expanded_nodes.into_iter(),
 											)
 										}
-- 
2.43.0


From f3dfd5cfb54622dc8e14f9c39b166c11bd36eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 29/38] fix: strings compact to a bare value only when both
 language and direction match the context

---
 crates/compaction/src/value.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..e949bb6 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -189,10 +189,7 @@ where
 			let ls_language = ls.language(); //.map(|l| Nullable::Some(l));
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
-			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
-			{
+			if remove_index && language == ls_language && direction == ls_direction {
 				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
-- 
2.43.0


From 67aa44a087852d5fee8aac7a1426c22a4d81d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:57 +0000
Subject: [PATCH 30/38] fix: compaction puts every item of an index map where
 it can be read back

---
 crates/compaction/src/property.rs | 181 +++++++++++++++++++++++-------
 1 file changed, 142 insertions(+), 39 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..9e95e6e 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -70,25 +70,19 @@ where
 		// If `expanded_item` contains the entry @index-value,
 		// then add an entry to compacted item where the key is
 		// the result of IRI compacting @index and value is value.
-		if let Some(index) = expanded_index {
-			let key = compact_key(
-				vocabulary,
-				active_context,
-				&Term::Keyword(Keyword::Index),
-				true,
-				false,
-				options,
-			)?;
-
-			compacted_item_list_object
-				.insert(key.unwrap(), json_syntax::Value::String(index.into()));
-		}
-
-		compacted_item = json_syntax::Value::Object(compacted_item_list_object);
-
 		// Use add value to add `compacted_item` to
 		// the `item_active_property` entry in `nest_result` using `as_array`.
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		add_indexed_object(
+			vocabulary,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			compacted_item_list_object,
+			expanded_index,
+			active_context,
+			options,
+		)?
 	} else {
 		// Otherwise, set the value of the item active property entry in nest result to compacted item.
 		nest_result.insert(item_active_property.into(), compacted_item);
@@ -104,6 +98,7 @@ async fn compact_property_graph<N, L>(
 	expanded_index: Option<&str>,
 	nest_result: &mut json_syntax::Object,
 	container: Container,
+	index_map: bool,
 	as_array: bool,
 	item_active_property: &str,
 	active_context: &Context<N::Iri, N::BlankId>,
@@ -168,7 +163,7 @@ where
 		add_value(map_object, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph)
 		&& container.contains(ContainerKind::Index)
-		&& node.is_simple_graph()
+		&& index_map
 	{
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
@@ -199,7 +194,10 @@ where
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
 		add_value(map_object, map_key, compacted_item, as_array)
-	} else if container.contains(ContainerKind::Graph) && node.is_simple_graph() {
+	} else if container.contains(ContainerKind::Graph)
+		&& !container.contains(ContainerKind::Index)
+		&& node.is_simple_graph()
+	{
 		// Otherwise, if `container` includes @graph and
 		// `expanded_item` is a simple graph object
 		// the value cannot be represented as a map object.
@@ -278,25 +276,113 @@ where
 		// If `expanded_item` contains an @index entry,
 		// add an entry in `compacted_item` using the key from
 		// IRI compacting @index and the value of @index in `expanded_item`.
-		if let Some(index_entry) = expanded_index {
-			let key = compact_iri(
+		// Use `add_value` to add `compacted_item` to the
+		// `item_active_property` entry in `nest_result` using `as_array`.
+		add_indexed_object(
+			vocabulary,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			map,
+			expanded_index,
+			active_context,
+			options,
+		)?
+	}
+
+	Ok(())
+}
+
+/// Adds the given list or graph `object` to the `item_active_property` entry of
+/// `nest_result`, inside the index map of the term if it has one.
+#[allow(clippy::too_many_arguments)]
+fn add_indexed_object<N>(
+	vocabulary: &N,
+	nest_result: &mut json_syntax::Object,
+	container: Container,
+	as_array: bool,
+	item_active_property: &str,
+	mut object: json_syntax::Object,
+	index: Option<&str>,
+	active_context: &Context<N::Iri, N::BlankId>,
+	options: Options,
+) -> Result<(), Error>
+where
+	N: VocabularyMut,
+	N::Iri: Clone + Hash + Eq,
+	N::BlankId: Clone + Hash + Eq,
+{
+	let in_index_map =
+		container.contains(ContainerKind::Index) && !container.contains(ContainerKind::Graph);
+	let has_index_key = active_context
+		.get(item_active_property)
+		.is_some_and(|definition| definition.index().is_some());
+
+	let mut map_key = None;
+	if let Some(index) = index {
+		if in_index_map && !has_index_key {
+			map_key = Some(index.to_owned())
+		} else {
+			let key = compact_key(
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Index),
 				true,
 				false,
 				options,
-			)?
-			.unwrap();
-			map.insert(key.into(), index_entry.into());
+			)?;
+			object.insert(key.unwrap(), index.into());
 		}
+	}
 
-		// Use `add_value` to add `compacted_item` to the
-		// `item_active_property` entry in `nest_result` using `as_array`.
-		let compacted_item = json_syntax::Value::Object(map);
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+	if !in_index_map {
+		add_value(
+			nest_result,
+			item_active_property,
+			json_syntax::Value::Object(object),
+			as_array,
+		);
+		return Ok(());
 	}
 
+	let map_key = match map_key {
+		Some(key) => key,
+		None => compact_iri(
+			vocabulary,
+			active_context,
+			&Term::Keyword(Keyword::None),
+			true,
+			false,
+			options,
+		)?
+		.unwrap(),
+	};
+
+	if nest_result
+		.get_unique(item_active_property)
+		.ok()
+		.unwrap()
+		.is_none()
+	{
+		nest_result.insert(
+			item_active_property.into(),
+			json_syntax::Object::default().into(),
+		);
+	}
+
+	let map_object = nest_result
+		.get_unique_mut(item_active_property)
+		.ok()
+		.unwrap()
+		.unwrap();
+	let map_object = map_object.as_object_mut().unwrap();
+	add_value(
+		map_object,
+		&map_key,
+		json_syntax::Value::Object(object),
+		as_array,
+	);
 	Ok(())
 }
 
@@ -403,6 +489,16 @@ where
 {
 	let mut is_empty = true;
 
+	// Graphs can be put in an index map only if all of them are simple,
+	// since named graphs are no entries of such a map.
+	let expanded_value: Vec<_> = expanded_value.into_iter().collect();
+	let index_map = expanded_value
+		.iter()
+		.all(|expanded_item| match expanded_item.inner().as_ref() {
+			object::Ref::Node(node) if node.is_graph() => node.is_simple_graph(),
+			_ => true,
+		});
+
 	// For each item `expanded_item` in `expanded value`
 	for expanded_item in expanded_value {
 		is_empty = false;
@@ -458,6 +554,7 @@ where
 						expanded_item.index(),
 						nest_result,
 						container,
+						index_map,
 						as_array,
 						&item_active_property,
 						active_context,
@@ -581,19 +678,25 @@ where
 													json_syntax::Value::String(s) => {
 														(Some(s.to_string()), Vec::new())
 													}
-													json_syntax::Value::Array(values) => {
+													json_syntax::Value::Array(values)
+														if values
+															.first()
+															.is_some_and(|v| v.is_string()) =>
+													{
 														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
+														let first_value = values.next();
+														(
+															first_value.as_ref().and_then(|v| {
+																v.as_str().map(ToOwned::to_owned)
+															}),
+															values.collect(),
+														)
+													}
+													other => {
+														// Not an index: leave the entry as it is.
+														map.insert(entry.key, other);
+														(None, Vec::new())
 													}
-													other => (None, vec![other]),
 												},
 												None => (None, Vec::new()),
 											}
-- 
2.43.0


From e9c26df2540c2f6f5e9efe071e53a8f43c1dd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:47 +0000
Subject: [PATCH 31/38] fix: resources used as types are rendered on their own

---
 crates/core/src/serialization.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 92687ab..83d8735 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -263,7 +263,10 @@ impl<I, B> ExpandedDocument<I, B> {
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
-			match rdf_property(vocabulary, interpretation, quad.1) {
+			let property = rdf_property(vocabulary, interpretation, quad.1);
+			let is_type = matches!(property, Some(RdfProperty::Type));
+
+			match property {
 				Some(RdfProperty::Type) => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
@@ -297,7 +300,9 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.0 == quad.2 {
+			if quad.0 == quad.2 || is_type {
+				// Types are not embedded: their resource must be rendered on its
+				// own.
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From 970a0a5a0032a58f2734f358405cbb84fb2b402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:07 +0000
Subject: [PATCH 32/38] fix: resources referencing each other in a cycle are
 not lost on RDF import

---
 crates/core/src/serialization.rs | 78 ++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 83d8735..43a1e3f 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -127,6 +127,17 @@ impl<R> SerResource<R> {
 			&& self.list.is_well_formed()
 	}
 
+	/// Order in which resources are picked to break a cycle.
+	fn rank(&self) -> usize {
+		if !self.is_list_node() {
+			0
+		} else if self.list.values.is_some() {
+			1
+		} else {
+			2
+		}
+	}
+
 	fn insert(&mut self, prop: R, object: R)
 	where
 		R: Ord,
@@ -155,6 +166,71 @@ impl<R> SerGraph<R> {
 	{
 		self.resources.entry(id).or_default()
 	}
+
+	/// Ensures that every non empty resource is rendered.
+	///
+	/// A resource referenced only once is embedded where it is referenced. This
+	/// would leave out resources referencing each other in a cycle, so one
+	/// resource of each such cycle is rendered on its own instead.
+	fn break_cycles(&mut self)
+	where
+		R: Copy + Ord,
+	{
+		let mut reached = BTreeSet::new();
+		for (&id, resource) in &self.resources {
+			if resource.references != 1 {
+				self.reach(id, &mut reached)
+			}
+		}
+
+		// Lists are preserved as long as the cycle can be broken somewhere else.
+		let mut detached = Vec::new();
+		for rank in 0..3 {
+			for (&id, resource) in &self.resources {
+				if !resource.is_empty() && resource.rank() == rank && !reached.contains(&id) {
+					detached.push(id);
+					self.reach(id, &mut reached)
+				}
+			}
+		}
+
+		for id in detached {
+			let resource = self.resource_mut(id);
+			resource.references = usize::MAX;
+			resource.list.values = None
+		}
+
+		for resource in self.resources.values_mut() {
+			if let Some(graph) = &mut resource.graph {
+				graph.break_cycles()
+			}
+		}
+	}
+
+	/// Adds `id` and every resource embedded in it to `reached`.
+	fn reach(&self, id: R, reached: &mut BTreeSet<R>)
+	where
+		R: Copy + Ord,
+	{
+		let mut stack = vec![id];
+		while let Some(id) = stack.pop() {
+			if reached.insert(id) {
+				if let Some(resource) = self.get(&id) {
+					for &object in resource
+						.properties
+						.values()
+						.flatten()
+						.chain(&resource.list.first)
+						.chain(&resource.list.rest)
+					{
+						if self.get(&object).is_some_and(|o| o.references == 1) {
+							stack.push(object)
+						}
+					}
+				}
+			}
+		}
+	}
 }
 
 enum RdfProperty {
@@ -358,6 +434,8 @@ impl<I, B> ExpandedDocument<I, B> {
 			graph.resource_mut(id).list.values = Some(values)
 		}
 
+		graph.break_cycles();
+
 		let mut result = ExpandedDocument::new();
 		for (id, resource) in &graph.resources {
 			if resource.references != 1 && !resource.is_empty() {
-- 
2.43.0


From b8eafecdce57f3e1b209b4140ee59629793747e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:57 +0000
Subject: [PATCH 33/38] fix: recognise lists when serializing linked data

---
 crates/serialization/src/expanded/list.rs   | 61 ++++++++++++++++-----
 crates/serialization/src/expanded/object.rs | 29 ++++------
 2 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
index 8bd5f08..e1c44b1 100644
--- a/crates/serialization/src/expanded/list.rs
+++ b/crates/serialization/src/expanded/list.rs
@@ -1,7 +1,7 @@
 use std::hash::Hash;
 
 use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	Indexed, IndexedObject, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
@@ -21,7 +21,8 @@ pub struct SerializeList<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
 	interpretation: &'a mut I,
 	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
+	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
+	well_formed: bool,
 }
 
 impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
@@ -30,7 +31,8 @@ impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
 			vocabulary,
 			interpretation,
 			first: None,
-			rest: Vec::new(),
+			rest: Some(Vec::new()),
+			well_formed: true,
 		}
 	}
 }
@@ -45,7 +47,9 @@ where
 		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
 		+ ReverseLiteralInterpretation<Literal = V::Literal>,
 {
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
+	/// The items of the list, last one first, or `None` if this is not a
+	/// well-formed list.
+	type Ok = Option<Vec<IndexedObject<V::Iri, V::BlankId>>>;
 	type Error = Error;
 
 	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
@@ -70,7 +74,11 @@ where
 						let serializer =
 							SerializeListRest::new(self.vocabulary, self.interpretation);
 						self.rest = value.visit_objects(serializer)?;
+					} else {
+						self.well_formed = false;
 					}
+				} else {
+					self.well_formed = false;
 				}
 
 				Ok(())
@@ -91,6 +99,7 @@ where
 	where
 		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
 	{
+		self.well_formed = false;
 		Ok(())
 	}
 
@@ -102,10 +111,13 @@ where
 	}
 
 	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
+		match (self.first, self.rest) {
+			(Some(first), Some(mut result)) if self.well_formed => {
+				result.push(Indexed::none(first));
+				Ok(Some(result))
+			}
+			_ => Ok(None),
+		}
 	}
 }
 
@@ -113,6 +125,7 @@ pub struct SerializeListFirst<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
 	interpretation: &'a mut I,
 	result: Option<Object<V::Iri, V::BlankId>>,
+	well_formed: bool,
 }
 
 impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
@@ -121,6 +134,7 @@ impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
 			vocabulary,
 			interpretation,
 			result: None,
+			well_formed: true,
 		}
 	}
 }
@@ -142,6 +156,7 @@ where
 	where
 		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
 	{
+		self.well_formed = self.result.is_none();
 		self.result = Some(serialize_object_with(
 			self.vocabulary,
 			self.interpretation,
@@ -151,14 +166,15 @@ where
 	}
 
 	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
+		Ok(self.result.filter(|_| self.well_formed))
 	}
 }
 
 pub struct SerializeListRest<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
 	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
+	result: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
+	visited: bool,
 }
 
 impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
@@ -166,7 +182,8 @@ impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
 		Self {
 			vocabulary,
 			interpretation,
-			result: Vec::new(),
+			result: Some(Vec::new()),
+			visited: false,
 		}
 	}
 }
@@ -181,15 +198,31 @@ where
 		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
 		+ ReverseLiteralInterpretation<Literal = V::Literal>,
 {
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
+	type Ok = Option<Vec<IndexedObject<V::Iri, V::BlankId>>>;
 	type Error = Error;
 
 	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
 	where
 		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
 	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
+		let repr = value
+			.lexical_representation(self.vocabulary, self.interpretation)
+			.map(CowRdfTerm::into_owned);
+
+		self.result = match repr {
+			_ if self.visited => None,
+			Some(Term::Id(Id::Iri(iri))) if self.vocabulary.iri(&iri).unwrap() == RDF_NIL => {
+				Some(Vec::new())
+			}
+			// A cell with an identifier may be referred to from elsewhere.
+			Some(_) => None,
+			None => {
+				let serializer = SerializeList::new(self.vocabulary, self.interpretation);
+				value.visit_subject(serializer)?
+			}
+		};
+
+		self.visited = true;
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..63ec821 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -79,6 +79,7 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	graph: Option<Graph<V::Iri, V::BlankId>>,
 	first: Option<Object<V::Iri, V::BlankId>>,
 	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
+	list_only: bool,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -93,6 +94,7 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			graph: None,
 			first: None,
 			rest: None,
+			list_only: true,
 		}
 	}
 }
@@ -129,8 +131,12 @@ where
 					} else if iri == RDF_REST {
 						let serializer =
 							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
+						self.rest = value.visit_objects(serializer)?;
+					} else {
+						self.list_only = false;
 					}
+				} else {
+					self.list_only = false;
 				}
 
 				json_ld_core::Id::Valid(id)
@@ -203,11 +209,12 @@ where
 		Ok(())
 	}
 
-	fn end(mut self) -> Result<Self::Ok, Self::Error> {
+	fn end(self) -> Result<Self::Ok, Self::Error> {
 		if self.first.is_some()
 			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
+			&& self.list_only
+			&& self.reverse_properties.is_empty()
+			&& self.included.is_empty()
 			&& self.graph.is_none()
 		{
 			#[allow(clippy::unnecessary_unwrap)]
@@ -217,20 +224,6 @@ where
 			items.reverse();
 			Ok(Object::List(List::new(items)))
 		} else {
-			if let Some(item) = self.first {
-				let iri = self.vocabulary.insert(RDF_FIRST);
-				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
-			}
-
-			if let Some(rest) = self.rest {
-				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
-			}
-
 			let mut node = Node::new();
 
 			if !self.types.is_empty() {
-- 
2.43.0


From 0fab719a8c0e86bfa5acba409162192396b600ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:50 +0000
Subject: [PATCH 34/38] fix: reading a value object rejects entries it has no
 place for

---
 crates/core/src/object/value.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..ed96ada 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -268,11 +268,15 @@ impl<T> Value<T> {
 		{
 			Some(type_entry) => match type_entry.value {
 				json_syntax::Value::String(ty) => match ty.as_str() {
-					"@json" => Ok(Self::Json(value_entry.value)),
+					"@json" => {
+						expect_no_entry_left(object)?;
+						Ok(Self::Json(value_entry.value))
+					}
 					iri => match Iri::new(iri) {
 						Ok(iri) => {
 							let ty = vocabulary.insert(iri);
 							let lit = value_entry.value.try_into()?;
+							expect_no_entry_left(object)?;
 							Ok(Self::Literal(lit, Some(ty)))
 						}
 						Err(_) => Err(InvalidExpandedJson::InvalidValueType),
@@ -299,6 +303,7 @@ impl<T> Value<T> {
 					)?))
 				} else {
 					let lit = value_entry.value.try_into()?;
+					expect_no_entry_left(object)?;
 					Ok(Self::Literal(lit, None))
 				}
 			}
@@ -347,6 +352,14 @@ impl TryFrom<json_syntax::Value> for Literal {
 	}
 }
 
+/// Checks that every entry of a value object has been read.
+fn expect_no_entry_left(object: json_syntax::Object) -> Result<(), InvalidExpandedJson> {
+	match object.into_iter().next() {
+		Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
+		None => Ok(()),
+	}
+}
+
 impl<T, B> object::Any<T, B> for Value<T> {
 	#[inline(always)]
 	fn as_ref(&self) -> object::Ref<'_, T, B> {
-- 
2.43.0


From 4001aac53d74b4b5933c3d88aa9d31ca0f4284e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:08 +0000
Subject: [PATCH 35/38] fix: flattening renames blank nodes used as property
 keys

---
 crates/core/src/flattening/node_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 6d899d9..77887ed 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -411,6 +411,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -422,11 +423,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
-- 
2.43.0


From e6c8b0cc2426492d9cfe36de20837bb437e14e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:28 +0000
Subject: [PATCH 36/38] fix: relabelling renames blank nodes used as property
 keys

---
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a37f152..ac37ddf 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -716,22 +716,46 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		for (property, mut objects) in std::mem::take(self.properties_mut()) {
+			let property = relabel_property(property, vocabulary, generator, relabeling);
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+			self.properties_mut().insert_all(property, objects)
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			for (property, mut nodes) in std::mem::take(reverse_properties) {
+				let property = relabel_property(property, vocabulary, generator, relabeling);
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+				reverse_properties.insert_all(property, nodes)
 			}
 		}
 	}
 }
 
+/// Relabels the given property, if it is a blank node identifier.
+fn relabel_property<T: Clone, B: Clone + Eq + Hash, N, G: Generator<N>>(
+	property: Id<T, B>,
+	vocabulary: &mut N,
+	generator: &mut G,
+	relabeling: &mut hashbrown::HashMap<B, Subject<T, B>>,
+) -> Id<T, B>
+where
+	N: Vocabulary<Iri = T, BlankId = B>,
+{
+	match property {
+		Id::Valid(Subject::Blank(b)) => relabeling
+			.entry(b)
+			.or_insert_with(|| generator.next(vocabulary))
+			.clone()
+			.into(),
+		property => property,
+	}
+}
+
 impl<T: Eq + Hash, B: Eq + Hash> PartialEq for Node<T, B> {
 	fn eq(&self, other: &Self) -> bool {
 		self.id.eq(&other.id)
-- 
2.43.0


From bc035f07e2669a324e06786c0d4252f4110e2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:47 +0000
Subject: [PATCH 37/38] fix: the traversal of identifiers visits the keys of
 reverse properties

---
 crates/core/src/object/node/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index ac37ddf..bbc5f8b 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -876,7 +876,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1200,7 +1200,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1222,9 +1225,14 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(nodes) => Some(super::FragmentRef::IndexedNodeList(nodes)),
+				None => r.next().map(|(property, n)| {
+					*nodes = Some(n);
+					let key = EntryKeyRef::Property(property);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(key))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 0d0ba268106989eed6a0e7ece31e66e4da0cfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:07 +0000
Subject: [PATCH 38/38] fix: integers too large for 64 bits are typed
 xsd:integer below 10^21

---
 crates/core/src/rdf/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 4c083bc..060ea12 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -261,7 +261,12 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
+						// An integer below 10^21, whether or not it fits a
+						// machine integer.
+						let is_integer = !n.as_str().contains(['.', 'e', 'E'])
+							&& n.as_f64_lossy().abs() < 1e21;
+
+						if is_integer
 							&& !ty
 								.as_ref()
 								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-- 
2.43.0

