//! Compile-time witnesses of "operations can be driven from any thread".
//!
//! One function per obligation. A function type-checks only if the future or
//! type it names is `Send` (and `Sync` for types). Nothing here is ever run.
#![allow(dead_code, clippy::all)]
use iref::{Iri, IriBuf};
use json_ld::rdf_types::{self, BlankIdBuf, VocabularyMut};
use json_ld::JsonLdProcessor as P;
use json_ld::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

fn send<T: Send>(_: T) {}
fn both<T: Send + Sync>() {}

type Gen = rdf_types::generator::Blank;
type Index = rdf_types::vocabulary::IndexVocabulary;
type Ix = rdf_types::vocabulary::IriIndex;
type Bx = rdf_types::vocabulary::BlankIdIndex;

/// A loader whose own futures are `Send`, like a user's would be.
struct Mine;
impl Loader for Mine {
	async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
		NoLoader.load(url).await
	}
}

/// What an instance of the control crate must be refused for.
#[cfg(feature = "control")]
mod control {
	fn a_future_holding_an_rc_is_refused() {
		super::send(async {
			let x = std::rc::Rc::new(());
			std::future::ready(()).await;
			drop(x)
		})
	}
}

// Processor operations, by loader.
macro_rules! operations {
	($m:ident, $l:ty) => {
		mod $m {
			use super::*;
			fn expand(d: &RemoteDocument, l: &$l, o: Options) { send(P::expand_full(d, &mut (), l, o, ())) }
			fn expand_indexed(d: &RemoteDocument<Ix>, v: &mut Index, l: &$l, o: Options<Ix>) { send(P::expand_full(d, v, l, o, ())) }
			fn expand_ref(d: &RemoteDocumentReference, l: &$l, o: Options) { send(P::expand_full(d, &mut (), l, o, ())) }
			fn flatten(d: &RemoteDocument, g: &mut Gen, c: Option<RemoteContextReference>, l: &$l, o: Options) {
				send(P::flatten_full(d, &mut (), g, c, l, o, ()))
			}
			fn to_rdf(d: &RemoteDocument, g: &mut Gen, l: &$l, o: Options) { send(P::to_rdf_full(d, (), g, l, o, ())) }
			fn compare(a: &RemoteDocument, b: &RemoteDocument, l: &$l, o: Options) { send(P::compare_full(a, b, &mut (), l, o, ())) }
			fn load(d: RemoteDocumentReference, l: &$l) { send(d.load_with(&mut (), l)) }
			fn load_context(d: RemoteContextReference, l: &$l) { send(d.load_context_with(&mut (), l)) }
			#[cfg(feature = "bounded")]
			mod bounded {
				use super::*;
				fn expand(d: &RemoteDocument, l: &$l) { send(P::expand(d, l)) }
				fn expand_with(d: &RemoteDocument<Ix>, v: &mut Index, l: &$l) { send(P::expand_with(d, v, l)) }
				fn expand_using(d: &RemoteDocument, l: &$l, o: Options) { send(P::expand_using(d, l, o)) }
				fn into_document(d: RemoteDocument, l: &$l, o: Options) { send(P::into_document_full(d, &mut (), l, o, ())) }
				fn into_document_ref(d: RemoteDocumentReference, l: &$l) { send(P::into_document(d, l)) }
				fn compact(d: &RemoteDocument, c: RemoteContextReference, l: &$l, o: Options) { send(P::compact_full(d, &mut (), c, l, o, ())) }
				fn compact_with(d: &RemoteDocument<Ix>, v: &mut Index, c: RemoteContextReference<Ix>, l: &$l) { send(P::compact_with(d, v, c, l)) }
				fn compact_using(d: &RemoteDocumentReference, c: RemoteContextReference, l: &$l, o: Options) { send(P::compact_using(d, c, l, o)) }
				fn flatten(d: &RemoteDocument, g: &mut Gen, l: &$l, o: Options) { send(P::flatten_using(d, g, l, o)) }
				fn to_rdf(d: &RemoteDocument, g: &mut Gen, l: &$l, o: Options) { send(P::to_rdf_using(d, g, l, o)) }
				fn compare(a: &RemoteDocument, b: &RemoteDocument, l: &$l, o: Options) { send(P::compare_using(a, b, l, o)) }
			}
		}
	};
}
operations!(with_no_loader, NoLoader);
operations!(with_own_loader, Mine);
operations!(with_fs_loader, FsLoader);
operations!(with_hash_map, HashMap<IriBuf, RemoteDocument>);
operations!(with_btree_map, BTreeMap<IriBuf, RemoteDocument>);
operations!(with_chain, ChainLoader<Mine, FsLoader>);
operations!(with_reqwest, ReqwestLoader);

// The algorithms behind them, for any vocabulary that can be sent.
mod algorithms {
	use super::*;
	use json_ld::syntax::context::Context as Local;

	fn process<N>(c: &Local, v: &mut N, a: &Context<N::Iri, N::BlankId>, b: Option<N::Iri>, o: context_processing::Options)
	where
		N: VocabularyMut + Send + Sync,
		N::Iri: Clone + Eq + Hash + Send + Sync,
		N::BlankId: Clone + PartialEq + Send + Sync,
	{
		send(c.process_full(v, a, &Mine, b, o, ()))
	}

	fn expand<N>(d: &RemoteDocument<N::Iri>, v: &mut N, c: Context<N::Iri, N::BlankId>, b: Option<&N::Iri>, o: expansion::Options)
	where
		N: VocabularyMut + Send + Sync,
		N::Iri: Clone + Eq + Hash + Send + Sync,
		N::BlankId: Clone + Eq + Hash + Send + Sync,
	{
		send(Expand::expand_full(d, v, c, b, &Mine, o, ()))
	}

	fn compact<N>(d: &ExpandedDocument<N::Iri, N::BlankId>, v: &mut N, c: context_processing::ProcessedRef<N::Iri, N::BlankId>, o: compaction::Options)
	where
		N: VocabularyMut + Send + Sync,
		N::Iri: Clone + Eq + Hash + Send + Sync,
		N::BlankId: Clone + Eq + Hash + Send + Sync,
	{
		send(d.compact_full(v, c, &Mine, o))
	}

	fn load(r: RemoteDocumentReference, l: &Mine) {
		send(r.load_with(&mut (), l))
	}

	fn load_context(r: RemoteContextReference, l: &Mine) {
		send(r.load_context_with(&mut (), l))
	}
}

// Loaders answer from any thread.
mod loaders {
	use super::*;
	fn none(l: &NoLoader, i: &Iri) { send(l.load(i)) }
	fn fs(l: &FsLoader, i: &Iri) { send(l.load(i)) }
	fn map(l: &HashMap<IriBuf, RemoteDocument>, i: &Iri) { send(l.load(i)) }
	fn btree(l: &BTreeMap<IriBuf, RemoteDocument>, i: &Iri) { send(l.load(i)) }
	fn chain(l: &ChainLoader<Mine, FsLoader>, i: &Iri) { send(l.load(i)) }
	fn reqwest(l: &ReqwestLoader, i: &Iri) { send(l.load(i)) }
	fn with_vocabulary(l: &Mine, v: &mut Index, i: Ix) { send(l.load_with(v, i)) }
}

// The data types, for any identifiers that can be sent and shared.
mod types {
	use super::*;
	macro_rules! types {
		($($n:ident: $t:ty;)*) => { $( fn $n<I: Send + Sync + 'static, B: Send + Sync + 'static>() { both::<$t>() } )* };
	}
	types! {
		context: Context<I, B>;
		inverse_context: json_ld::context::inverse::InverseContext<I, B>;
		term_definition: json_ld::context::TermDefinition<I, B>;
		definitions: json_ld::context::Definitions<I, B>;
		processed: context_processing::Processed<'static, I, B>;
		processing_stack: context_processing::ProcessingStack<I>;
		expanded_document: ExpandedDocument<I, B>;
		flattened_document: FlattenedDocument<I, B>;
		document: Document<I, B>;
		object: Object<I, B>;
		indexed_object: IndexedObject<I, B>;
		node: Node<I, B>;
		properties: json_ld::object::node::Properties<I, B>;
		reverse_properties: json_ld::object::node::ReverseProperties<I, B>;
		list: json_ld::object::List<I, B>;
		value: Value<I>;
		term: Term<I, B>;
		id: Id<I, B>;
		type_: Type<I>;
		node_map: json_ld::flattening::NodeMap<I, B>;
		conflicting_indexes: json_ld::flattening::ConflictingIndexes<I, B>;
		quads: json_ld::quad::Quads<'static, I, B>;
		remote_document: RemoteDocument<I>;
		remote_document_reference: RemoteDocumentReference<I>;
		remote_context_reference: RemoteContextReference<I>;
		options: Options<I>;
		expand_error: ExpandError;
		compact_error: CompactError;
		flatten_error: FlattenError<I, B>;
		to_rdf_error: ToRdfError;
		load_error: LoadError;
		context_error: context_processing::Error;
		expansion_error: expansion::Error;
		local_context: json_ld::syntax::context::Context;
		local_definition: json_ld::syntax::context::Definition;
		local_context_error: json_ld::syntax::context::InvalidContext;
		compact_iri: json_ld::syntax::CompactIriBuf;
		language_tag: LenientLangTagBuf;
		lang_string: LangString;
		no_loader: NoLoader;
		fs_loader: FsLoader;
		reqwest_loader: ReqwestLoader;
		chain_loader: ChainLoader<FsLoader, HashMap<IriBuf, RemoteDocument>>;
		blank_ids: (I, BlankIdBuf, Bx);
	}
}
