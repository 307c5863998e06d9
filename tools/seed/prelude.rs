#![allow(dead_code, unused_imports)]
use json_ld::syntax::{Parse, Print, Value};
use json_ld::*;
use json_ld::rdf_types;
use iref::IriBuf;

pub fn iri(s: &str) -> IriBuf { IriBuf::new(s.to_string()).unwrap() }
pub fn val(s: &str) -> Value { Value::parse_str(s).unwrap().0 }
pub fn doc(s: &str) -> RemoteDocument { RemoteDocument::new(Some(iri("https://example.org/doc")), None, val(s)) }
pub fn run<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
/// A loader over a fixed map of documents.
pub fn map(docs: &[(&str, &str)]) -> std::collections::HashMap<IriBuf, RemoteDocument> {
    docs.iter().map(|(u, d)| (iri(u), RemoteDocument::new(Some(iri(u)), None, val(d)))).collect()
}
pub fn code<E: std::fmt::Debug>(e: E) -> String { format!("ERR {e:?}") }
pub fn canon(v: &Value) -> String {
    // objects with sorted keys, so that texts compare
    fn go(v: &Value, out: &mut String) {
        match v {
            Value::Object(o) => {
                let mut es: Vec<_> = o.iter().map(|e| (e.key.to_string(), &e.value)).collect();
                es.sort_by(|a, b| a.0.cmp(&b.0));
                out.push('{');
                for (i, (k, v)) in es.into_iter().enumerate() {
                    if i > 0 { out.push(',') }
                    out.push_str(&format!("{k:?}:"));
                    if k == "@list" && v.is_array() {
                        let xs: Vec<String> = v.as_array().unwrap().iter().map(canon).collect();
                        out.push_str(&format!("[{}]", xs.join(",")))
                    } else { go(v, out) }
                }
                out.push('}')
            }
            Value::Array(a) => {
                let mut xs: Vec<String> = a.iter().map(canon).collect();
                if !a.is_empty() { xs.sort() }
                out.push('[');
                out.push_str(&xs.join(","));
                out.push(']')
            }
            v => out.push_str(&v.compact_print().to_string()),
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}
pub fn opts() -> Options { Options::default() }
pub fn expand_with(d: &RemoteDocument, o: Options, l: &impl Loader) -> String {
    match run(d.expand_with_using(rdf_types::vocabulary::no_vocabulary_mut(), l, o)) {
        Ok(e) => { use json_ld::syntax::IntoJsonWithContext; canon(&Value::Array(e.into_objects().into_iter().map(|o| o.into_json_with(rdf_types::vocabulary::no_vocabulary())).collect())) },
        Err(e) => code(e),
    }
}
pub fn expand(d: &str) -> String { expand_with(&doc(d), opts(), &NoLoader) }
pub fn compact_with(d: &RemoteDocument, ctx: &str, o: Options, l: &impl Loader) -> String {
    use json_ld::syntax::TryFromJson;
    let c = json_ld::syntax::Context::try_from_json(val(ctx)).unwrap();
    let c = RemoteContextReference::Loaded(RemoteContext::new(Some(iri("https://example.org/ctx")), None, c));
    match run(d.compact_with_using(rdf_types::vocabulary::no_vocabulary_mut(), c, l, o)) {
        Ok(v) => canon(&v),
        Err(e) => code(e),
    }
}
pub fn compact(d: &str, ctx: &str) -> String { compact_with(&doc(d), ctx, opts(), &NoLoader) }
pub fn flatten_with(d: &RemoteDocument, o: Options, l: &impl Loader) -> String {
    let mut g = rdf_types::generator::Blank::new();
    match run(d.flatten_with_using(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, l, o)) {
        Ok(v) => canon(&v),
        Err(e) => code(e),
    }
}
pub fn flatten(d: &str) -> String { flatten_with(&doc(d), opts(), &NoLoader) }
pub fn rdf_with(d: &RemoteDocument, o: Options, l: &impl Loader) -> Vec<String> {
    let mut g = rdf_types::generator::Blank::new();
    match run(d.to_rdf_with_using(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, l, o)) {
        Ok(mut r) => { let mut v: Vec<String> = r.cloned_quads().map(|q| q.to_string()).collect(); v.sort(); v }
        Err(e) => vec![code(e)],
    }
}
pub fn rdf(d: &str) -> Vec<String> { rdf_with(&doc(d), opts(), &NoLoader) }
#[track_caller]
pub fn same(a: impl AsRef<str>, b: impl AsRef<str>) {
    if a.as_ref() != b.as_ref() { eprintln!(" got: {}\nwant: {}", a.as_ref(), b.as_ref()); std::process::exit(1) }
}
#[track_caller]
pub fn has(a: impl AsRef<str>, b: &str) {
    if !a.as_ref().contains(b) { eprintln!("{b:?} not in {}", a.as_ref()); std::process::exit(1) }
}
#[track_caller]
pub fn lacks(a: impl AsRef<str>, b: &str) {
    if a.as_ref().contains(b) { eprintln!("{b:?} in {}", a.as_ref()); std::process::exit(1) }
}

/// RDF and back: expands the document, turns it into quads, reads them back, and prints the result.
pub fn back(d: &str) -> String {
    let mut g = rdf_types::generator::Blank::new();
    let mut r = run(doc(d).to_rdf_with_using(rdf_types::vocabulary::no_vocabulary_mut(), &mut g, &NoLoader, opts())).unwrap();
    let quads: Vec<_> = r.cloned_quads().map(|q| { let t = |i: ValidId| i.into_term(); rdf_types::Quad(t(q.0), t(q.1), q.2, q.3.map(t)) }).collect();
    unquads(&quads)
}
pub fn unquads(quads: &[rdf_types::Quad<rdf_types::Term, rdf_types::Term, rdf_types::Term, rdf_types::Term>]) -> String {
    use json_ld::syntax::IntoJsonWithContext;
    let e: Result<ExpandedDocument<IriBuf, rdf_types::BlankIdBuf>, _> =
        ExpandedDocument::from_interpreted_quads(&(), &(), quads.iter().map(|q| rdf_types::Quad(&q.0, &q.1, &q.2, q.3.as_ref())));
    match e { Ok(e) => canon(&Value::Array(e.into_objects().into_iter().map(|o| o.into_json_with(rdf_types::vocabulary::no_vocabulary())).collect())), Err(e) => code(e) }
}
