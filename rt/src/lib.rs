//! Event log of the generated workloads: one JSON object per line on stdout.
//! The monitors (in /verif/props) read it; nothing is decided here.
use opg::{Components, ContextParams, OpgModel};
use serde::Serialize;
use std::io::Write;

pub use opg;
pub use serde;
pub use serde_json;
pub use serde_yaml;

pub fn line(text: String) {
    let out = std::io::stdout();
    let mut out = out.lock();
    out.write_all(text.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
}

fn js<T: Serialize + ?Sized>(value: &T) -> String {
    match serde_json::to_string(value) {
        Ok(s) => s,
        Err(e) => serde_json::to_string(&format!("<<error: {}>>", e)).unwrap(),
    }
}

fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// A serializer function that writes what would be written anyway
pub fn ser_same<T: Serialize + ?Sized, S: serde::Serializer>(value: &T, serializer: S) -> Result<S::Ok, S::Error> {
    value.serialize(serializer)
}

pub mod same {
    pub use super::ser_same as serialize;
}

/// An expression with a side effect: how often was it evaluated?
pub fn once(key: &str) -> String {
    use std::{cell::RefCell, collections::HashMap};
    thread_local!(static SEEN: RefCell<HashMap<String, u32>> = RefCell::default());
    SEEN.with(|seen| {
        let mut seen = seen.borrow_mut();
        let n = seen.entry(key.to_owned()).or_default();
        *n += 1;
        format!("{} evaluation {}", key, n)
    })
}

pub fn begin(case: &str) {
    line(format!("{{\"ev\":\"begin\",\"case\":{}}}", q(case)));
}

pub fn end(case: &str) {
    line(format!("{{\"ev\":\"end\",\"case\":{}}}", q(case)));
}

/// Schema of the type in fresh components, and what it registered.
pub fn schema<T: OpgModel + ?Sized>(case: &str, id: &str) {
    let mut cx = Components::new();
    let model = T::get_schema(&mut cx);
    line(format!(
        "{{\"ev\":\"schema\",\"case\":{},\"id\":{},\"schema\":{},\"components\":{},\"verify\":{}}}",
        q(case), q(id), js(&model), js(&cx), js(&cx.verify_schemas().err()),
    ));
}

/// Reference to the type in fresh components, and what it registered.
pub fn mention<T: OpgModel + ?Sized>(case: &str, id: &str, inline: bool, params: &ContextParams) {
    let mut cx = Components::new();
    mention_in::<T>(case, id, inline, params, &mut cx);
}

/// Reference to the type in given components.
pub fn mention_in<T: OpgModel + ?Sized>(case: &str, id: &str, inline: bool, params: &ContextParams, cx: &mut Components) {
    let reference = cx.mention_schema::<T>(inline, params);
    line(format!(
        "{{\"ev\":\"mention\",\"case\":{},\"id\":{},\"inline\":{},\"ref\":{},\"components\":{},\"verify\":{}}}",
        q(case), q(id), inline, js(&reference), js(cx), js(&cx.verify_schemas().err()),
    ));
}

/// The name the type goes by, if any.
pub fn type_name<T: OpgModel + ?Sized>(case: &str, id: &str) {
    line(format!("{{\"ev\":\"name\",\"case\":{},\"id\":{},\"name\":{}}}", q(case), q(id), js(&T::type_name())));
}

/// Schema of the type built in given components.
pub fn schema_in<T: OpgModel + ?Sized>(case: &str, id: &str, cx: &mut Components) {
    let model = T::get_schema(cx);
    line(format!(
        "{{\"ev\":\"schema\",\"case\":{},\"id\":{},\"schema\":{},\"components\":{},\"verify\":{}}}",
        q(case), q(id), js(&model), js(cx), js(&cx.verify_schemas().err()),
    ));
}

pub fn dump(case: &str, id: &str, cx: &Components) {
    line(format!("{{\"ev\":\"dump\",\"case\":{},\"id\":{},\"components\":{}}}", q(case), q(id), js(cx)));
}

/// Counts how often the schema of the type it is a field of is built.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize)]
pub struct Tick<const K: usize>;

thread_local! {
    static TICKS: std::cell::RefCell<std::collections::BTreeMap<usize, u64>> = Default::default();
}

impl<const K: usize> OpgModel for Tick<K> {
    fn get_schema(cx: &mut Components) -> opg::Model {
        TICKS.with(|t| {
            let mut t = t.borrow_mut();
            let n = t.entry(K).or_insert(0);
            *n += 1;
            if *n > 3000 { drop(t); panic!("RUNAWAY: a schema is built over and over"); }
        });
        bool::get_schema(cx)
    }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { None }
}

pub fn ticks(case: &str, id: &str) {
    let t = TICKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    let body: Vec<String> = t.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    line(format!("{{\"ev\":\"ticks\",\"case\":{},\"id\":{},\"ticks\":{{{}}}}}", q(case), q(id), body.join(",")));
}

/// JSON serde produces for a value.
pub fn value<T: Serialize + ?Sized>(case: &str, id: &str, value: &T) {
    line(format!("{{\"ev\":\"value\",\"case\":{},\"id\":{},\"json\":{}}}", q(case), q(id), js(value)));
}

/// JSON serde produces for a value, labelled.
pub fn value_l<T: Serialize + ?Sized>(case: &str, id: &str, label: &str, value: &T) {
    line(format!("{{\"ev\":\"value\",\"case\":{},\"id\":{},\"label\":{},\"json\":{}}}", q(case), q(id), q(label), js(value)));
}

/// Any document: JSON text, and the JSON of the YAML text read back.
pub fn doc<T: Serialize + ?Sized>(case: &str, id: &str, value: &T) {
    line(format!("{{\"ev\":\"doc\",\"case\":{},\"id\":{},\"json\":{},\"yaml\":{}}}", q(case), q(id), js(value), yaml_as_json(value)));
}

/// The YAML text read back. `null` where the YAML library cannot even bring the same plain data through a round trip
/// (keys of more than 1024 characters, keys with line breaks): then nothing can be said about the document.
pub fn yaml_as_json<T: Serialize + ?Sized>(value: &T) -> String {
    fn trip<T: Serialize + ?Sized>(value: &T) -> Result<serde_json::Value, String> {
        let text = serde_yaml::to_string(value).map_err(|e| format!("<<yaml error: {}>>", e))?;
        serde_yaml::from_str::<serde_yaml::Value>(&text).map(y2j).map_err(|e| format!("<<yaml read error: {}>>", e))
    }
    let got = trip(value);
    if let Ok(plain) = serde_json::to_value(value) {
        if got.as_ref() != Ok(&plain) && trip(&plain).as_ref() != Ok(&plain) { return "null".to_string(); }
    }
    match got {
        Ok(v) => js(&v),
        Err(e) => q(&e),
    }
}

fn y2j(v: serde_yaml::Value) -> serde_json::Value {
    use serde_json::Value as J;
    use serde_yaml::Value as Y;
    match v {
        Y::Null => J::Null,
        Y::Bool(b) => J::Bool(b),
        Y::Number(n) => {
            if let Some(i) = n.as_i64() { i.into() } else if let Some(u) = n.as_u64() { u.into() } else { n.as_f64().into() }
        }
        Y::String(s) => J::String(s),
        Y::Sequence(s) => J::Array(s.into_iter().map(y2j).collect()),
        Y::Mapping(m) => J::Object(
            m.into_iter()
                .map(|(k, v)| {
                    let k = match k {
                        Y::String(s) => s,
                        Y::Number(n) => n.to_string(),
                        other => format!("<<yaml key {:?}>>", other),
                    };
                    (k, y2j(v))
                })
                .collect(),
        ),
    }
}

/// JSON of the YAML text with the order of its keys kept.
pub fn yaml_in_order<T: Serialize + ?Sized>(value: &T) -> String {
    fn go(v: &serde_yaml::Value, out: &mut String) {
        use serde_yaml::Value as Y;
        match v {
            Y::Sequence(s) => {
                out.push('[');
                for (i, x) in s.iter().enumerate() { if i > 0 { out.push(','); } go(x, out); }
                out.push(']');
            }
            Y::Mapping(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    out.push_str(&match k { Y::String(s) => q(s), Y::Number(n) => q(&n.to_string()), other => q(&format!("{:?}", other)) });
                    out.push(':');
                    go(x, out);
                }
                out.push('}');
            }
            other => out.push_str(&y2j(other.clone()).to_string()),
        }
    }
    if yaml_as_json(value) == "null" { return "null".to_string(); }
    let text = serde_yaml::to_string(value).unwrap();
    let mut out = String::new();
    go(&serde_yaml::from_str(&text).unwrap(), &mut out);
    out
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// One generation: hashes of the JSON and YAML bytes.
pub fn generation<T: Serialize + ?Sized>(case: &str, place: &str, value: &T) {
    let (j, y) = raw_texts(value);
    line(format!("{{\"ev\":\"gen\",\"case\":{},\"place\":{},\"json\":\"{:016x}\",\"yaml\":\"{:016x}\",\"len\":{}}}", q(case), q(place), fnv(&j), fnv(&y), j.len()));
}

/// The generated texts themselves, as data with the order of keys kept.
pub fn texts<T: Serialize + ?Sized>(case: &str, value: &T) {
    line(format!("{{\"ev\":\"texts\",\"case\":{},\"json\":{},\"yaml\":{}}}", q(case), js(value), yaml_in_order(value)));
}

pub fn raw_texts<T: Serialize + ?Sized>(value: &T) -> (String, String) {
    (serde_json::to_string(value).unwrap(), serde_yaml::to_string(value).unwrap())
}

// Types without a schema of their own, for fields with a declared type.
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct SerStr(pub String);
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct SerInt(pub i64);
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct SerNum(pub f64);
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct SerBool(pub bool);
#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(transparent)]
pub struct SerAny(pub serde_json::Value);
/// Neither a schema nor serializable: only for fields that are skipped.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Opaque;

pub fn js_value(text: &str) -> serde_json::Value {
    serde_json::from_str(text).unwrap()
}

pub fn ser_as_str<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_str("as-str") }
pub fn ser_as_int<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_i64(-7) }
pub fn ser_as_bool<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_bool(true) }
pub fn ser_as_num<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_f64(1.5) }

// Predicates for skip_serializing_if.
pub fn never<T: ?Sized>(_: &T) -> bool { false }
pub fn always<T: ?Sized>(_: &T) -> bool { true }

pub trait Pred {
    fn never<T: ?Sized>(_: &T) -> bool { false }
}
pub struct Preds;
impl Pred for Preds {}

pub fn ex_num() -> u64 { 1599083980 }
pub fn ex_str(s: &str) -> String { format!("<{}>", s) }
pub const EX_CONST: &str = "const!";
