// Interpreter of the operation streams the monitors write to stdin (one JSON array of operations per line).
// It performs exactly the requested calls of the public API and logs what each of them returned.
use rt::serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::rc::Rc;

fn s(v: &Value) -> String { v.as_str().expect("string").to_string() }
fn os(v: &Value) -> Option<String> { v.as_str().map(str::to_string) }
fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default() }
fn b(v: &Value) -> bool { v.as_bool().unwrap_or(false) }
fn arr(v: &Value) -> &[Value] { v.as_array().map(|a| a.as_slice()).unwrap_or(&[]) }
fn js<T: Serialize>(v: &T) -> Value { rt::serde_json::to_value(v).unwrap_or_else(|e| json!(format!("<<error: {}>>", e))) }

// ---- building values of the public types
pub fn reference(v: &Value) -> ModelReference {
    if let Some(l) = v.get("link") { ModelReference::Link(s(l)) }
    else if let Some(m) = v.get("inline") { ModelReference::Inline(model(m)) }
    else { ModelReference::Any }
}
fn simple(v: &Value) -> ModelSimple { ModelSimple { format: os(&v["format"]), example: os(&v["example"]) } }
fn object(v: &Value) -> ModelObject {
    ModelObject {
        properties: arr(&v["props"]).iter().map(|p| (s(&p[0]), reference(&p[1]))).collect(),
        additional_properties: v.get("add").filter(|x| !x.is_null()).map(|x| Box::new(reference(x))),
        required: strs(&v["required"]),
    }
}
fn type_description(v: &Value) -> ModelTypeDescription {
    match v["t"].as_str().unwrap() {
        "string" => ModelTypeDescription::from(ModelString { variants: v["variants"].as_array().map(|_| strs(&v["variants"])), data: simple(v) }),
        "number" => ModelTypeDescription::Number(simple(v)),
        "integer" => ModelTypeDescription::Integer(simple(v)),
        "boolean" => ModelTypeDescription::Boolean,
        "array" => ModelTypeDescription::from(ModelArray { items: Box::new(reference(&v["items"])) }),
        "object" => ModelTypeDescription::from(object(v)),
        t => panic!("type {}", t),
    }
}
pub fn model(v: &Value) -> Model {
    let list = || arr(&v["list"]).iter().map(reference).collect::<Vec<_>>();
    Model {
        description: os(&v["description"]),
        data: match v["t"].as_str().unwrap() {
            "oneOf" => ModelData::from(ModelOneOf { one_of: list() }),
            "allOf" => ModelData::from(ModelAllOf { all_of: list() }),
            "anyOf" => ModelData::from(ModelAnyOf { any_of: list() }),
            _ => ModelData::from(ModelType { nullable: b(&v["nullable"]), type_description: type_description(v) }),
        },
    }
}
pub fn params(v: &Value) -> ContextParams {
    ContextParams { description: os(&v["description"]), nullable: v["nullable"].as_bool(), format: os(&v["format"]), example: os(&v["example"]),
                    variants: v["variants"].as_array().map(|_| strs(&v["variants"])) }
}
fn place(v: &Value) -> ParameterIn {
    match v.as_str().unwrap() { "query" => ParameterIn::Query, "header" => ParameterIn::Header, "path" => ParameterIn::Path, _ => ParameterIn::Cookie }
}
fn http_scheme(v: &Value) -> HttpSecurityScheme {
    if v["t"] == "basic" { HttpSecurityScheme::Basic { description: os(&v["description"]) } }
    else { HttpSecurityScheme::Bearer { format: os(&v["format"]), description: os(&v["description"]) } }
}
fn key_scheme(v: &Value) -> ApiKeySecurityScheme { ApiKeySecurityScheme { parameter_in: place(&v["in"]), name: s(&v["name"]), description: os(&v["description"]) } }
fn scheme(v: &Value) -> SecurityScheme {
    if v["t"] == "apiKey" { SecurityScheme::ApiKey(key_scheme(v)) } else { SecurityScheme::Http(http_scheme(v)) }
}
fn parameters(v: &Value) -> BTreeMap<String, OperationParameter> {
    arr(v).iter().map(|p| (s(&p["name"]), OperationParameter {
        description: os(&p["description"]), parameter_in: place(&p["in"]), required: b(&p["required"]), deprecated: b(&p["deprecated"]),
        schema: p.get("schema").filter(|x| !x.is_null()).map(reference),
    })).collect()
}
fn operation(v: &Value) -> Operation {
    let mut op = Operation::default();
    op.tags = strs(&v["tags"]);
    if b(&v["setters"]) {
        if let Some(x) = v["summary"].as_str() { op.with_summary(x); }
        if let Some(x) = v["operation_id"].as_str() { op.with_operation_id(x); }
        if let Some(x) = v["description"].as_str() { op.with_description(&x.to_string()); }
        op.mark_deprecated(b(&v["deprecated"]));
    } else {
        op.summary = os(&v["summary"]);
        op.operation_id = os(&v["operation_id"]);
        op.description = os(&v["description"]);
        op.deprecated = b(&v["deprecated"]);
    }
    op.security = arr(&v["security"]).iter().map(|a| arr(a).iter().map(|r| (s(&r[0]), strs(&r[1]))).collect()).collect();
    if let Some(body) = v.get("body").filter(|x| !x.is_null()) {
        let body = RequestBody { description: os(&body["description"]), required: b(&body["required"]), schema: reference(&body["schema"]) };
        if b(&v["setters"]) { op.with_request_body(body); } else { op.request_body = Some(body); }
    }
    op.responses = arr(&v["responses"]).iter().map(|r| (r[0].as_u64().unwrap() as u16, Response { description: s(&r[1]), schema: Some(&r[2]).filter(|x| !x.is_null()).map(reference) })).collect();
    op.parameters = parameters(&v["parameters"]);
    op.callbacks = arr(&v["callbacks"]).iter().map(|c| (s(&c[0]), CallbackObject { paths: paths(&c[1]) })).collect();
    op
}
fn method(v: &Value) -> HttpMethod {
    match v.as_str().unwrap() { "get" => HttpMethod::GET, "put" => HttpMethod::PUT, "post" => HttpMethod::POST, "delete" => HttpMethod::DELETE,
        "options" => HttpMethod::OPTIONS, "head" => HttpMethod::HEAD, "patch" => HttpMethod::PATCH, _ => HttpMethod::TRACE }
}
fn paths(v: &Value) -> Vec<(Path, PathValue)> {
    arr(v).iter().map(|p| {
        let segments = arr(&p["segments"]).iter().map(|x| if x[0] == "p" { PathElement::Parameter(s(&x[1])) } else { PathElement::Path(s(&x[1])) }).collect();
        (Path(segments), PathValue {
            summary: os(&p["summary"]), description: os(&p["description"]), parameters: parameters(&p["parameters"]),
            operations: arr(&p["operations"]).iter().map(|o| (method(&o[0]), operation(&o[1]))).collect(),
        })
    }).collect()
}
fn document(v: &Value) -> Opg {
    let mut doc = Opg::default();
    doc.info = Info { title: s(&v["info"]["title"]), description: os(&v["info"]["description"]), version: s(&v["info"]["version"]) };
    doc.tags = arr(&v["tags"]).iter().map(|t| (s(&t[0]), Tag { description: os(&t[1]) })).collect();
    doc.servers = arr(&v["servers"]).iter().map(|t| Server { url: s(&t[0]), description: os(&t[1]) }).collect();
    doc.paths = paths(&v["paths"]);
    doc.components.schemas = arr(&v["schemas"]).iter().map(|t| (s(&t[0]), model(&t[1]))).collect();
    doc.components.security_schemes = arr(&v["schemes"]).iter().map(|t| (s(&t[0]), scheme(&t[1]))).collect();
    doc
}

// ---- instrumented types: node N of a type graph given at run time
#[derive(Default)]
struct Monitor { nodes: Vec<Value>, builds: BTreeMap<usize, u64>, stack: usize, deepest: usize, total: u64, limit_depth: usize, limit_total: u64 }
thread_local! { static MON: RefCell<Monitor> = RefCell::new(Monitor::default()); }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct P<const N: usize>;

struct Frame;
impl Drop for Frame { fn drop(&mut self) { MON.with(|m| m.borrow_mut().stack -= 1) } }

impl<const N: usize> OpgModel for P<N> {
    fn get_schema(cx: &mut Components) -> Model {
        let node = MON.with(|m| {
            let mut m = m.borrow_mut();
            *m.builds.entry(N).or_insert(0) += 1;
            m.total += 1;
            m.stack += 1;
            m.deepest = m.deepest.max(m.stack);
            if m.stack > m.limit_depth || m.total > m.limit_total { m.stack -= 1; drop(m); panic!("RUNAWAY"); }
            m.nodes[N].clone()
        });
        let _frame = Frame;
        if b(&node["inplace"]) {
            let e = &node["edges"][0];
            return in_place(cx, e);
        }
        let refs: Vec<(String, ModelReference)> = arr(&node["edges"]).iter().map(|e| (s(&e["field"]), edge(cx, e))).collect();
        match node["shape"].as_str().unwrap() {
            "oneOf" => Model { description: os(&node["description"]), data: ModelData::OneOf(ModelOneOf { one_of: refs.into_iter().map(|x| x.1).collect() }) },
            "allOf" => Model { description: os(&node["description"]), data: ModelData::AllOf(ModelAllOf { all_of: refs.into_iter().map(|x| x.1).collect() }) },
            "anyOf" => Model { description: os(&node["description"]), data: ModelData::AnyOf(ModelAnyOf { any_of: refs.into_iter().map(|x| x.1).collect() }) },
            // leaves with attributes of their own
            leaf @ ("string" | "integer" | "number" | "boolean") => {
                let data = ModelSimple { format: Some("own format".into()), example: Some("own example".into()) };
                let type_description = match leaf {
                    "string" => ModelTypeDescription::String(ModelString { variants: Some(vec!["own".into()]), data }),
                    "integer" => ModelTypeDescription::Integer(data),
                    "number" => ModelTypeDescription::Number(data),
                    _ => ModelTypeDescription::Boolean,
                };
                Model { description: os(&node["description"]), data: ModelData::Single(ModelType { nullable: b(&node["nullable"]), type_description }) }
            }
            _ => {
                let mut o = ModelObject::default();
                for (k, r) in refs { o.add_property(k, r, true).unwrap(); }
                Model { description: os(&node["description"]), data: ModelData::Single(ModelType { nullable: b(&node["nullable"]), type_description: ModelTypeDescription::Object(o) }) }
            }
        }
    }
    fn type_name() -> Option<Cow<'static, str>> {
        MON.with(|m| os(&m.borrow().nodes[N]["name"]).map(Cow::Owned))
    }
}

macro_rules! dispatch {
    ($go:ident, $cx:expr, $e:expr) => {{
        let (n, w) = ($e["to"].as_u64().unwrap(), $e["via"].as_str().unwrap());
        dispatch!(@nodes $go, $cx, $e, n, w, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
    }};
    (@nodes $go:ident, $cx:expr, $e:expr, $n:ident, $w:ident, $($k:literal)*) => {
        match $n { $($k => match $w {
            "" => $go::<P<$k>>($cx, $e),
            "Option" => $go::<Option<P<$k>>>($cx, $e),
            "Box" => $go::<Box<P<$k>>>($cx, $e),
            "Vec" => $go::<Vec<P<$k>>>($cx, $e),
            "Map" => $go::<BTreeMap<String, P<$k>>>($cx, $e),
            "Tup" => $go::<(P<$k>, String)>($cx, $e),
            "One" => $go::<(P<$k>,)>($cx, $e),
            "Arr" => $go::<[P<$k>; 3]>($cx, $e),
            "OptVec" => $go::<Option<Vec<P<$k>>>>($cx, $e),
            "VecOpt" => $go::<Vec<Option<P<$k>>>>($cx, $e),
            "MapOptBox" => $go::<HashMap<String, Option<Box<P<$k>>>>>($cx, $e),
            "OptOpt" => $go::<Option<Option<P<$k>>>>($cx, $e),
            "Rc" => $go::<Rc<RefCell<P<$k>>>>($cx, $e),
            "Ref" => $go::<&'static P<$k>>($cx, $e),
            w => panic!("wrapper {}", w),
        },)* n => panic!("node {}", n) }
    };
}
fn edge(cx: &mut Components, e: &Value) -> ModelReference {
    fn go<T: OpgModel>(cx: &mut Components, e: &Value) -> ModelReference { cx.mention_schema::<T>(b(&e["inline"]), &params(&e["params"])) }
    dispatch!(go, cx, e)
}
fn in_place(cx: &mut Components, e: &Value) -> Model {
    fn go<T: OpgModel>(cx: &mut Components, e: &Value) -> Model { T::get_schema_with_params(cx, &params(&e["params"])) }
    dispatch!(go, cx, e)
}


// ---- operations
fn step(cx: &mut Components, obj: &mut Option<Model>, op: &Value, out: &mut serde_json::Map<String, Value>) {
    let dump = |out: &mut serde_json::Map<String, Value>, cx: &Components| { out.insert("components".into(), js(cx)); };
    match op["op"].as_str().unwrap() {
        "reset" => { *cx = Components::new(); *obj = None; }
        "graph" => MON.with(|m| *m.borrow_mut() = Monitor { nodes: arr(&op["nodes"]).to_vec(), limit_depth: op["depth"].as_u64().unwrap() as usize, limit_total: op["total"].as_u64().unwrap(), ..Default::default() }),
        "mention" => {
            MON.with(|m| { let mut m = m.borrow_mut(); m.builds.clear(); m.total = 0; m.deepest = 0; m.stack = 0; });
            let before = if b(&op["snapshot"]) { Some(js(cx)) } else { None };
            let r = edge(cx, op);
            out.insert("ref".into(), js(&r));
            MON.with(|m| { let m = m.borrow(); out.insert("builds".into(), json!(m.builds.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>())); out.insert("deepest".into(), json!(m.deepest)); });
            if let Some(b) = before { out.insert("before".into(), b); }
            dump(out, cx);
        }
        "schema" => { let m = in_place(cx, op); out.insert("schema".into(), js(&m)); dump(out, cx); }
        "add" => { cx.add_model(s(&op["name"]), model(&op["model"])); dump(out, cx); }
        "add_str" => { cx.add_model(op["name"].as_str().unwrap(), model(&op["model"])); dump(out, cx); }
        "contains" => { out.insert("result".into(), json!(cx.contains_model(op["name"].as_str().unwrap()))); }
        "scheme" => {
            let v = &op["scheme"];
            let r = match op["as"].as_str() {
                Some("http") => cx.mention_security_scheme(s(&op["name"]), &http_scheme(v)),
                Some("apiKey") => cx.mention_security_scheme(s(&op["name"]), &key_scheme(v)),
                _ => cx.mention_security_scheme(s(&op["name"]), &scheme(v)),
            };
            out.insert("result".into(), json!(r));
            dump(out, cx);
        }
        "verify" => {
            let before = js(cx);
            let r = cx.verify_schemas();
            out.insert("ok".into(), json!(r.is_ok()));
            out.insert("err".into(), json!(r.err()));
            out.insert("before".into(), before);
            dump(out, cx);
        }
        "components" => { // replaces the components wholesale
            cx.schemas = arr(&op["schemas"]).iter().map(|t| (s(&t[0]), model(&t[1]))).collect();
        }
        "chain" => { // one link at the end of a long chain of containers; only the verdict is logged
            let mut r = ModelReference::Link(s(&op["link"]));
            for step in arr(&op["steps"]).iter().rev() {
                let any = || ModelReference::Any;
                let data = match step.as_str().unwrap() {
                    "items" => ModelData::Single(ModelType { nullable: false, type_description: ModelTypeDescription::Array(ModelArray { items: Box::new(r) }) }),
                    "prop" => ModelData::Single(ModelType { nullable: true, type_description: ModelTypeDescription::Object(ModelObject { properties: vec![("a".to_string(), any()), ("k".to_string(), r)].into_iter().collect(), ..Default::default() }) }),
                    "add" => ModelData::Single(ModelType { nullable: false, type_description: ModelTypeDescription::Object(ModelObject { additional_properties: Some(Box::new(r)), ..Default::default() }) }),
                    "oneOf" => ModelData::OneOf(ModelOneOf { one_of: vec![any(), r] }),
                    "allOf" => ModelData::AllOf(ModelAllOf { all_of: vec![r, any()] }),
                    _ => ModelData::AnyOf(ModelAnyOf { any_of: vec![any(), r, any()] }),
                };
                r = ModelReference::Inline(Model { description: None, data });
            }
            if let ModelReference::Inline(m) = r { cx.schemas.insert("M".to_string(), m); }
            let v = cx.verify_schemas();
            out.insert("ok".into(), json!(v.is_ok()));
            out.insert("err".into(), json!(v.err()));
        }
        "apply" => {
            let p = params(&op["params"]);
            let m = model(&op["model"]);
            out.insert("original".into(), js(&m));
            out.insert("none".into(), js(&m.clone().apply_params(&ContextParams::default())));
            let once = m.clone().apply_params(&p);
            out.insert("once".into(), js(&once));
            out.insert("twice".into(), js(&once.apply_params(&p)));
            let mut data = m.clone();
            data.data = data.data.apply_params(&p);
            out.insert("data".into(), js(&data));
            if let ModelData::Single(t) = m.data {
                let t2 = t.clone().apply_params(&p);
                out.insert("type".into(), js(&Model { description: None, data: ModelData::Single(t2) }));
                let td = t.type_description.clone().apply_params(&p);
                out.insert("td".into(), js(&td));
                match t.type_description {
                    ModelTypeDescription::String(x) => { out.insert("string".into(), js(&x.clone().apply_params(&p))); out.insert("simple".into(), js(&x.data.apply_params(&p))); }
                    ModelTypeDescription::Number(x) | ModelTypeDescription::Integer(x) => { out.insert("simple".into(), js(&x.apply_params(&p))); }
                    _ => {}
                }
            }
        }
        "object" => { *obj = Some(model(&op["model"])); out.insert("object".into(), js(obj.as_ref().unwrap())); }
        "prop" => {
            let m = obj.as_mut().unwrap();
            if let ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) = &mut m.data {
                let r = o.add_property(s(&op["name"]), reference(&op["ref"]), b(&op["required"]));
                out.insert("ok".into(), json!(r.is_ok()));
            }
            out.insert("object".into(), js(m));
        }
        "merge" => {
            let m = obj.as_mut().unwrap();
            let other = model(&op["model"]);
            let ok = if op["via"] == "object" {
                match (&mut m.data, other.data) {
                    (ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(a), .. }), ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. })) => a.merge(o).is_ok(),
                    _ => panic!("not objects"),
                }
            } else { m.try_merge(other).is_ok() };
            out.insert("ok".into(), json!(ok));
            out.insert("object".into(), js(m));
        }
        "doc" => { let d = document(&op["doc"]); rt::doc("driver", op["id"].as_str().unwrap(), &d); }
        "model_doc" => { let m = model(&op["model"]); rt::doc("driver", op["id"].as_str().unwrap(), &m); }
        o => panic!("operation {}", o),
    }
}

pub fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut n = 0;
    while { line.clear(); stdin.read_line(&mut line).unwrap() > 0 } {
        if line.trim().is_empty() { continue; }
        let ops: Value = rt::serde_json::from_str(&line).unwrap();
        let mut cx = Components::new();
        let mut obj = None;
        for (k, op) in arr(&ops).iter().enumerate() {
            let mut out = serde_json::Map::new();
            out.insert("ev".into(), json!("step"));
            out.insert("program".into(), json!(n));
            out.insert("step".into(), json!(k));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut cx, &mut obj, op, &mut out)));
            if let Err(e) = r {
                let what = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                out.insert("panic".into(), json!(what));
                rt::line(Value::Object(out).to_string());
                break;
            }
            rt::line(Value::Object(out).to_string());
        }
        n += 1;
    }
}
