"""C22: how and where a definition is written does not change what it means."""
from conform import *
from apigen import *
from c11 import base_defs
from defgen import *
import copy, re

class Spelled(Ty):
    """A type under another spelling."""
    def __init__(self, t, text): self.t0, self.rust = t, text
    def schema(self, m): return self.t0.schema(m)
    def ref(self, m, inline=False, p=NOP): return self.t0.ref(m, inline, p)
    def defs(self): return self.t0.defs()

PRIMNAMES = set(INTS) | {"bool", "char", "isize", "usize", "f32", "f64"}

class Speller:
    """Writes types differently: other paths, aliases, parentheses, Self, renamed imports, type macros."""
    def __init__(self, g, place):
        self.g, self.r, self.place, self.aliases, self.k = g, g.rng, place, [], 0
    def path(self, full, short=None):
        c = ["std::" + full, "::std::" + full] + ([short, short] if short else [])
        if full.split("::")[0] in ("option", "cell"): c.append("::core::" + full)
        if full.split("::")[0] in ("boxed", "rc", "vec", "string"): c.append("std::" + full)
        return self.r.choice(c)
    def sp(self, t, me, deep=True):
        r = self.r
        text = self._sp(t, me)
        x = r.random()
        if x < .10 and "Self" not in text and not isinstance(t, Raw):
            self.k += 1
            self.aliases.append("pub type Al%d = %s;\n" % (self.k, text))
            return r.choice(["Al%d", "self::Al%d"] if self.place != "local" else ["Al%d"]) % self.k
        if x < .16: return "(%s)" % text
        if x < .21 and "Self" not in text: return "same!(%s)" % text if r.random() < .5 else "same!{ %s }" % text
        return text
    def _sp(self, t, me):
        r = self.r
        s = lambda x: self.sp(x, me)
        if isinstance(t, DefT):
            if t.d is me and r.random() < .5: return "Self"
            c = [t.d.ident, t.d.ident]
            if self.place != "local": c += ["self::" + t.d.ident, "Ren" + unraw(t.d.ident)]
            return r.choice(c)
        if isinstance(t, Opt): return self.path("option::Option", "Option") + "<%s>" % s(t.t)
        if isinstance(t, Wrap):
            if t.kind in ("&", "&mut"): return "%s %s" % ({"&": "&'static", "&mut": "&'static mut"}[t.kind], s(t.t))
            if t.kind == "Box": return self.path("boxed::Box", "Box") + "<%s>" % s(t.t)
            return self.path({"Rc": "rc::Rc", "Arc": "sync::Arc", "Cell": "cell::Cell", "RefCell": "cell::RefCell"}[t.kind]) + "<%s>" % s(t.t)
        if isinstance(t, Seq):
            if t.kind == "array": return r.choice(["[%s; %d]", "[%s; %d as usize]", "[%s; (%dusize)]"]) % (s(t.t), t.n)
            if t.kind == "slice": return "[%s]" % s(t.t)
            if t.kind == "Vec": return self.path("vec::Vec", "Vec") + "<%s%s>" % (s(t.t), r.choice(["", ","]))
            return self.path("collections::" + t.kind) + "<%s>" % s(t.t)
        if isinstance(t, Tup): return "(%s,)" % ", ".join(s(x) for x in t.ts)
        if isinstance(t, Map): return self.path("collections::" + t.kind) + "<%s, %s>" % (s(t.k), s(t.t))
        if t.rust in PRIMNAMES: return r.choice([t.rust, t.rust, "std::primitive::" + t.rust, "::core::primitive::" + t.rust])
        if t is STRING: return self.path("string::String", "String")
        if t.rust[:5] in ("std::", "uuid:", "chron") and "<" not in t.rust: return r.choice(["", "::"]) + t.rust
        return t.rust

class Respell(Gen):
    """Renders attributes through cfg_attr, literals and names through macro variables."""
    lits = None
    def lit(self, s):
        text = Gen.lit(self, s)
        if self.lits is not None and self.rng.random() < .5:
            self.lits.append(text)
            return "$l%d" % (len(self.lits) - 1)
        return text
    def attrs(self, serde, opg, other=()):
        if self.rng.random() < .05: other = tuple(other) + tuple(self.rng.choice(["#[allow(unused)]", "/// d\n", "#[doc = \"d\"]"]) for _ in range(self.rng.randint(4, 12)))
        text = Gen.attrs(self, serde, opg, other)
        out = []
        for part in split_attrs(text):
            x = self.rng.random()
            if part.startswith("#[") and x < .15: out.append("#[cfg_attr(%s, %s)] " % (self.rng.choice(["all()", "not(any())"]), part.strip()[2:-1]))
            elif part.startswith("#[") and x < .22: out.append(part + "#[cfg_attr(any(), %s)] " % self.rng.choice(["opg(nonsense)", "serde(skip)", "opg(\"other text\")", "serde(rename = \"nope\")"]))
            else: out.append(part)
        return "".join(out)

def split_attrs(text):
    """Attributes of a rendered list, one by one (strings and nested brackets kept whole)."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text.startswith("//", i):
            j = text.index("\n", i) + 1
        else:
            depth, j = 0, i
            while True:
                if j >= n: break
                if text.startswith('r##"', j): j = text.index('"##', j + 4) + 3; continue
                if text[j] == '"':
                    j += 1
                    while text[j] != '"': j += 2 if text[j] == "\\" else 1
                    j += 1; continue
                if text[j] == "[": depth += 1
                elif text[j] == "]":
                    depth -= 1
                    if depth == 0: j += 1; break
                j += 1
            while j < n and text[j] in " \n": j += 1
        out.append(text[i:j]); i = j
    return out

DERIVES = ["Serialize, OpgModel", "OpgModel, Serialize", "serde::Serialize, opg::OpgModel", "::opg::OpgModel, ::serde::Serialize", "Serialize)]\n#[derive(OpgModel", "OpgModel)] #[derive(Serialize", "Clone_, Serialize, OpgModel"]
NOISE = ["Model", "Components", "ModelReference", "ContextParams", "ModelData", "ModelType", "ModelTypeDescription", "ModelString", "ModelSimple", "ModelArray", "ModelObject", "ModelOneOf", "ModelAllOf", "Opg", "Info", "Operation", "Cow", "Path", "ParameterIn", "SecurityScheme", "HttpMethod", "Response", "CallbackObject"]

def respell_def(g, sp, d, mode):
    """Source text of the definition under another spelling; returns (text, extra items that must be in scope)."""
    r = g.rng
    c = copy.copy(d)
    c.__dict__ = dict(d.__dict__)
    macro = mode == "macro"
    tys, ids = [], []
    def ident(i):
        if macro and i and r.random() < .4:
            ids.append(i); return "$i%d" % (len(ids) - 1)
        return i
    def fld(f):
        k = copy.copy(f); k.__dict__ = dict(f.__dict__)
        text = f.ty.rust if f.phantom else sp.sp(f.ty, d)   # serde's derive knows a marker by its last segment
        if macro and r.random() < .6:
            tys.append(text); text = "$t%d" % (len(tys) - 1)
        k.ty = Spelled(f.ty, text); k.ident = ident(f.ident)
        return k
    c.fields = [fld(f) for f in d.fields]
    if c.kind in ("struct", "tuple") and r.random() < .2:   # never part of the definition
        dead = Field("dead_field" if c.kind == "struct" else None, OPAQUE, other=("#[cfg(any())]",))
        c.fields.insert(r.randrange(len(c.fields) + 1), dead)
    c.variants = []
    for v in d.variants:
        w = copy.copy(v); w.__dict__ = dict(v.__dict__)
        w.fields = [fld(f) for f in v.fields]; w.ident = ident(v.ident)
        if r.random() < .1 and not d.repr: c.variants.append(Variant("DeadVariant%d" % len(c.variants), r.choice(["unit", "new"]), [Field(None, OPAQUE)], other=("#[cfg(any())]",)))
        c.variants.append(w)
    g.lits = [] if macro else None
    if macro and r.random() < .7: c.ident = "$n"
    c.derives = r.choice(DERIVES[:6])
    text = c.rust(g)
    lits, g.lits = g.lits, None
    vis = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", ""]) if mode == "local" else "pub "
    if vis != "pub ": text = text.replace("\npub enum", "\n%senum" % vis).replace("pub struct", vis + "struct")
    if mode == "item": return "itself! { %s }\n" % text
    if mode == "tokens": return "tokens! { %s }\n" % text
    if mode == "meta": return "%s! { %s }\n" % ({"enum": "meta_enum", "struct": "meta_struct"}.get(d.kind, "meta_tuple"), text)
    if not macro: return text
    args = ["$n:ident"] + ["$t%d:ty" % i for i in range(len(tys))] + ["$i%d:ident" % i for i in range(len(ids))] + ["$l%d:literal" % i for i in range(len(lits))]
    vals = [d.ident] + tys + ids + lits
    return "macro_rules! make_%s { (%s) => {\n%s\n} }\nmake_%s!(%s);\n" % (unraw(d.ident), ", ".join(args), text, unraw(d.ident), ", ".join(vals))

PREFIX = """macro_rules! same { ($t:ty) => { $t } }
macro_rules! itself { ($i:item) => { $i } }
macro_rules! tokens { ($($t:tt)*) => { $($t)* } }
macro_rules! meta_struct { ($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$fm:meta])* $fv:vis $f:ident : $t:ty),* $(,)? }) => { $(#[$m])* $v struct $n { $($(#[$fm])* $fv $f: $t),* } } }
macro_rules! meta_tuple { ($(#[$m:meta])* $v:vis struct $n:ident ( $($(#[$fm:meta])* $fv:vis $t:ty),* $(,)? );) => { $(#[$m])* $v struct $n ( $($(#[$fm])* $fv $t),* ); } }
macro_rules! meta_enum { ($(#[$m:meta])* $v:vis enum $n:ident { $($(#[$vm:meta])* $x:ident $({ $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })? $(( $($(#[$gm:meta])* $u:ty),* $(,)? ))? $(= $d:expr)?),* $(,)? }) => {
    $(#[$m])* $v enum $n { $($(#[$vm])* $x $({ $($(#[$fm])* $f: $t),* })? $(( $($(#[$gm])* $u),* ))? $(= $d)?),* } } }
"""

def make_case(ctx, k):
    g = Respell(random.Random("C22/%d/%d" % (ctx.seed, k)))
    r = g.rng
    o = Opts(docs=.3, noise=.2, skip_if=.2, recursive=.6)
    defs = rand_program(g, o, r.choice([1, 2, 3]))
    place = r.choice(["flat", "macro", "mods", "mods", "local", "macro_mods", "item", "tokens", "meta", "meta"])
    mode = place if place in ("item", "tokens", "meta") else "macro" if place.startswith("macro") else "local" if place == "local" else "plain"
    sp = Speller(g, place)
    texts = [respell_def(g, sp, d, mode) for d in defs]
    names = [d.ident for d in defs]
    renames = "".join("pub use self::%s as Ren%s;\n" % (n, unraw(n)) for n in names)
    noise = "".join("pub struct %s;\n" % n for n in r.sample(NOISE, r.randint(0, 6))) if r.random() < .4 else ""
    if place in ("flat", "macro", "item", "tokens", "meta"): src = PREFIX + noise + "".join(sp.aliases) + "".join(texts) + renames
    elif place == "local": src = ""
    else:
        src = PREFIX
        # every definition in a module of its own, aliases at the root
        for i, (n, t) in enumerate(zip(names, texts)):
            deep = r.randint(0, 2)
            here = "pub mod m%d {\n%s%s}\npub use self::m%d::%s;\n"
            inner = "use super::*;\n"
            ownnoise = "".join("struct %s;\n" % x for x in r.sample(NOISE, r.randint(0, 5))) if r.random() < .5 else ""
            body = ownnoise + t
            for _ in range(deep): body = "pub mod deeper {\nuse super::*;\n%s}\npub use self::deeper::%s;\n" % (body, n)
            src += here % (i, inner, body, i, n)
        src += "".join(sp.aliases) + renames
    probes = default_probes(defs)
    for d in defs:
        probes.append(("n:" + d.ident, "name", DefT(d), False, NOP))
        if place != "local": probes.append(("r:" + d.ident, "mention", Spelled(DefT(d), "Ren" + unraw(d.ident)), False, NOP))
    c = Case("k%d" % k, defs, probes, source=src)
    if place == "local":
        c.tail = "\n" + PREFIX + "".join(sp.aliases) + "".join(texts)
    c.place = place
    return c

# Two ways of writing the same description: the documents have to be equal.
API_T = """#[derive(Serialize, OpgModel)] pub struct Tt { pub a: u8, pub b: Option<Box<Tt>> }
#[derive(Serialize, OpgModel)] pub enum Ee { A, B }
pub type Al = Tt; pub mod deep { pub mod er { pub use super::super::{Tt, Ee}; } } use self::Tt as Renamed;
pub const TITLE: &str = "the title"; pub const N: u16 = 200;
macro_rules! id { ($($t:tt)*) => { $($t)* } }
pub mod bare_dt { pub struct Model; pub fn f() -> ::opg::Model { ::opg::describe_type!(object => { description: "d" properties: { a[required]: (string => { description: "x" format: "f" example: "e" variants: ["p", "q"] }) b: (array => { items: (number => { format: "g" }) }) c[required]: (object => { properties: { i: (integer => {}) j: (boolean => { description: "y" }) k: (link => "Lnk") } }) } }) } }
macro_rules! api { ($($t:tt)*) => { opg::describe_api! { $($t)* } } }
macro_rules! with_ty { ($t:path) => { opg::describe_api! { paths: { ("x" / {p: $t}): { parameters: { (query q: $t) }, POST: { body: $t, 200: $t } } } } } }
macro_rules! with_lit { ($a:literal, $b:literal) => { opg::describe_api! { paths: { ($a / "y"): { summary: $b, GET: { summary: $a, description: $b, 200($b): String } } } } } }
"""
PLAIN = "describe_api! { paths: { (\"x\" / {p: Tt}): { parameters: { (query q: Tt) }, POST: { body: Tt, 200: Tt } } } }"
BIG = "info: { title: \"the title\", version: \"1\" }, tags: { a(\"x\"), b }, servers: { \"u\"(\"d\") }, paths: { (\"x\" / { p: Ee }): { GET: { tags: { a }, 200: Tt, 404(\"no\"): None }, POST: { body: { schema: Ee, required: false }, callbacks: { cb: { (\"z\"): { PUT: { 200: Ee } } } } } } }"
API = {
    "alias": (PLAIN.replace("Tt", "Al"), PLAIN),
    "self_path": (PLAIN.replace("Tt", "self::Tt"), PLAIN),
    "deep_path": (PLAIN.replace("Tt", "deep::er::Tt"), PLAIN),
    "renamed": (PLAIN.replace("Tt", "Renamed"), PLAIN),
    "macro_type": ("with_ty!(Tt)", PLAIN),
    "macro_type_path": ("with_ty!(self::deep::er::Tt)", PLAIN),
    "macro_lit": ("with_lit!(\"one\", \"two\")", "describe_api! { paths: { (\"one\" / \"y\"): { summary: \"two\", GET: { summary: \"one\", description: \"two\", 200(\"two\"): String } } } }"),
    "through_macro": ("api! { %s }" % BIG, "describe_api! { %s }" % BIG),
    "qualified_macro": ("::opg::describe_api! { %s }" % BIG, "describe_api! { %s }" % BIG),
    "nested_macro": ("id! { api! { %s } }" % BIG, "describe_api! { %s }" % BIG),
    "in_closure": ("(|| describe_api! { %s })()" % BIG, "describe_api! { %s }" % BIG),
    "commas": ("describe_api! { %s }" % (re.sub(r"(?<!\{ p: Ee) \}", ", }", BIG) + ","), "describe_api! { %s }" % BIG),
    "raw_strings": ("describe_api! { %s }" % BIG.replace('"the title"', 'r#"the title"#').replace('"no"', '"\\u{6e}\\x6f"'), "describe_api! { %s }" % BIG),
    "const_values": ("describe_api! { info: { title: TITLE, version: self::TITLE, description: format!(\"{}!\", TITLE) }, tags: { a(TITLE), b(TITLE.len()) } }", "describe_api! { info: { title: \"the title\", version: \"the title\", description: \"the title!\" }, tags: { a(\"the title\"), b(\"9\") } }"),
    "locals_named_like_internals": ("{ let (result, context, path, operation, parameter, name) = (\"r\", \"c\", \"p\", \"o\", \"q\", \"n\"); let (description, required, deprecated, schema, scheme, security) = (\"d\", true, true, 1, 2, 3); describe_api! { info: { title: result, version: context, description: path }, tags: { t(operation) }, servers: { name(description), parameter }, paths: { (\"x\"): { parameters: { (header name): { description: description, required: required, deprecated: deprecated } }, GET: { summary: operation, operationId: name, description: path, deprecated: deprecated, parameters: { (query name: String): { description: result, required: required } }, 200: None } } } } }",
                                    "describe_api! { info: { title: \"r\", version: \"c\", description: \"p\" }, tags: { t(\"o\") }, servers: { \"n\"(\"d\"), \"q\" }, paths: { (\"x\"): { parameters: { (header \"n\"): { description: \"d\", required: true, deprecated: true } }, GET: { summary: \"o\", operationId: \"n\", description: \"p\", deprecated: true, parameters: { (query name: String): { description: \"r\", required: true } }, 200: None } } } }"),
    "callback_object_local": ("{ let callback_object = \"x\"; let security = \"y\"; let http_security_scheme = \"z\"; let bearer_format = \"w\"; describe_api! { security_schemes: { (http \"s\"): { scheme: Bearer, description: security, bearer_format: bearer_format }, (apiKey callback_object): { name: http_security_scheme, description: bearer_format } }, paths: { (\"p\"): { GET: { security: { \"s\" }, callbacks: { c: { (\"q\"): { GET: { summary: callback_object, 200: None } } } } } } } } }",
                              "describe_api! { security_schemes: { (http \"s\"): { scheme: Bearer, description: \"y\", bearer_format: \"w\" }, (apiKey \"x\"): { name: \"z\", description: \"w\" } }, paths: { (\"p\"): { GET: { security: { \"s\" }, callbacks: { c: { (\"q\"): { GET: { summary: \"x\", 200: None } } } } } } } }"),
    "type_alias_in_describe_type": ("{ let properties = describe_type!(string => { description: \"d\" }); let required = \"Lnk\"; describe_type!(object => { properties: { a[required]: (raw_model => properties) b: (link => required) required[required]: (boolean => {}) properties: (array => { items: (link => required) }) } }) }",
                                    "describe_type!(object => { properties: { a[required]: (string => { description: \"d\" }) b: (link => \"Lnk\") required[required]: (boolean => {}) properties: (array => { items: (link => \"Lnk\") }) } })"),
    "describe_type_bare": ("bare_dt::f()", "describe_type!(object => { description: \"d\" properties: { a[required]: (string => { description: \"x\" format: \"f\" example: \"e\" variants: [\"p\", \"q\"] }) b: (array => { items: (number => { format: \"g\" }) }) c[required]: (object => { properties: { i: (integer => {}) j: (boolean => { description: \"y\" }) k: (link => \"Lnk\") } }) } })"),
    "describe_type_lit_macro": ("{ macro_rules! dt { ($n:ident, $d:literal) => { opg::describe_type!(object => { description: $d properties: { $n[required]: (string => { description: $d format: $d example: $d variants: [$d, $d] }) } }) } } dt!(field, \"txt\") }",
                                "describe_type!(object => { description: \"txt\" properties: { field[required]: (string => { description: \"txt\" format: \"txt\" example: \"txt\" variants: [\"txt\", \"txt\"] }) } })"),
}

# Two ways of writing one definition (B against A), for shapes the random programs do not have.
TWINS = {
    "generic_assoc_group": ("pub trait Tr { type Out; } impl Tr for u8 { type Out = bool; }\nmacro_rules! mk { ($n:ident, $t:ty) => { #[derive(OpgModel)] pub struct $n<T: Tr> { pub a: $t } } } mk!(A, T::Out);", "#[derive(OpgModel)] pub struct B<T: Tr> { pub a: T::Out }", "A<u8>", "B<u8>"),
    "generic_nested_group": ("macro_rules! mk { ($n:ident, $t:ty) => { mk2!($n, $t); } } macro_rules! mk2 { ($n:ident, $t:ty) => { mk3!($n, $t); } } macro_rules! mk3 { ($n:ident, $t:ty) => { #[derive(OpgModel)] pub struct $n<T> { pub a: $t, pub b: Vec<$t> } } } mk!(A, Option<T>);", "#[derive(OpgModel)] pub struct B<T> { pub a: Option<T>, pub b: Vec<Option<T>> }", "A<u8>", "B<u8>"),
    "generic_assoc_nested_group": ("pub trait Tr { type Out; } impl Tr for u8 { type Out = bool; }\nmacro_rules! mk { ($n:ident, $t:ty) => { mk2!($n, $t); } } macro_rules! mk2 { ($n:ident, $t:ty) => { #[derive(OpgModel)] pub struct $n<T: Tr> { pub a: $t } } } mk!(A, T::Out);", "#[derive(OpgModel)] pub struct B<T: Tr> { pub a: T::Out }", "A<u8>", "B<u8>"),
    "phantom_group": ("macro_rules! mk { ($n:ident, $t:ty) => { #[derive(OpgModel)] pub struct $n<T> { pub a: u8, #[serde(skip)] pub b: $t } } } mk!(A, std::marker::PhantomData<T>);", "#[derive(OpgModel)] pub struct B<T> { pub a: u8, #[serde(skip)] pub b: std::marker::PhantomData<T> }", "A<rt::Opaque>", "B<rt::Opaque>"),
    "mod_named_opg": ("pub mod inner { pub mod opg { pub struct Model; pub trait OpgModel {} } #[derive(::opg::OpgModel)] pub struct A { pub a: u8, pub b: Option<Box<A>> } }", "#[derive(OpgModel)] pub struct B { pub a: u8, pub b: Option<Box<B>> }", "inner::A", "B"),
    "no_imports": ("pub mod inner { #[derive(::opg::OpgModel)] #[opg(\"d\", nullable)] pub enum A { X(u8), Y { q: ::std::collections::HashMap<String, u8> }, Z } }", "#[derive(OpgModel)] #[opg(\"d\", nullable)] pub enum B { X(u8), Y { q: HashMap<String, u8> }, Z }", "inner::A", "B"),
    "names_of_generated_variables": ("#[derive(OpgModel)] pub struct A { pub cx: u8, pub properties: bool, pub required: u8, pub model: u8, pub params: u8, pub description: u8, pub _opg: u8 }", "#[derive(OpgModel)] pub struct B { #[serde(rename = \"cx\")] pub z0: u8, #[serde(rename = \"properties\")] pub z1: bool, #[serde(rename = \"required\")] pub z2: u8, #[serde(rename = \"model\")] pub z3: u8, #[serde(rename = \"params\")] pub z4: u8, #[serde(rename = \"description\")] pub z5: u8, #[serde(rename = \"_opg\")] pub z6: u8 }", "A", "B"),
    "same_name_in_two_scopes": ("pub mod m1 { #[derive(opg::OpgModel)] pub struct A { pub a: u8 } } pub mod m2 { #[derive(opg::OpgModel)] pub struct A { pub a: u8 } } pub fn one() { #[derive(opg::OpgModel)] struct A { b: bool } { #[derive(opg::OpgModel)] struct A { c: bool } } }", "#[derive(OpgModel)] pub struct B { pub a: u8 }", "m2::A", "B"),
    "renamed_crate": ("pub mod inner { pub extern crate opg as docs; pub use self::docs::OpgModel as Described; #[derive(self::docs::OpgModel)] pub struct A { pub a: u8 } }", "#[derive(OpgModel)] pub struct B { pub a: u8 }", "inner::A", "B"),
    "renamed_derive": ("pub mod inner { use opg::OpgModel as Described; #[derive(Described)] pub struct A { pub a: u8 } }", "#[derive(OpgModel)] pub struct B { pub a: u8 }", "inner::A", "B"),
    "discriminants_written_differently": ("pub const TEN: isize = 10; macro_rules! mk { ($n:ident, $e:expr) => { #[derive(OpgModel)] #[repr(u8)] pub enum $n { X = $e, Y = ($e + 1), Z = 0x0c } } } mk!(A, 10);", "#[derive(OpgModel)] #[repr(u8)] pub enum B { X = 10, Y = 11, Z = 12 }", "A", "B"),
    "example_spellings": ("pub mod vals { pub const V: u8 = 7; pub fn f() -> u8 { 8 } } #[derive(OpgModel)] pub struct A { #[opg(example_with = \"vals::V\")] pub a: u8, #[opg(example_with = \"self::vals::f()\")] pub b: u8, #[opg(example_with = \"1 + 2 * 4\")] pub c: u8, #[opg(example_with = r#\"\"q\".len()\"#)] pub d: u8 }", "#[derive(OpgModel)] pub struct B { #[opg(example = \"7\")] pub a: u8, #[opg(example = \"8\")] pub b: u8, #[opg(example = \"9\")] pub c: u8, #[opg(example = \"1\")] pub d: u8 }", "A", "B"),
    "attribute_layout": ("#[derive(OpgModel)] #[serde(rename_all = \"camelCase\",)] #[opg(\n  \"the\\\n     text\",\n nullable,\n)] pub struct A { #[opg(\"x\")] #[serde(rename = \"r\")] #[opg(nullable)] #[opg(format = \"f\", example = \"e\",)] #[opg()] pub a_b: u8, #[serde()] pub c_d: u8 }", "#[derive(OpgModel)] #[serde(rename_all = \"camelCase\")] #[opg(\"thetext\", nullable)] pub struct B { #[serde(rename = \"r\")] #[opg(\"x\", nullable, format = \"f\", example = \"e\")] pub a_b: u8, pub c_d: u8 }", "A", "B"),
    "lifetimes_and_refs": ("#[derive(OpgModel)] pub struct A<'a, 'b: 'a, T: 'a + ?Sized> { pub a: &'a str, pub b: &'b mut u8, pub c: std::borrow::Cow<'a, str>, #[serde(skip)] pub d: Option<&'a T> }".replace("pub c: std::borrow::Cow<'a, str>, ", ""), "#[derive(OpgModel)] pub struct B { pub a: String, pub b: u8 }", "A<'static, 'static, str>", "B"),
    "raw_names": ("#[derive(OpgModel)] pub struct r#A { pub r#a: u8, pub r#type: u8 } ", "#[derive(OpgModel)] pub struct B { pub a: u8, #[serde(rename = \"type\")] pub t: u8 }", "A", "B"),
    "visibilities": ("pub mod inner { #[derive(opg::OpgModel)] pub struct A { pub(crate) a: u8, pub(super) b: u8, pub(in super::super) c: u8, d: u8 } }", "#[derive(OpgModel)] pub struct B { pub a: u8, pub b: u8, pub c: u8, pub d: u8 }", "inner::A", "B"),
    "const_length": ("pub const N: usize = 3; pub struct H; impl H { pub const M: usize = 2; } #[derive(OpgModel)] pub struct A { pub a: [u8; N], pub b: [u8; H::M], pub c: [u8; N + 1], pub d: [u8; std::mem::size_of::<u32>()] }", "#[derive(OpgModel)] pub struct B { pub a: [u8; 3], pub b: [u8; 2], pub c: [u8; 4], pub d: [u8; 4] }", "A", "B"),
    "names_that_differ_in_case": ("#[derive(OpgModel)] pub struct Ab { pub a: u8 } #[derive(OpgModel)] pub struct AB { pub a: u8 } #[derive(OpgModel)] pub struct aB { pub a: u8 } #[derive(OpgModel)] pub struct A_b { pub a: u8 } #[derive(OpgModel)] pub struct A { pub a: u8, pub v: (Ab, AB, aB, A_b, ) }".replace("pub v: (Ab, AB, aB, A_b, )", "pub v: String"), "#[derive(OpgModel)] pub struct B { pub a: u8, pub v: String }", "A", "B"),
    "many_attributes": ("#[allow(dead_code)] " * 5 + "/// x\n" * 9 + "#[derive(OpgModel)]" + " #[doc = \"y\"]" * 12 + " #[serde(rename_all = \"camelCase\")] " + "#[allow(unused)] " * 9 + "#[opg(\"the text\")] #[opg(nullable)] pub struct A { " + "/// z\n" * 9 + "#[allow(unused)] " * 9 + "#[opg(\"f\")] #[serde(rename = \"r\")] " + "#[doc = \"w\"] " * 7 + "#[opg(nullable)] pub a_b: u8, " + "/// z\n" * 15 + "#[serde(skip_serializing)] pub c_d: rt::Opaque, pub e_f: u8 }",
                        "#[derive(OpgModel)] #[serde(rename_all = \"camelCase\")] #[opg(\"the text\", nullable)] pub struct B { #[opg(\"f\", nullable)] #[serde(rename = \"r\")] pub a_b: u8, pub e_f: u8 }", "A", "B"),
    "many_attributes_enum": ("#[derive(OpgModel)] " + "#[allow(unused)] " * 11 + "#[serde(tag = \"t\")] " + "/// x\n" * 11 + "#[serde(content = \"c\")] pub enum A { " + "/// x\n" * 20 + "#[serde(rename = \"rr\")] " + "#[allow(unused)] " * 9 + "#[opg(\"vd\")] V(" + "/// x\n" * 20 + "#[opg(\"fd\")] u8), " + "#[doc(hidden)] " * 13 + "#[serde(skip)] W(rt::Opaque), X }", "#[derive(OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum B { #[serde(rename = \"rr\")] #[opg(\"vd\")] V(#[opg(\"fd\")] u8), X }", "A", "B"),
    "many_items_in_one_attribute": ("#[derive(OpgModel)] pub struct A { #[serde(default, alias = \"q1\", alias = \"q2\", alias = \"q3\", alias = \"q4\", alias = \"q5\", alias = \"q6\", alias = \"q7\", alias = \"q8\", skip_serializing_if = \"rt::never\", rename = \"r\")] #[opg(optional, nullable, format = \"f\", example = \"e\", inline, \"d\")] pub a: String }", "#[derive(OpgModel)] pub struct B { #[serde(rename = \"r\", skip_serializing_if = \"rt::never\")] #[opg(\"d\")] #[opg(format = \"f\")] #[opg(example = \"e\")] #[opg(inline)] #[opg(optional)] #[opg(nullable)] pub a: String }", "A", "B"),
    "other_derives_and_lints": ("#[allow(dead_code)] #[derive(Clone, Debug, PartialEq, OpgModel, Default)] #[non_exhaustive] #[must_use] #[deprecated] #[doc(hidden)] pub struct A { #[allow(unused)] #[deprecated] pub a: u8 }", "#[derive(OpgModel)] pub struct B { pub a: u8 }", "A", "B"),
}

# A name of the standard prelude means something else where the derive is used.
PROBES = {
    "prelude-shadowed": "pub enum Level { None, Low } use self::Level::*;\n#[derive(Serialize, OpgModel)] pub struct S { pub a: u8 }\npub fn run() { rt::schema::<S>(\"p\", \"prelude-shadowed\"); }\n",
}

def run(ctx):
    cases = [make_case(ctx, k) for k in range(ctx.n(900, 9000))]
    more = {"api": [Unit("a_" + n, API_T + "pub fn run() { rt::doc(\"a\", %s, &%s); rt::doc(\"b\", %s, &%s); }\n" % (rs(n), a, rs(n), b)) for n, (a, b) in API.items()],
            "twin": [Unit("t_" + n, "%s\n%s\npub fn run() { rt::schema::<%s>(\"a\", %s); rt::schema::<%s>(\"b\", %s); }\n" % (a, b, ta, rs(n), tb, rs(n))) for n, (a, b, ta, tb) in TWINS.items()]}
    for u in more["twin"]:
        if "#[serde(" in u.body: u.body = u.body.replace("derive(OpgModel)", "derive(Serialize, OpgModel)")
    # random descriptions in a module that imports nothing but the types it mentions and has names of opg's own
    want = {}
    bare = []
    for k in range(ctx.n(180, 600)):
        g = Gen(random.Random("C22/api/%d/%d" % (ctx.seed, k)))
        defs = base_defs(g)
        a = ApiGen(g, O(depth=g.rng.choice([0, 1])), defs).build()
        noise = "".join("#[derive(Clone)] pub struct %s;\n" % n for n in g.rng.sample(NOISE, g.rng.randint(0, 8)))
        body = "".join(d.rust(g) for d in defs) + "pub mod bare { use super::{%s};\n%s pub fn doc() -> ::opg::Opg %s }\n" % (", ".join(d.ident for d in defs), noise, a.rust())
        bare.append(Unit("b%d" % k, body + "pub fn run() { rt::doc(\"bare\", \"b%d\", &bare::doc()); }\n" % k)); want["b%d" % k] = a.doc, a.rust()
    more.update(spread(bare, 4, "bare"))
    # the listed finding is decided by the compiler, in a build of its own
    src = {n: Unit("p_" + n.replace("-", "_"), s) for n, s in PROBES.items()}
    events = run_cases(ctx, cases, more=more)
    docs = {}
    for e in events:
        if e["ev"] == "doc": docs[e["case"], e["id"]] = e
    for n in API:
        a, b = docs.get(("a", n)), docs.get(("b", n))
        if a is None or b is None: continue
        ctx.saw(("api", n)); ctx.count("description_pairs_compared")
        bad = diff(b["json"], a["json"]) + diff(b["yaml"], a["yaml"], "yaml")
        if bad: ctx.violation("two ways of writing one description give different documents", case=n, problems=bad, source=API[n][0])
    for (c, n), e in docs.items():
        if c != "bare": continue
        ctx.saw(("bare", json.dumps(want[n][0], sort_keys=True))); ctx.count("bare_documents_compared")
        bad = diff(want[n][0], e["json"])
        if bad: ctx.violation("a description in a module without imports gives another document", case=n, problems=bad[:6], source=want[n][1][:4000])
    got = {(e["case"], e["id"]): e for e in events if e["ev"] == "schema" and e["case"] in ("a", "b")}
    for n in TWINS:
        a, b = got.get(("a", n)), got.get(("b", n))
        if a is None or b is None: continue
        ctx.saw(("twin", n)); ctx.count("definition_pairs_compared")
        a = json.loads(re.sub(r"\bA( type variant|\"|')", r"B\1", json.dumps([a["schema"], a["components"]])))
        bad = diff([b["schema"], b["components"]], a)
        if bad: ctx.violation("two ways of writing one definition give different schemas", case=n, problems=bad, source=TWINS[n][0])
    for c in cases: ctx.count("written_as_" + c.place)
    dropped = ctx.build({"probe": list(src.values())}, sub="probe")
    for b, name, ds in dropped:
        ctx.violation("a definition does not compile where a name of the standard prelude is shadowed", sig="prelude-shadowed" if all("Level" in x for x in ds if "aborting" not in x) else None, diagnostics=[x[:800] for x in ds[:2]])
    ctx.coverage["rule"] = "random programs under other spellings (paths, aliases, parentheses, Self, renamed imports, type macros, attributes through cfg_attr, split and shuffled, whole definitions produced by macro_rules with types, names and literals as fragments, modules, function bodies, user types named like opg's own) against the reference schema, and pairs of describe_api!/describe_type! calls; a case is one observation; distinct by spelled type and schema"
