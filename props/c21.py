"""C21: generic types: minimal bounds, each instantiation described like the same type written out."""
from conform import *
from defgen import *
import copy

class P(Ty):
    """A type parameter or a projection of one."""
    hashable = ordered = True
    def __init__(self, rust): self.rust = rust
    def defs(self): return []

def subst(t, env):
    if isinstance(t, P): return env[t.rust]
    if isinstance(t, Tup): return Tup([subst(x, env) for x in t.ts])
    if isinstance(t, Seq): return Seq(t.kind, subst(t.t, env), env.get("N") if t.n == "N" else t.n)
    if isinstance(t, Opt): return Opt(subst(t.t, env))
    if isinstance(t, Wrap): return Wrap(t.kind, subst(t.t, env))
    if isinstance(t, Map): return Map(t.kind, subst(t.k, env) if isinstance(t.k, P) else t.k, subst(t.t, env))
    return t

def subst_def(d, env, ident=None):
    e = copy.copy(d)
    e.ident = ident or d.ident
    e.generics = e.where = ""
    def sf(f):
        f = copy.copy(f); f.ty = subst(f.ty, env) if not f.skip else Raw("rt::Opaque", ["rt::Opaque"]); return f
    e.fields = [sf(f) for f in d.fields]
    e.variants = []
    for v in d.variants:
        w = copy.copy(v)
        if v.skip: w.fields = [copy.copy(f) for f in v.fields]; [setattr(f, "ty", OPAQUE) for f in w.fields]
        else: w.fields = [sf(f) for f in v.fields]
        e.variants.append(w)
    return e

def pty(g, params, depth=2, defs=()):
    r = g.rng
    if depth <= 0 or r.random() < .45: return P(r.choice(params)) if r.random() < .8 or not defs else DefT(r.choice(defs))
    x = r.random()
    sub = lambda: pty(g, params, depth - 1, defs)
    if x < .2: return Opt(sub())
    if x < .35: return Wrap(r.choice(["Box", "Rc", "Arc", "RefCell"]), sub())
    if x < .6: return Seq(r.choice(["Vec", "LinkedList", "VecDeque"]), sub())
    if x < .7: return Tup([sub(), r.choice([BOOL, STRING])])
    if x < .85: return Map("HashMap", STRING, sub())
    return Seq("array", sub(), 2)

TRAIT = """pub trait Tr { type Out; type Other; }
pub struct Imp; impl Tr for Imp { type Out = Conc; type Other = rt::Opaque; }
pub trait Marker {} impl<T> Marker for T {}
"""

def make(g):
    r = g.rng
    conc = Def("Conc", "struct", [Field("c", BYNAME["u8"])])
    cstr = Def("Cstr", "enum", (), [Variant("A", "unit"), Variant("B", "unit")])
    cnew = Def("Cnew", "newtype", [Field(None, STRING)], desc="own")
    cinl = Def("Cinl", "struct", [Field("i", DefT(conc))], inline=True)
    defs = [conc, cstr, cnew, cinl]
    n = r.choice([1, 1, 2, 3])
    params = ["T", "U", "W"][:n]
    phantom = r.random() < .5     # a parameter that only skipped parts use
    const = r.random() < .35
    assoc = r.random() < .3
    life = r.random() < .3
    env = {}
    concrete = []
    for p in params:
        t = r.choice([DefT(x) for x in defs] + [STRING, BYNAME["i64"], BOOL, Opt(DefT(conc)), Seq("Vec", DefT(cstr)), Tup([DefT(conc), BOOL]), Map("BTreeMap", STRING, DefT(cnew)), Opt(STRING)])
        env[p] = t; concrete.append(t.rust)
    kind = r.choice(["struct", "struct", "newtype", "tuple", "external", "adjacent", "internal", "untagged", "transparent"])
    d = Def("G", "struct")
    used = []
    def fty():
        t = pty(g, params, 2, defs)
        if const and r.random() < .3: t = Seq("array", t, "N"); used.append("N")
        if assoc and r.random() < .4: t = P("A::Out"); used.append("A")
        elif life and r.random() < .3: t = LifeRef(t); used.append("'a")
        return t
    def fld(i):
        f = Field(i, fty())
        if r.random() < .2: f.desc = g.text()
        if r.random() < .1: f.inline = True
        if i and r.random() < .15: f.skip_if = "rt::never"
        return f
    def dead(i):
        return Field(i, r.choice([P("H"), Wrap("Box", P("H")), Opt(P("H")), Tup([P("H"), P("H")])]), skip=r.choice(["skip", "skip_serializing"])) if phantom else Field(i, OPAQUE, skip="skip")
    if kind in ("struct", "transparent"):
        d.fields = [fld("a%d" % i) for i in range(r.choice([1, 2, 4]) if kind == "struct" else 1)]
        if kind == "transparent":
            d.transparent = True; d.fields[0].skip_if = None; d.fields[0].inline = False
        d.fields.insert(r.randrange(len(d.fields) + 1), dead("hid"))
    elif kind == "newtype": d.kind = "newtype"; d.fields = [fld(None)]; d.fields[0].inline = False
    elif kind == "tuple": d.kind = "tuple"; d.fields = [fld(None), fld(None), dead(None)]
    else:
        d.kind = "enum"
        d.untagged = kind == "untagged"
        if kind in ("internal", "adjacent"): d.tag = "t"
        if kind == "adjacent": d.content = "c"
        d.variants = [Variant("V0", "struct", [fld("x"), dead("hid")])]
        if kind != "internal": d.variants.append(Variant("V1", "new", [fld(None)]))
        if kind in ("external", "adjacent"): d.variants.append(Variant("V2", "tuple", [fld(None), fld(None)]))
        if phantom: d.variants.append(Variant("Hid", "new", [Field(None, P("H"))], skip="skip"))
        r.shuffle(d.variants)
    # which parameters really occur
    text = "".join(f.ty.rust + ";" for f in d.fields) + "".join(f.ty.rust + ";" for v in d.variants for f in v.fields)
    import re as _re
    has = lambda p: _re.search(r"(?<![\w:'])%s(?!\w)" % p, text)
    gen, args = [], []
    if "'a" in text: gen.append("'a"); args.append("'static")
    order = [p for p in params if has(p)]
    if "A::Out" in text: order.append("A")
    if has("H"): order.append("H")
    r.shuffle(order)
    where = []
    for p in order:
        b = ""
        if "'a" in text: b = ": 'a" if p != "A" else ": Tr + 'a"
        elif p == "A": b = ": Tr"
        if p != "A" and r.random() < .3:
            if r.random() < .5: where.append("%s: Marker" % p)
            else: b = (b + " + Marker") if b else ": Marker"
        gen.append(p + b)
        args.append({"A": "Imp", "H": "rt::Opaque"}.get(p) or env[p].rust)
    if "'a" in text and "A::Out" in text: where.append("A::Out: 'a")
    if "; N]" in text:
        k = r.choice([0, 1, 3])
        gen.append("const N: usize"); args.append(str(k)); env["N"] = k
    # defaults: trailing parameters may have one
    tail = len(gen)
    while tail and r.random() < .4 and not gen[tail - 1].startswith("'"):
        gen[tail - 1] += " = " + args[tail - 1]
        tail -= 1
    env["A::Out"] = DefT(conc); env["H"] = OPAQUE
    d.generics = "<%s>" % ", ".join(gen) if gen else ""
    d.where = "where " + ", ".join(where) if where else ""
    if d.where and d.kind in ("newtype", "tuple"): pass
    d.derives = "OpgModel"
    if r.random() < .3: d.desc = g.text()
    inst = "G" + ("<%s>" % ", ".join(args) if args else "")
    full = inst
    if tail < len(args):   # the same instantiation through the defaults
        inst = "G" + ("<%s>" % ", ".join(args[:tail]) if tail else "")
    twin = subst_def(d, env)
    twin.derives = "OpgModel"
    return defs, d, twin, full, inst

class LifeRef(Ty):
    def __init__(self, t): self.t, self.rust = t, "&'a " + t.rust
    def defs(self): return self.t.defs()
def _life(t, env): return Wrap("&", subst(t.t, env))
_old = subst
def subst(t, env):
    if isinstance(t, LifeRef): return _life(t, env)
    return _old(t, env)

MANUAL = {
    "phantom_any": ("#[derive(OpgModel)] pub struct G<T> { pub a: u8, #[opg(any)] pub p: std::marker::PhantomData<T> }", "pub struct G { pub a: u8, #[opg(any)] pub p: std::marker::PhantomData<u8> }", "G<rt::Opaque>", ""),
    "phantom_short": ("use std::marker::PhantomData; #[derive(OpgModel)] pub struct G<T, U> { pub a: U, #[opg(any)] pub p: PhantomData<T> }", "pub struct G { pub a: u8, #[opg(any)] pub p: std::marker::PhantomData<u8> }", "G<rt::Opaque, u8>", ""),
    "phantom_core": ("#[derive(OpgModel)] pub struct G<T> { pub a: u8, #[opg(string)] pub p: ::core::marker::PhantomData<(T, Vec<T>)> }", "pub struct G { pub a: u8, #[opg(string)] pub p: u8 }", "G<rt::Opaque>", ""),
    "phantom_nested": ("#[derive(OpgModel)] pub struct G<T> { pub a: u8, #[opg(any)] pub p: Option<Box<std::marker::PhantomData<T>>> }", "pub struct G { pub a: u8, #[opg(any)] pub p: u8 }", "G<rt::Opaque>", ""),
    "phantom_variant": ("#[derive(OpgModel)] pub enum G<T> { A { x: u8 }, B { y: u8, #[opg(any)] p: std::marker::PhantomData<T> } }", "pub enum G { A { x: u8 }, B { y: u8, #[opg(any)] p: u8 } }", "G<rt::Opaque>", ""),
    "phantom_transparent": ("#[derive(OpgModel)] #[serde(transparent)] pub struct G<T> { pub p: std::marker::PhantomData<T>, pub a: Vec<u8> }", "#[serde(transparent)] pub struct G { pub a: Vec<u8> }", "G<rt::Opaque>", "Serialize"),
    "phantom_transparent_tuple": ("use std::marker::PhantomData; #[derive(OpgModel)] #[serde(transparent)] pub struct G<T, U>(pub U, PhantomData<T>, #[serde(skip)] PhantomData<fn(T) -> T>);", "pub struct G(pub String);", "G<rt::Opaque, String>", ""),
    "skip_newtype_variant": ("#[derive(OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum G<T> { A(#[serde(skip)] T), B(u8) }", "#[serde(tag = \"t\", content = \"c\")] pub enum G { A, B(u8) }", "G<rt::Opaque>", "Serialize"),
    "skip_newtype_variant_internal": ("#[derive(OpgModel)] #[serde(tag = \"t\")] pub enum G<T, U> { A(#[serde(skip_serializing)] Option<T>), B { x: U } }", "#[serde(tag = \"t\")] pub enum G { A, B { x: u8 } }", "G<rt::Opaque, u8>", ""),
    "phantom": ("#[derive(OpgModel)] pub struct G<T> { pub a: u8, #[serde(skip)] pub p: std::marker::PhantomData<T> }", "pub struct G { pub a: u8 }", "G<rt::Opaque>", "Serialize"),
    "unsized": ("#[derive(OpgModel)] pub struct G<T: ?Sized> { pub a: Box<T> }", "pub struct G { pub a: Box<str> }", "G<str>", ""),
    "lifetimes": ("#[derive(OpgModel)] pub struct G<'a, 'b: 'a, T: 'b> { pub a: &'a T, pub b: &'b str }", "pub struct G { pub a: &'static u8, pub b: &'static str }", "G<'static, 'static, u8>", ""),
    "const_default": ("#[derive(OpgModel)] pub struct G<T = u8, const N: usize = 4> { pub a: [T; N] }", "pub struct G { pub a: [u8; 4] }", "G", ""),
    "const_only": ("#[derive(OpgModel)] pub struct G<const N: usize, const B: bool> { pub a: [u8; N] }", "pub struct G { pub a: [u8; 9] }", "G<9, true>", ""),
    "where": ("#[derive(OpgModel)] pub struct G<T, U> where T: Clone + Into<U>, U: std::fmt::Debug, Vec<T>: Sized { pub a: T, pub b: Vec<U> }", "pub struct G { pub a: u8, pub b: Vec<u16> }", "G<u8, u16>", ""),
    "assoc_self": ("#[derive(OpgModel)] pub struct G<I: Iterator> where I::Item: Clone { pub a: I::Item }", "pub struct G { pub a: u8 }", "G<std::vec::IntoIter<u8>>", ""),
    "assoc_two": ("pub trait Q { type A; type B; } pub struct I; impl Q for I { type A = u8; type B = String; } #[derive(OpgModel)] pub struct G<T: Q> { pub a: T::A, pub b: T::B }", "pub struct G { pub a: u8, pub b: String }", "G<I>", ""),
    "assoc_skipped": ("pub trait Q { type A; type B; } pub struct I; impl Q for I { type A = u8; type B = rt::Opaque; } #[derive(Serialize, OpgModel)] #[serde(bound = \"T::A: Serialize\")] pub struct G<T: Q> { pub a: T::A, #[serde(skip)] pub b: T::B }", "pub struct G { pub a: u8 }", "G<I>", ""),
    "assoc_variant": ("pub trait Q { type A; type B; } pub struct I; impl Q for I { type A = u8; type B = rt::Opaque; } #[derive(Serialize, OpgModel)] #[serde(bound = \"T::A: Serialize\", tag = \"t\")] pub enum G<T: Q> { V { a: T::A }, #[serde(skip)] W { b: T::B } }", "#[serde(tag = \"t\")] pub enum G { V { a: u8 } }", "G<I>", "Serialize"),
    "skipped_variant": ("#[derive(Serialize, OpgModel)] #[serde(bound = \"T: Serialize\")] pub enum G<T, U> { V(T), #[serde(skip)] W(U), #[serde(skip_serializing)] X { u: Vec<U> } }", "pub enum G { V(u8) }", "G<u8, rt::Opaque>", ""),
    "recursive": ("#[derive(OpgModel)] pub struct G<T> { pub a: T, pub next: Option<Box<G<T>>> }", "pub struct G { pub a: u8, pub next: Option<Box<G>> }", "G<u8>", ""),
    "nested": ("#[derive(OpgModel)] pub struct In<T> { pub i: T } #[derive(OpgModel)] pub struct G<T> { pub a: In<T>, pub b: Vec<In<T>> }", "#[derive(OpgModel)] pub struct In { pub i: u8 } @ pub struct G { pub a: In, pub b: Vec<In> }", "G<u8>", ""),
    "raw_param": ("#[derive(OpgModel)] pub struct G<r#type> { pub a: r#type }", "pub struct G { pub a: u8 }", "G<u8>", ""),
    "newtype_assoc": ("#[derive(OpgModel)] pub struct G<I: Iterator>(pub I::Item);", "pub struct G(pub u8);", "G<std::vec::IntoIter<u8>>", ""),
    "tuple_skip": ("#[derive(Serialize, OpgModel)] #[serde(bound = \"T: Serialize\")] pub struct G<T, U>(pub T, #[serde(skip)] pub U, pub T);", "pub struct G(pub u8, pub u8);", "G<u8, rt::Opaque>", ""),
    "bound_names_clash": ("#[derive(OpgModel)] pub struct G<Components, Model> { pub a: Components, pub b: Model }", "pub struct G { pub a: u8, pub b: u16 }", "G<u8, u16>", ""),
    "parenthesized": ("#[derive(OpgModel)] pub struct G<T: 'static> { pub a: (T), pub b: (T,), pub c: [T; 2], pub d: &'static [T] } ", "pub struct G { pub a: u8, pub b: (u8,), pub c: [u8; 2], pub d: &'static [u8] }", "G<u8>", ""),
    "many": ("#[derive(OpgModel)] pub struct G<A, B, C, D, E, F, H, I> { pub a: A, pub b: B, pub c: C, pub d: D, pub e: E, pub f: F, pub h: H, pub i: I }", "pub struct G { pub a: u8, pub b: u16, pub c: u32, pub d: u64, pub e: i8, pub f: i16, pub h: i32, pub i: i64 }", "G<u8, u16, u32, u64, i8, i16, i32, i64>", ""),
    "macro_ty": ("macro_rules! field { ($t:ty) => { #[derive(OpgModel)] pub struct G<T> { pub a: $t, pub b: T } } } field!(Vec<u8>);", "pub struct G { pub a: Vec<u8>, pub b: u16 }", "G<u16>", ""),
    "macro_assoc": ("macro_rules! field { ($p:ident, $t:ty) => { #[derive(OpgModel)] pub struct G<$p: Iterator> { pub a: $t } } } field!(Q, Q::Item);", "pub struct G { pub a: u8 }", "G<std::vec::IntoIter<u8>>", ""),
}

# Every syntactic position a parameter can have inside a field's type: (the type, what else the signature needs)
POS = {"plain": "T", "paren": "(T)", "paren2": "((T))", "one": "(T,)", "pair": "(T, u8)", "second": "(u8, T)", "triple": "(u8, bool, T)", "array": "[T; 2]", "array_nested": "[[T; 2]; 3]", "array_tuple": "[(u8, T); 2]",
       "ref": "&'a T", "ref_ref": "&'a &'a T", "ref_slice": "&'a [T]", "static_ref": "&'static T", "ref_vec": "&'a Vec<T>", "ref_tuple": "&'a (T, u8)", "ref_array": "&'a [T; 4]", "ref_paren": "&'a (T)",
       "vec": "Vec<T>", "vec_path": "std::vec::Vec<T>", "vec_abs": "::std::vec::Vec<T>", "option": "Option<T>", "option_path": "core::option::Option<T>", "boxed": "Box<T>", "box_vec": "Box<Vec<T>>", "rc": "std::rc::Rc<T>", "arc": "std::sync::Arc<T>", "cell": "std::cell::RefCell<T>", "copy_cell": "std::cell::Cell<T>", "ref_mut": "&'a mut T", "ref_mut_slice": "&'a mut [T]", "box_slice": "Box<[T]>", "rc_slice": "std::rc::Rc<[T]>", "arc_slice": "std::sync::Arc<[T]>", "box_slice_tuple": "Box<[(T, u8)]>", "set": "std::collections::HashSet<T>", "heap": "std::collections::BinaryHeap<T>",
       "map_value": "std::collections::HashMap<String, T>", "bmap_value": "std::collections::BTreeMap<String, T>", "deque": "std::collections::VecDeque<T>", "list": "std::collections::LinkedList<T>",
       "user": "Wr<T>", "user_nested": "Wr<Wr<T>>", "user_second": "Two<u8, T>", "user_both": "Two<T, T>", "alias": "Al<T>", "alias_tuple": "At<T>", "self_path": "self::Wr<T>", "user_life": "Li<'a, T>", "user_const": "Co<T, 3>", "user_option": "Wr<Option<T>>",
       "deep": "Option<Vec<Box<(u8, [std::collections::BTreeMap<String, T>; 2])>>>", "assoc": "<T as Id>::Me", "assoc_in": "Vec<<T as Id>::Me>", "assoc_short_vec": "Vec<<Wr<T> as Id>::Me>"}
POS_DEFS = "#[derive(OpgModel)] pub struct Wr<T> { pub w: T } #[derive(OpgModel)] pub struct Two<A, B> { pub x: A, pub y: B } pub type Al<T> = Vec<T>; pub type At<T> = (T, u8); #[derive(OpgModel)] pub struct Li<'a, T> { pub l: &'a T } #[derive(OpgModel)] pub struct Co<T, const N: usize> { pub n: [T; N] } pub trait Id { type Me; } impl<T> Id for T { type Me = T; }\n"
PLACES = {"struct": "#[derive(OpgModel)] pub struct G%s { pub f: @ }", "last": "#[derive(OpgModel)] pub struct G%s { pub z: u8, pub f: @ }", "newtype": "#[derive(OpgModel)] pub struct G%s(pub @);", "tuple": "#[derive(OpgModel)] pub struct G%s(pub u8, pub @);", "transparent": "#[derive(rt_attrs::Attrs, OpgModel)] #[serde(transparent)] pub struct G%s { pub f: @ }",
          "var_struct": "#[derive(OpgModel)] pub enum G%s { A { x: u8 }, B { f: @ } }", "var_new": "#[derive(OpgModel)] pub enum G%s { A(@), B { x: u8 } }", "var_tuple": "#[derive(OpgModel)] pub enum G%s { A(u8, @), B { x: u8 } }", "untagged": "#[derive(rt_attrs::Attrs, OpgModel)] #[serde(untagged)] pub enum G%s { A(@), B { x: u8 } }",
          "internal": "#[derive(rt_attrs::Attrs, OpgModel)] #[serde(tag = \"t\")] pub enum G%s { A { f: @ }, B { x: u8 } }", "adjacent": "#[derive(rt_attrs::Attrs, OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum G%s { B { x: u8 }, A(@) }", "inline": "#[derive(OpgModel)] pub struct G%s { #[opg(inline)] pub f: @ }", "optional": "#[derive(OpgModel)] pub struct G%s { #[opg(optional)] pub f: @ }"}

def positions(ctx):
    """The parameter occurs at one position only; the same type written out stands next to it."""
    out = []
    for p, ty in POS.items():
        for q, place in PLACES.items():
            if q == "transparent" and "Me" in ty: pass
            life = "'a" in ty
            gen = "<'a, T: 'a>" if life else "<T: 'static>" if "'static" in ty else "<T>"
            n = "p_%s_%s" % (p, q)
            generic = (place % gen).replace("@", ty)
            inst = "G<'static, In>" if life else "G<In>"
            twin = (place % "").replace("@", re.sub(r"\bT\b", "In", ty.replace("'a", "'static")))
            out.append(Unit(n, "%s#[derive(OpgModel)] pub struct In { pub i: u8 }\n%s\npub mod twin { use super::*; %s }\npub fn run() { rt::schema::<%s>(\"%s\", \"g\"); rt::schema::<twin::G>(\"%s\", \"t\"); rt::mention::<%s>(\"%s\", \"gm\", false, &Default::default()); rt::mention::<twin::G>(\"%s\", \"tm\", false, &Default::default()); }"
                            % (POS_DEFS, generic, twin, inst, n, n, inst, n, n)))
    return out

def run(ctx):
    cases, pairs = [], []
    more = []
    for k in range(ctx.n(700, 4000)):
        g = Gen(random.Random("C21/%d/%d" % (ctx.seed, k)))
        defs, d, twin, full, inst = make(g)
        need_serde = any(f.skip or f.skip_if for f in d.fields + [f for v in d.variants for f in v.fields]) or d.transparent or d.tag is not None or d.untagged or any(v.skip for v in d.variants)
        gsrc = d.rust(g)
        if need_serde:   # the attribute needs a derive that owns it; its own bounds must not interfere
            gsrc = gsrc.replace("#[derive(OpgModel)]", "#[derive(Attrs, OpgModel)]", 1)
        body_g = "".join(x.rust(g) for x in defs) + TRAIT + gsrc
        twin_src = twin.rust(g)
        if need_serde: twin_src = twin_src.replace("#[derive(OpgModel)]", "#[derive(Attrs, OpgModel)]", 1)
        src = (body_g + "pub mod twin { use super::*; use super::{Conc, Cstr, Cnew, Cinl}; %s }\n" % twin_src).replace("#[derive(Attrs, OpgModel)]", "#[derive(rt_attrs::Attrs, OpgModel)]")
        gt, tt, it = P(full), P("twin::G"), P(inst)
        for t in (gt, tt, it):
            t.schema = (lambda dd: lambda m: dd.schema(m))(twin)
            t.ref = (lambda dd: lambda m, inline=False, p=NOP: DefT(dd).ref(m, inline, p))(twin)
        probes = []
        for lab, t in (("g", gt), ("t", tt), ("i", it)):
            probes += [(lab + "s", "schema", t, False, NOP), (lab + "m", "mention", t, False, NOP), (lab + "n", "mention", t, True, NOP)]
        src += "#[derive(OpgModel)] pub struct Kk<T> { pub k: T, pub l: Vec<T> } #[derive(OpgModel)] pub struct Ll<T>(pub Option<T>);\n"
        c = Case("k%d" % k, defs, probes, source=src)
        # different generic types side by side in one Components
        kk = Def("Kk", "struct", [Field("k", DefT(defs[0])), Field("l", Seq("Vec", DefT(defs[0])))])
        ll = Def("Ll", "newtype", [Field(None, Opt(STRING))])
        seq = [("Kk<Conc>", kk), (full, twin), ("Ll<String>", ll)]
        g.rng.shuffle(seq)
        c.tail = "  { let mut cx = Components::new(); %s }\n" % " ".join("rt::mention_in::<%s>(%s, \"seq%d\", false, &Default::default(), &mut cx);" % (t, rs(c.name), i) for i, (t, _) in enumerate(seq))
        c.want = comps_json(closure([d for _, d in seq]))
        cases.append(c)
    for n, (gs, ts, inst, drv) in MANUAL.items():
        pre, _, last = ts.rpartition("@")
        derive = "#[derive(%sOpgModel)]" % (drv + ", " if drv else "")
        if "serde(" in last and not drv: derive = "#[derive(rt_attrs::Attrs, OpgModel)]"
        gs2 = gs
        if "serde(" in gs and "Serialize, OpgModel" not in gs: gs2 = gs.replace("#[derive(OpgModel)]", "#[derive(rt_attrs::Attrs, OpgModel)]")
        more.append(Unit("m_" + n, "%s\npub mod twin { use super::*; %s %s %s }\npub fn run() { rt::schema::<%s>(\"m_%s\", \"g\"); rt::schema::<twin::G>(\"m_%s\", \"t\"); rt::mention::<%s>(\"m_%s\", \"gm\", false, &Default::default()); rt::mention::<twin::G>(\"m_%s\", \"tm\", false, &Default::default()); }"
                         % (gs2, pre, derive, last, inst, n, n, inst, n, n)))
    pos = positions(ctx)
    events = run_cases(ctx, cases, more=dict({"manual": more}, **spread(pos, 4, "pos")), toml=CARGO_TOML.replace('rt = {{', 'rt_attrs = {{ path = "{verif}/rt_attrs" }}\nrt = {{'))
    got = {}
    for e in events:
        if e["ev"] in ("schema", "mention"): got[e["case"], e["id"]] = (e.get("schema", e.get("ref")), e["components"])
    texts = {"m_" + n: m[0] for n, m in MANUAL.items()}
    texts.update({u.name: u.body for u in pos})
    for n in texts:
        for a, b in (("g", "t"), ("gm", "tm")):
            x, y = got.get((n, a)), got.get((n, b))
            if x is None or y is None: continue
            ctx.saw((n, a)); ctx.count("twins_compared")
            bad = diff(y[0], x[0]) + diff(y[1], x[1], "components")
            if bad: ctx.violation("an instantiation differs from the same type written out", case=n, problems=bad, source=texts[n][:3000])
    for c in cases:
        if (c.name, "seq2") in got:
            ctx.count("side_by_side")
            bad = diff(c.want, got[c.name, "seq2"][1], "components")
            if bad: ctx.violation("different generic types influence each other", case=c.name, problems=bad, source=c.source[:3000])
        for k in "smn":
            x, y, z = (got.get((c.name, l + k)) for l in "gti")
            if x is None or y is None: continue
            ctx.count("twins_compared")
            bad = diff(y[0], x[0]) + diff(y[1], x[1], "components") + (diff(x[0], z[0]) if z else [])
            if bad: ctx.violation("an instantiation differs from the same type written out", case=c.name, problems=bad, source=c.source[:3000])
    ctx.coverage["rule"] = "random generic structs and enums (1-3 type parameters, parameters used only in skipped parts instantiated with a type that has no schema, associated types, lifetimes, const parameters, defaults, bounds, where clauses) next to the same type written out, plus a fixed list of unusual signatures; a case is one observation of an instantiation or its twin; distinct by type and schema"
