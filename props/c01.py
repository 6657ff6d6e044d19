"""C01: JSON written by serde for a value validates against the schema of its type."""
from common import *
from defgen import *
import schema as S

# Each probe is one fixed program whose failure is a listed finding; any other failure is reported.
PROBES = {
    "external-unit-variant": ("#[derive(Serialize, OpgModel)] pub enum P { U, N(u8) }", "P", "P::U"),
    "flatten": ("#[derive(Serialize, OpgModel)] pub struct I { pub x: u8 } #[derive(Serialize, OpgModel)] pub struct P { #[serde(flatten)] pub i: I, pub y: u8 }", "P", "P { i: I { x: 1 }, y: 2 }"),
    "option-of-alternatives": ("#[derive(Serialize, OpgModel)] #[serde(untagged)] #[opg(inline)] pub enum I { A(u8), B { x: u8 } } #[derive(Serialize, OpgModel)] pub struct P { pub i: Option<I> }", "P", "P { i: None }"),
    "repr-with-plain-serialize": ("#[derive(Serialize, OpgModel)] #[repr(u8)] pub enum P { A, B }", "P", "P::B"),
    "untagged-variant": ("#[derive(Serialize, OpgModel)] pub enum P { A { x: u8 }, #[serde(untagged)] B(u8) }", "P", "P::B(3)"),
    "tagged-map-in-tagged-newtype": ("#[derive(Serialize, OpgModel)] #[serde(tag = \"k\")] pub enum I { M(BTreeMap<String, u8>) } #[derive(Serialize, OpgModel)] #[serde(tag = \"t\")] pub enum P { N(I) }", "P", "P::N(I::M(Default::default()))"),
    "newtype-of-option-of-alternatives": ("#[derive(Serialize, OpgModel)] #[serde(untagged)] pub enum I { A(u8), B { x: u8 } } #[derive(Serialize, OpgModel)] pub struct P(pub Option<I>);", "P", "P(None)"),
}

def nullable_alternatives(d, seen=None):
    """The listed option-of-alternatives finding: Option of something described by alternatives, embedded in place."""
    def alt(t):   # described in place by oneOf/anyOf/allOf
        if isinstance(t, Wrap): return alt(t.t)
        if isinstance(t, Opt): return alt(t.t)
        if isinstance(t, DefT): return "type" not in t.d.schema([])
        return False
    def linked(t, inline):
        if isinstance(t, (Wrap, Opt)): return linked(t.t, inline)
        return isinstance(t, DefT) and not (inline or t.d.inline)
    def bad(t, inline, inplace):
        if isinstance(t, Opt) and alt(t.t) and (inplace or not linked(t.t, inline)): return True
        if isinstance(t, (Opt, Wrap)): return bad(t.t, inline, inplace)
        if isinstance(t, Tup): return any(bad(x, False, False) for x in t.ts)
        if hasattr(t, "t"): return bad(t.t, False, False)
        return False
    inplace = d.kind == "newtype" or d.transparent
    fs = [(f, False) for f in d.fields] + [(f, v.inline) for v in d.variants for f in v.fields]
    return any(bad(f.ty, f.inline or i, inplace or d.mode_internal()) for f, i in fs if not f.skip and not f.explicit)
Def.mode_internal = lambda self: self.kind == "enum" and self.mode() == "internal"

def run(ctx):
    nbin, per = ctx.n(8, 8), ctx.n(60, 200)
    bins, progs, texts = {}, {}, {}
    for b in range(nbin):
        units = []
        for k in range(per):
            case = "c%d_%d" % (b, k)
            g = Gen(random.Random("%s/%d/%s" % (ctx.prop, ctx.seed, case)))
            o = mixed(g.rng, Opts(rename=g.rng.choice([.1, .4]), skip_if=.25, depth=g.rng.choice([1, 2, 3]), fmt_prefix="fmt-"))
            while True:
                defs = rand_program(g, o, g.rng.choice([2, 3, 4, 5]))
                if not any(nullable_alternatives(d) for d in defs): break
                g.defs = []
            body = "".join(d.rust(g) for d in defs) + "pub fn run() {\n"
            for d in defs:
                body += "  rt::schema::<%s>(%s, %s);\n" % (d.ident, rs(case), rs(d.ident))
                n = max(4, len(d.live()) * 2) if d.kind == "enum" else 5
                for j in range(n): body += "  { let v: %s = %s; rt::value(%s, %s, &v); }\n" % (d.ident, d.val(g), rs(case), rs(d.ident))
            # a few standalone types too
            for j in range(2):
                t = g.ty(3, [d for d in defs])
                if not t.sized or nullable_alternatives(Def("x", "struct", [Field("f", t)])): continue
                body += "  rt::mention::<%s>(%s, %s, false, &Default::default());\n" % (t.rust, rs(case), rs("t%d" % j))
                for _ in range(3): body += "  { let v: %s = %s; rt::value(%s, %s, &v); }\n" % (t.rust, t.val(g), rs(case), rs("t%d" % j))
            body += "}\n"
            units.append(Unit(case, body))
            progs[case], texts[case] = defs, body
        bins["w%d" % b] = units
    bins["probe"] = [Unit("p_" + n.replace("-", "_"), src + "\npub fn run() { rt::schema::<%s>(\"p\", %s); let v: %s = %s; rt::value(\"p\", %s, &v); }" % (t, rs(n), t, v, rs(n)))
                     for n, (src, t, v) in PROBES.items()]
    for b, name, ds in ctx.build(bins):
        ctx.violation("a program in the supported subset does not compile", unit=name, diagnostics=ds[:2], source=texts.get(name, "")[:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes:
        ctx.violation("the workload died while describing or serializing", unit=name, rc=rc, stderr=err[-800:], source=texts.get(name, "")[:4000])
    schemas = {}
    for e in events:
        if e["ev"] == "schema": schemas[e["case"], e["id"]] = (e["schema"], e["components"].get("schemas", {}))
        elif e["ev"] == "mention": schemas[e["case"], e["id"]] = (e["ref"], e["components"].get("schemas", {}))
        elif e["ev"] == "value":
            s, comps = schemas[e["case"], e["id"]]
            probe = e["case"] == "p"
            if isinstance(e["json"], str) and e["json"].startswith("<<error"):
                ctx.count("serde_refused"); continue
            if any(True for _ in find_dups(e["json"])):
                ctx.count("left_out_because_serde_itself_writes_a_key_twice"); continue
            why = S.validate(e["json"], s, comps)
            ctx.saw((e["case"], e["id"], json.dumps(e["json"])), trivial=e["json"] in (None, [], {}))
            ctx.count("schema_nodes", 0)
            if why:
                ctx.violation("a serialized value does not validate: " + why, sig=e["id"] if probe else None, case=e["case"], type=e["id"], value=e["json"], schema=s, components=comps, source=texts.get(e["case"], "")[:3000])
            elif not probe: ctx.sample(dict(type=e["id"], value=e["json"]))
    ctx.coverage["programs"] = len(progs)
    ctx.coverage["shapes"] = shapes(progs)
    ctx.coverage["rule"] = "random programs of 2-5 derived types (all shapes, tagging modes, renames, skips, nested standard types); a case is one (type, serialized value) pair; trivial: null, [] or {}"
    ctx.assumptions += ["Option of a type described in place by alternatives is excluded (listed finding)", "unit variants of mixed externally tagged enums and flatten are probed separately (listed findings)"]

def shapes(progs):
    out = {}
    for ds in progs.values():
        for d in ds:
            k = d.mode() if d.kind == "enum" else ("transparent" if d.transparent else d.kind)
            out[k] = out.get(k, 0) + 1
    return out
