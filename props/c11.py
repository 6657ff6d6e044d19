"""C11: the document of describe_api! holds exactly what was declared."""
from conform import *
from defgen import *
from apigen import *
import schema as S
import itertools

def base_defs(g):
    d = [Def("Pet", "struct", [Field("id", BYNAME["u64"]), Field("name", STRING)], desc="a pet"), Def("Kind", "enum", (), [Variant("Cat", "unit"), Variant("Dog", "unit")]),
         Def("Id", "newtype", [Field(None, STRING)], fmt="id"), Def("Inl", "struct", [Field("k", BOOL)], inline=True)]
    d.append(Def("Owner", "struct", [Field("pets", Seq("Vec", DefT(d[0]))), Field("id", DefT(d[2]))]))
    d.append(Def("Event", "enum", (), [Variant("A", "struct", [Field("pet", DefT(d[0]))]), Variant("B", "unit")], tag="t"))
    d.append(Def("Élan", "newtype", [Field(None, BYNAME["u32"])]))
    for n, t in (("URI", STRING), ("X", BYNAME["u8"]), ("HTTPCode", BYNAME["u16"]), ("snake_ty", STRING), ("lower", BOOL), ("Ñ", STRING), ("A1B2", STRING), ("_Under", STRING), ("IDs", Seq("Vec", STRING))):
        d.append(Def(n, "newtype", [Field(None, t)]))
    return d

def all_codes(codes, described):
    items = ", ".join("%d%s: None" % (c, "(\"d%d\")" % c if described else "") for c in codes)
    doc = {str(c): {"description": "d%d" % c if described else REASONS.get(c, "")} for c in sorted(codes)}
    macro = "opg::describe_api! { paths: { (\"p\"): { GET: { %s } } } }" % items
    return "{ %s }" % macro, {"openapi": "3.0.3", "info": {"title": "", "version": ""}, "paths": {"/p": {"get": {"responses": doc}}}, "components": {}}

def fixed():
    """Programs that isolate one feature."""
    out = {}
    base = lambda **k: dict({"openapi": "3.0.3", "info": {"title": "", "version": ""}, "paths": {}}, **dict({"components": {}}, **k))
    allm = "".join("%s: { summary: \"%s\", 200: None }, " % (m, m) for m in METHODS[::-1])
    out["all_methods"] = ("opg::describe_api! { paths: { (\"p\"): { %s } } }" % allm, base(paths={"/p": {m.lower(): {"summary": m, "responses": {"200": {"description": "OK"}}} for m in METHODS}}))
    out["only_tags"] = ("opg::describe_api! { tags: { b, a(\"x\") } }", base(tags=[{"name": "a", "description": "x"}, {"name": "b"}]))
    many = ", ".join("(\"p%d\"): { GET: { 200: None } }" % i for i in range(60))
    out["many_paths"] = ("opg::describe_api! { paths: { %s } }" % many, base(paths={"/p%d" % i: {"get": {"responses": {"200": {"description": "OK"}}}} for i in range(60)}))
    srv = ", ".join("\"https://%d\"(\"s%d\")" % (i, i) for i in range(30, 0, -1))
    out["many_servers"] = ("opg::describe_api! { servers: { %s } }" % srv, base(servers=[{"url": "https://%d" % i, "description": "s%d" % i} for i in range(30, 0, -1)]))
    # equal looking entries stay apart
    out["equal_servers"] = ("opg::describe_api! { servers: { \"u\"(\"a\"), \"u\"(\"b\"), \"u\", \"u\"(\"a\"), \"v\"(\"a\"), \"u\" } }",
                            base(servers=[{"url": "u", "description": "a"}, {"url": "u", "description": "b"}, {"url": "u"}, {"url": "u", "description": "a"}, {"url": "v", "description": "a"}, {"url": "u"}]))
    eq = "GET: { summary: \"s\", tags: {b, a, b, b}, 200: None, 201(\"OK\"): None }"
    eqj = {"get": {"tags": ["b", "a", "b", "b"], "summary": "s", "responses": {"200": {"description": "OK"}, "201": {"description": "OK"}}}}
    out["equal_paths"] = ("opg::describe_api! { tags: { a(\"x\"), b(\"x\") }, paths: { (\"p\"): { %s }, (\"p\" / \"p\"): { %s }, (\"P\"): { %s }, (\"p\" / \"\"): { %s } } }" % (eq, eq, eq, eq),
                          base(tags=[{"name": "a", "description": "x"}, {"name": "b", "description": "x"}], paths={u: eqj for u in ("/p", "/p/p", "/P", "/p/")}))
    ecb = "callbacks: { x: { (\"p\"): { %s }, (\"q\"): { %s } }, \"y\": { (\"p\"): { %s } } }" % (eq, eq, eq)
    out["equal_callbacks"] = ("opg::describe_api! { paths: { (\"p\"): { GET: { %s }, PUT: { %s } }, (\"q\"): { GET: { %s } } } }" % (ecb, ecb, ecb),
                              base(paths={"/p": {m: {"responses": {}, "callbacks": {"x": {"/p": eqj, "/q": eqj}, "y": {"/p": eqj}}} for m in ("get", "put")},
                                          "/q": {"get": {"responses": {}, "callbacks": {"x": {"/p": eqj, "/q": eqj}, "y": {"/p": eqj}}}}}))
    out["two_sections"] = ("opg::describe_api! { paths: { (\"a\"): { GET: { 200: None } } }, tags: { x }, paths: { (\"b\"): { PUT: { 200: None } } }, tags: { w } }",
                           base(tags=[{"name": "w"}, {"name": "x"}], paths={"/a": {"get": {"responses": {"200": {"description": "OK"}}}}, "/b": {"put": {"responses": {"200": {"description": "OK"}}}}}))
    # variables named like the properties around them mean what they meant outside
    vs = {"title": "vt", "version": "vv", "description": "vd"}
    pre = "let title = \"vt\"; let version = String::from(\"vv\"); let description = \"vd\"; "
    for i, order in enumerate(itertools.permutations(vs)):
        for j, use in enumerate(itertools.product(vs, repeat=3)):
            if len(set(use)) == 1 and use[0] != order[i % 3]: continue
            info = {k: vs[u] for k, u in zip(order, use)}
            out["info_names_%d_%d" % (i, j)] = ("{ %sopg::describe_api! { info: { %s } } }" % (pre, ", ".join("%s: %s" % (k, u) for k, u in zip(order, use))), base(info={k: info[k] for k in ("title", "description", "version")}))
    out["empty"] = ("opg::describe_api! {}", base())
    out["empty_sections"] = ("opg::describe_api! { info: {}, tags: {}, servers: {}, security_schemes: {}, paths: {}, }", base())
    out["empty_items"] = ("opg::describe_api! { paths: { (\"p\"): {}, (\"q\"): { parameters: {}, GET: { tags: {}, parameters: {}, security: {}, callbacks: {}, } } } }", base(paths={"/p": {}, "/q": {"get": {"responses": {}}}}))
    out["empty_callbacks"] = ("opg::describe_api! { paths: { (\"p\"): { GET: { callbacks: { \"x\": {}, y: {}, z: { (\"k\"): {}, }, \"w\": { (\"k\"): {}, }, } } } } }", base(paths={"/p": {"get": {"responses": {}, "callbacks": {"w": {"/k": {}}, "x": {}, "y": {}, "z": {"/k": {}}}}}}))
    return out

def run(ctx, opts=None, focus=None, napis=(330, 1600), extra=None, rule=None, also=None):
    """opts(rng) -> O; focus(doc) picks what is compared (default: everything)."""
    units, want, srcs = [], {}, {}
    feats = {}
    def add(name, body, expr, doc):
        units.append(Unit(name, body + "pub fn run() { let doc = %s; rt::doc(%s, \"doc\", &doc); }\n" % (expr, rs(name))))
        want[name], srcs[name] = doc, expr
    for k in range(ctx.n(*napis)):
        g = Gen(random.Random("%s/%d/%d" % (ctx.prop, ctx.seed, k)))
        defs = base_defs(g)
        if g.rng.random() < .3: defs += rand_program(Gen(g.rng, "X"), mixed(g.rng, Opts(depth=1, external_units=True)), 3)
        o = opts(g.rng) if opts else O(depth=g.rng.choice([0, 1, 2, 3]))
        o.once = "a%d" % k
        a = ApiGen(g, o, defs).build()
        add("a%d" % k, "".join(d.rust(g) for d in defs), a.rust(), a.doc)
        for f in a.feat: feats[f] = feats.get(f, 0) + 1
    if extra:
        for name, (body, expr, doc) in extra(ctx).items(): add(name, body, expr, doc)
    observe(ctx, units, want, srcs, focus, also)
    ctx.coverage["features_used"] = feats
    ctx.coverage["rule"] = rule

def observe(ctx, units, want, srcs, focus=None, also=None):
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins):
        ctx.violation("a description in the documented grammar does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=srcs[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("building the document crashed", unit=name, rc=rc, stderr=err[-800:], source=srcs[name][:4000])
    for e in events:
        if e["ev"] != "doc": continue
        w, got = want[e["case"]], e["json"]
        bad = list(find_dups(got))
        bad += (diff(focus(w), focus(got)) if focus else diff(w, got) + order(w, got))
        bad += yaml_diff(ctx, got, e["yaml"])
        if also: bad += also(got, e["case"])
        ctx.saw(json.dumps(focus(w) if focus else w, sort_keys=True), trivial=size(w) < 8)
        ctx.count("nodes_compared", size(got))
        if bad: ctx.violation("the document differs from the declaration", case=e["case"], problems=bad[:6], source=srcs[e["case"]][:5000])
        else: ctx.sample(dict(paths=list(got.get("paths", {})), tags=got.get("tags")), 4)
    return events

def order(w, got):
    """Declared order of paths and callback paths."""
    out = []
    def keys(a, b, where):
        if isinstance(a, dict) and isinstance(b, dict) and list(a) != list(b): out.append("%s: order %r, expected %r" % (where, list(b), list(a)))
    keys(w.get("paths"), got.get("paths"), "paths")
    for u, it in w.get("paths", {}).items():
        for m, op in it.items():
            if not isinstance(op, dict): continue
            for n, cb in op.get("callbacks", {}).items():
                try: keys(cb, got["paths"][u][m]["callbacks"][n], "callback paths")
                except (KeyError, TypeError): pass
    return out[:3]

def extra(ctx):
    out = {n: ("", "{ %s }" % m, d) for n, (m, d) in fixed().items()}
    # the macro as seen from a module that imports nothing
    g = Gen(random.Random("%s/%d/bare" % (ctx.prop, ctx.seed)))
    for k in range(6):
        a = ApiGen(g, O(schemes=0, security=0, callbacks=.9, depth=0, npaths=(3,), nops=(2, 3)), ()).build()
        out["bare%d" % k] = ("pub mod bare { pub fn doc() -> ::opg::Opg %s }\n" % a.rust(), "bare::doc()", a.doc)
    codes = list(range(100, 600))
    for i in range(0, 500, 50):
        for described in (False, True):
            e, d = all_codes(codes[i:i + 50], described)
            out["codes%d%s" % (i, "d" if described else "")] = ("", e, d)
    e, d = all_codes([0, 1, 99, 600, 700, 999, 1000, 65535], False)
    out["codes_odd"] = ("", e, d)
    return out

def main(ctx):
    run(ctx, extra=extra, rule="random describe_api! programs (sections, properties and separators in any order, all methods, all parameter, body and response forms, callbacks, hostile text, expressions and variables), every status code 100-599 with and without a description, and single-feature programs; the whole document is compared with the reference; distinct by document")
