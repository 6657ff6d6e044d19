"""C20: output is deterministic and ordered."""
from history import *
from apigen import *
import concurrent.futures

METHOD_KEYS = [m.lower() for m in METHODS]

def ordered(doc, where):
    """Problems with the order of named entries and operations."""
    out = []
    def srt(keys, what, key=None):
        keys = list(keys)
        if keys != sorted(keys, key=key): out.append("%s: %s are not in order: %r" % (where, what, keys[:12]))
    def schema(s):
        if not isinstance(s, dict): return
        if isinstance(s.get("properties"), dict):
            srt(s["properties"], "properties")
            for v in s["properties"].values(): schema(v)
        for k in ("items", "additionalProperties"): schema(s.get(k))
        for k in ("oneOf", "anyOf", "allOf"):
            for v in s.get(k, []): schema(v)
    def params(ps):
        srt([p["name"] for p in ps], "parameters")
        for p in ps: schema(p.get("schema"))
    def item(it):
        ms = [k for k in it if k in METHOD_KEYS]
        if ms != [m for m in METHOD_KEYS if m in ms]: out.append("%s: operations are in order %r" % (where, ms))
        params(it.get("parameters", []))
        for m in ms:
            op = it[m]
            params(op.get("parameters", []))
            srt(op.get("responses", {}), "responses", key=int)
            for r in op.get("responses", {}).values():
                for c in r.get("content", {}).values(): schema(c.get("schema"))
            for c in op.get("requestBody", {}).get("content", {}).values(): schema(c.get("schema"))
            for cb in op.get("callbacks", {}).values():
                for i in cb.values(): item(i)
    comps = doc.get("components", {})
    srt(comps.get("schemas", {}), "components"); srt(comps.get("securitySchemes", {}), "security schemes")
    for s in comps.get("schemas", {}).values(): schema(s)
    srt([t["name"] for t in doc.get("tags", [])], "tags")
    for i in doc.get("paths", {}).values(): item(i)
    return out

def declared(want, got, where):
    """Declared order: paths, callback paths; servers, alternatives, enum values and required lists are arrays and compared as such."""
    out = []
    def lists(a, b, p):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in a:
                if k in b: lists(a[k], b[k], p + "." + k)
        elif isinstance(a, list) and isinstance(b, list):
            if a != b and sorted(map(lambda x: json.dumps(x, sort_keys=True), a)) == sorted(map(lambda x: json.dumps(x, sort_keys=True), b)): out.append("%s: %s is in another order than declared: %s" % (where, p, short(b)))
            elif len(a) == len(b):
                for i, (x, y) in enumerate(zip(a, b)): lists(x, y, "%s[%d]" % (p, i))
    lists(want, got, "$")
    def keys(a, b, p):
        if isinstance(a, dict) and isinstance(b, dict) and list(a) != list(b) and sorted(a) == sorted(b): out.append("%s: %s are in order %r, declared %r" % (where, p, list(b), list(a)))
    keys(want.get("paths"), got.get("paths"), "paths")
    for u, it in want.get("paths", {}).items():
        for m, op in it.items():
            if isinstance(op, dict):
                for n, cb in op.get("callbacks", {}).items():
                    try: keys(cb, got["paths"][u][m]["callbacks"][n], "callback paths")
                    except (KeyError, TypeError): pass
    return out

WIDE = "".join
def wide(r):
    """Types and a document with many entries of every kind: an unordered map or set cannot hide."""
    ns = ["k%02d" % i for i in range(24)]; r.shuffle(ns)
    vs = ["V%02d" % i for i in range(24)]; r.shuffle(vs)
    ds = [Def("Many", "struct", [Field(n, BYNAME["u8"], **({"optional": True} if r.random() < .3 else {})) for n in ns]),
          Def("Strs", "enum", (), [Variant(v, "unit") for v in vs]),
          Def("Repr", "enum", (), [Variant(v, "unit") for v in vs], repr="u8")]
    uses = [Def("Z%02d" % i, "struct", [Field("v", BYNAME["u8"])]) for i in range(24)]
    order = list(uses); r.shuffle(order)
    for kind in ("external", "internal", "adjacent", "untagged"):
        d = Def("E" + kind, "enum", (), [Variant(v, "new", [Field(None, DefT(u))]) if kind != "internal" else Variant(v, "struct", [Field("x", DefT(u)), Field("a", BOOL)]) for v, u in zip(vs, order)])
        if kind in ("internal", "adjacent"): d.tag = "t"
        if kind == "adjacent": d.content = "c"
        d.untagged = kind == "untagged"
        ds.append(d)
    ds.append(Def("Tup", "tuple", [Field(None, DefT(u)) for u in order[:12]]))
    return uses + ds

def wide_api(g, defs):
    a = ApiGen(g, O(depth=1), defs)
    r = g.rng
    ns = lambda p, n=16: r.sample(["%s%02d" % (p, i) for i in range(40)], n)
    tags, qs, hs, codes, paths, srv, cbs, sch = ns("t"), ns("q"), ns("h"), r.sample(range(200, 510), 20), ns("p"), ns("s"), ns("c", 8), ns("sec")
    U8 = BYNAME["u8"].ref([])
    par = sorted([{"name": q, "in": "query", "schema": U8} for q in qs] + [{"name": h, "in": "header", "required": True, "schema": {"type": "string"}} for h in hs], key=lambda p: p["name"])
    ptext = "parameters: { %s }" % ", ".join(r.sample(["(query %s: u8)" % q for q in qs] + ["(header \"%s\")" % h for h in hs], 32))
    types = r.sample(defs, len(defs))
    op = "{ tags: {%s}, %s, security: { %s }, %s, callbacks: { %s } }" % (", ".join(tags), ptext, ", ".join("\"%s\" && \"%s\"[\"b\", \"a\"]" % (x, y) for x, y in zip(sch, sch[1:])), ", ".join("%d: %s" % (c, types[i % len(types)].ident) for i, c in enumerate(codes)),
          ", ".join("%s: { %s }" % (c, ", ".join("(\"%s\"): {}" % p for p in paths)) for c in cbs))
    for d in types[:20]: a.ref(DefT(d))
    oj = {"tags": tags, "security": [dict(sorted({x: [], y: ["b", "a"]}.items())) for x, y in zip(sch, sch[1:])], "responses": {str(c): {"description": REASONS.get(c, ""), "content": {"application/json": {"schema": {"$ref": "#/components/schemas/" + types[i % len(types)].name}}}} for i, c in sorted(enumerate(codes), key=lambda x: x[1])},
          "parameters": par, "callbacks": {c: {"/" + p: {} for p in paths} for c in sorted(cbs)}}
    simple = {"responses": {}}
    body = "paths: { (\"first\"): { %s }, %s }" % (", ".join("%s: %s" % (m, op if m == "POST" else "{}") for m in r.sample(METHODS, 8)), ", ".join("(\"%s\"): { %s }" % (p, ptext) for p in paths))
    macro = "opg::describe_api! { tags: { %s }, servers: { %s }, security_schemes: { %s }, %s }" % (", ".join(tags), ", ".join(rs(s) for s in srv), ", ".join("(apiKey \"%s\"): { name: \"n\" }" % s for s in sch), body)
    used = closure([d for d in types[:20]])
    doc = {"openapi": "3.0.3", "info": {"title": "", "version": ""}, "tags": [{"name": t} for t in sorted(tags)], "servers": [{"url": s} for s in srv],
           "paths": dict([("/first", {m.lower(): oj if m == "POST" else simple for m in METHODS})] + [("/" + p, {"parameters": par}) for p in paths]),
           "components": {"schemas": {k: used[k] for k in sorted(used)}, "securitySchemes": {s: {"type": "apiKey", "in": "header", "name": "n"} for s in sorted(sch)}}}
    return "{ %s }" % macro, doc

GENERIC = """pub trait Tr { type A; type B; } pub struct I; impl Tr for I { type A = u8; type B = String; }
#[derive(Serialize, OpgModel)] pub struct G<'a, A, B, C, D, T: Tr, const N: usize> where T::A: Serialize, T::B: Serialize { z: A, y: Vec<B>, x: &'a C, w: Option<D>, v: T::A, u: T::B, t: Vec<u8> }
"""

def run(ctx):
    cases = []      # (name, source, expression, reference document)
    for k in range(ctx.n(24, 250)):
        g = Gen(random.Random("C20/%d/%d" % (ctx.seed, k)))
        defs = rand_program(g, Opts(depth=2, recursive=.4, docs=.2, external_units=True, nfields=(1, 3, 8), nvariants=(2, 4, 8)), g.rng.choice([4, 8]))
        a = ApiGen(g, O(depth=2, npaths=(2, 3, 5), nops=(1, 3, 8), sections=1, callbacks=.4), defs).build()
        cases.append(("a%d" % k, "".join(d.rust(g) for d in defs), a.rust(), a.doc))
    for k in range(ctx.n(3, 12)):
        g = Gen(random.Random("C20/%d/w%d" % (ctx.seed, k)))
        defs = wide(g.rng)
        e, doc = wide_api(g, defs)
        cases.append(("w%d" % k, "".join(d.rust(g) for d in defs), e, doc))
    cases.append(("generic", GENERIC, "{ let mut doc = opg::Opg::default(); doc.components.mention_schema::<G<'static, u8, bool, char, i64, I, 3>>(false, &Default::default()); doc }",
                  None))
    comp = ctx.n(2, 4)
    ctx.coverage["compilations"], ctx.coverage["processes"] = comp, 0
    runs = []
    r = ctx.rng
    for c in range(comp):
        # the same declarations, compiled afresh, at other places of the source
        order = list(cases); r.shuffle(order)
        units = []
        for name, src, e, doc in order:
            units.append(Unit(name, "%s%s\npub fn make() -> opg::Opg %s\n" % ("\n" * r.randrange(9), src, e), call=False))
        calls = "".join('  ("%s", super::%s::make as fn() -> opg::Opg),\n' % (n, n) for n, _, _, _ in order)
        units.append(Unit("zz_main", """
const ALL: &[(&str, fn() -> opg::Opg)] = &[
%s];
pub fn run() {
    let seed: u64 = std::env::var("MIX").unwrap().parse().unwrap();
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let mut order: Vec<usize> = (0..ALL.len()).collect();
    for i in (1..order.len()).rev() { let j = (next() %% (i as u64 + 1)) as usize; order.swap(i, j); }
    // in sequence, in one order and back, each with what the others may have left behind
    for &i in order.iter().chain(order.iter().rev()) { rt::generation(ALL[i].0, "sequence", &ALL[i].1()); }
    // in threads that start together
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(6));
    let hs: Vec<_> = (0..6usize).map(|t| { let (order, barrier) = (order.clone(), barrier.clone()); std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        barrier.wait();
        for k in 0..order.len() {
            let (name, make) = ALL[order[(k + t * (seed as usize %% 7)) %% order.len()]];
            rt::generation(name, &format!("thread{}", t), &make());
        }
    }).unwrap() }).collect();
    for h in hs { h.join().unwrap(); }
    if std::env::var("TEXTS").is_ok() { for (name, make) in ALL { rt::texts(name, &make()); } }
}
""" % calls))
        # one binary: everything lives in one process
        bad = ctx.build({"det%d" % c: units}, sub="c%d" % c)
        if bad:
            names = {n for _, n, _ in bad}
            if names == {"zz_main"} or len(bad) > len(cases) // 2: raise Inconclusive("the workload does not compile:\n" + bad[0][2][0][:3000])
            return ctx.violation("a program in the supported subset does not compile", unit=bad[0][1], diagnostics=[x[:1500] for x in bad[0][2][:2]])
        runs.append("det%d" % c)
    procs = [(b, i) for b in runs for i in range(ctx.n(6, 30))]
    def go(p):
        b, i = p
        env = dict(ENV, MIX=str(ctx.seed * 1000 + i), TZ=["UTC", "Asia/Tokyo"][i % 2], LANG=["C", "tr_TR.UTF-8"][i % 2], JUNK="x" * (i * 777))
        if i == 0: env["TEXTS"] = "1"
        q = subprocess.run([os.path.join(ctx.bin_dir, b)], env=env, cwd=["/", "/tmp"][i % 2], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        return p, q
    seen, place, want, crashed = {}, {}, {c[0]: c[3] for c in cases}, 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for (b, i), q in ex.map(go, procs):
            ctx.count("processes")
            if q.returncode != 0: crashed += 1; ctx.violation("generation crashed", binary=b, rc=q.returncode, stderr=q.stderr[-800:].decode("utf8", "replace")); continue
            for l in q.stdout.split(b"\n"):
                if not l.strip(): continue
                e = loads(l)
                if e["ev"] == "gen":
                    key = (e["json"], e["yaml"])
                    ctx.count("generations")
                    where = "%s process %d %s" % (b, i, e["place"])
                    ctx.saw((e["case"], b, i, e["place"]))
                    seen.setdefault(e["case"], {}).setdefault(key, where)
                elif e["ev"] == "texts":
                    bad = ordered(e["json"], "json") + (ordered(e["yaml"], "yaml") if e["yaml"] is not None else [])
                    if want[e["case"]] is not None: bad += declared(want[e["case"]], e["json"], "json") + (declared(want[e["case"]], e["yaml"], "yaml") if e["yaml"] is not None else [])
                    ctx.count("documents_checked_for_order")
                    if bad: ctx.violation("a document is not in order", case=e["case"], problems=bad[:5])
    for case, keys in seen.items():
        if len(keys) > 1: ctx.violation("the same declarations gave different bytes", case=case, places=list(keys.values())[:4], variants=len(keys))
    ctx.sample(dict(documents=len(cases), example={c: list(k)[0][0] for c, k in list(seen.items())[:3]}))
    ctx.coverage["rule"] = "documents over random programs, and wide ones with 16-40 entries of every kind, generated repeatedly in sequence (in random order and back), in six threads at once, in several processes with different environments and in fresh compilations with the declarations at other places of the source; bytes of JSON and YAML must agree, and the order of every kind of entry is checked; distinct by document, compilation, process and thread"
