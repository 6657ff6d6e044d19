"""C06: fixed schemas of standard types under wrapping and nesting, in every feature combination."""
from conform import *
from defgen import rand_def, Opts

def systematic(g):
    """Every scalar bare and in every constructor, every arity and a range of array lengths."""
    r = g.rng
    out = []
    for t in PRIMS + [STRSLICE]:
        if t.sized: out += [t, Opt(t), Opt(Opt(t)), Seq("Vec", t), Tup([t]), Map("HashMap", STRING, t), Seq("array", t, 3)]
        for k in Wrap.KINDS:
            if Wrap.ok(k, t): out.append(Wrap(k, t)); out.append(Opt(Wrap(k, t))); out.append(Seq("Vec", Wrap(k, t)))
        for k in ("HashSet", "BinaryHeap", "LinkedList", "VecDeque"):
            if t.sized and Seq.ok(k, t): out.append(Seq(k, t))
    some = [t for t in PRIMS]
    for n in list(range(0, 65)): out.append(Seq("array", r.choice(some), n))
    for n in (100, 255, 256, 1000, 1024, 65536): out.append(Seq("array", r.choice([BYNAME["u8"], BYNAME["bool"]]), n))
    for n in range(2, 11):
        for _ in range(6): out.append(Tup([r.choice(some) if r.random() < .6 else g.ty(1) for _ in range(n)]))
        x = r.choice(some)
        out.append(Tup([x] * n))
    for k in KEYS:
        for kind in Map.KINDS: out.append(Map(kind, k, r.choice(some)))
    for t in r.sample(some, 8): out.append(Seq("slice", t))
    out += [Seq("slice", Opt(STRING)), Opt(UNITT), Seq("Vec", UNITT), Map("BTreeMap", STRING, UNITT), Opt(Tup([UNITT, UNITT]))]
    # deep chains
    for n in (5, 10, 20, 40):
        for con in (lambda t: Opt(t), lambda t: Wrap("Box", t), lambda t: Seq("Vec", t), lambda t: Tup([t]), lambda t: Map("HashMap", STRING, t), lambda t: Seq("array", t, 2),
                    lambda t: Tup([t, BOOL]), lambda t: Opt(Seq("Vec", t)), lambda t: Opt(Wrap("Arc", t))):
            t = r.choice(some)
            for _ in range(n): t = con(t)
            out.append(t)
    return out

def run(ctx):
    g = Gen(random.Random("C06/%d" % ctx.seed))
    tys = systematic(g)
    tys += [g.ty(g.rng.choice([2, 3, 4, 5])) for _ in range(ctx.n(900, 12000))]
    cases, per = [], 40
    def case(name, ts):
        probes = []
        for i, t in enumerate(ts):
            probes.append(("s%d" % i, "schema", t, False, NOP))
            probes.append(("m%d" % i, "mention", t, False, NOP))
            if t.sized: probes.append(("n%d" % i, "name", t, False, NOP))
            if g.rng.random() < .3:
                p = Params(*(x if g.rng.random() < .4 else None for x in ("de\"sc", g.rng.random() < .5, "fmt", "exa", ["v1", "v2"])))
                probes.append(("p%d" % i, "mention", t, g.rng.random() < .3, p))
            if g.rng.random() < .3: probes.append(("i%d" % i, "mention", t, True, NOP))
        return Case(name, [], probes)
    for k in range(0, len(tys), per): cases.append(case("t%d" % (k // per), tys[k:k + per]))
    # named types at the leaves: the wrappers must not lose, inline or alter them
    for k in range(ctx.n(16, 120)):
        d = Def("Named", "struct", [Field("a", BYNAME["u8"])])
        e = Def("Strs", "enum", (), [Variant("A", "unit"), Variant("B", "unit")])
        n = Def("New", "newtype", [Field(None, g.prim())])
        i = Def("Inl", "struct", [Field("x", DefT(d))], inline=True)
        ds = [d, e, n, i]
        kinds = ["untagged", "internal", "external", "adjacent", "repr", "tuple", "struct", "newtype", "strings"]
        for j in range(3): ds.append(rand_def(g, Opts(depth=1, nfields=[1, 2], nvariants=[1, 1, 2], recursive=0, docs=.2), list(ds), (), kinds[(k * 3 + j) % len(kinds)], "Rand%d" % j))
        probes = []
        for j, x in enumerate(ds):   # the bare schema behind every transparent wrapper
            for w in Wrap.KINDS:
                if Wrap.ok(w, DefT(x)): probes.append(("w%d%s" % (j, w), "schema", Wrap(w, DefT(x)), False, NOP))
            probes.append(("o%d" % j, "schema", Opt(DefT(x)), False, NOP))
        for j in range(20):
            t = g.ty(g.rng.choice([1, 2, 3, 4]), ds)
            probes += [("s%d" % j, "schema", t, False, NOP), ("m%d" % j, "mention", t, False, NOP), ("n%d" % j, "name", t, False, NOP)]
        cases.append(Case("n%d" % k, ds, probes))
    run_cases(ctx, cases)
    ctx.coverage["types"] = len(tys)
    # the same types under the other feature sets of the crate
    nouuid, nochrono = (lambda t: "uuid::" not in t.rust), (lambda t: "chrono::" not in t.rust)
    for n, (f, ok) in enumerate([("", lambda t: nouuid(t) and nochrono(t)), ('"uuid"', nochrono), ('"chrono"', nouuid), ('"uuid", "chrono"', lambda t: True)]):
        for dflt in ("", "default-features = false, "):
            if n == 3 and not dflt: continue   # the main run
            label = "f%d%s" % (n, "n" if dflt else "d")
            sel = [t for t in systematic(g) if ok(t) and (not dflt or small_arrays(t))]
            g.rng.shuffle(sel)
            lens = [Seq("array", g.prim(ok), k) for k in range(1, 33)] if dflt else []
            sel = lens + sel[:ctx.n(270, 810)]
            feature_run(ctx, [case("%s_%d" % (label, k), sel[k * 40:k * 40 + 40]) for k in range((len(sel) + 39) // 40)], label, dflt, f)
    ctx.coverage["rule"] = "every scalar in every wrapper/collection, arities 1-10, array lengths 0-64 and more, chains to depth 40, random nesting; each observed as get_schema and as a mention; a case is one observation, distinct by type and schema"

def small_arrays(t):
    if isinstance(t, Tup): return all(small_arrays(x) for x in t.ts)
    if isinstance(t, Seq) and t.kind == "array" and not 1 <= t.n <= 32: return False
    return small_arrays(t.t) if hasattr(t, "t") else True

TOML = CARGO_TOML.replace('features = ["uuid", "chrono"]', '@@')

def feature_run(ctx, cases, label, dflt, feats):
    n = ctx.coverage.get("schema_nodes_compared", 0)
    run_cases(ctx, cases, nbin=3, sub=label, toml=TOML.replace("@@", "%sfeatures = [%s]" % (dflt, feats)))
    ctx.count("feature_runs")
    ctx.log("features", label, "compared", ctx.coverage.get("schema_nodes_compared", 0) - n)
