"""C09: schema generation terminates on recursive types and builds each type once."""
from driver import *
from graph import *
from history import *

def fixed_graphs(r):
    """Shapes where a missing memo or reservation shows: loops through every wrapper, rings, complete graphs, ladders."""
    out = []
    mk = lambda n: [Node(k, "N%d" % k) for k in range(n)]
    def link(a, b, w=""): a.edges.append(Edge(b, w, False, NOP, "f%d" % len(a.edges)))
    for w in VIAS:
        for shape in ("object", "oneOf"):
            g = mk(1); link(g[0], g[0], w); g[0].shape = shape; out.append(("self " + w, g))
            g = mk(2); link(g[0], g[1], w); link(g[1], g[0], r.choice(VIAS)); g[1].shape = shape; out.append(("pair " + w, g))
        g = mk(16)
        for k in range(16): link(g[k], g[(k + 1) % 16], w)
        out.append(("ring " + w, g))
        g = mk(16)
        for a in g:
            for b in g[a.k + 1:]: link(a, b, w)
        out.append(("dag " + w, g))
        g = mk(16)
        for k in range(15): link(g[k], g[k + 1], w); link(g[k], g[k + 1], r.choice(VIAS)); link(g[k], g[k + 1], "Box")
        out.append(("ladder " + w, g))
    g = mk(16)
    for a in g:
        for b in g: link(a, b, r.choice(VIAS))
    out.append(("complete", g))
    # a loop through an unnamed node and through one described in place (behind a collection)
    for w in ("Vec", "Map", "Tup", "OptVec", "Arr"):
        g = mk(3); g[1].name = None
        link(g[0], g[1], w); link(g[1], g[0], ""); link(g[1], g[2], ""); link(g[2], g[0], "Option"); out.append(("through unnamed " + w, g))
        g = mk(3); g[1].inplace = True
        link(g[0], g[1], ""); link(g[1], g[2], w); link(g[2], g[0], "Option"); link(g[2], g[1], ""); out.append(("through newtype " + w, g))
    return out

def graphs(ctx, r):
    progs, meta = [], []
    todo = [(what, g, None) for what, g in fixed_graphs(r)]
    for gi in range(ctx.n(3000, 25000)):
        todo.append(("random", rand_graph(r, r.choice([1, 2, 3, 5, 8, 16]), density=r.choice([1, 2, 4]), unnamed=r.choice([0, .1]), inline=r.choice([0, .1])), None))
    for what, nodes, _ in todo:
        roots = [Edge(r.choice(nodes[:1] if what != "random" else nodes), r.choice(VIAS), r.random() < .1) for _ in range(r.choice([1, 2, 3]))]
        roots.append(Edge(roots[0].to, roots[0].w, roots[0].inline))     # the same once more
        ops, exp, have = [{"op": "graph", "nodes": [n.json() for n in nodes], "depth": 400, "total": 60000}], [None], {}
        for e in roots:
            try: bound = simulate(nodes, e, have)
            except OverflowError: break
            if sum(bound.values()) > 3000: break       # unnamed and inlined uses alone are that many
            m = []
            want = e.ref(m)
            have = closure_in(m, have)
            ops.append(dict(e.json(), op="mention")); exp.append((bound, want, dict(have)))
        progs.append(ops); meta.append((what, nodes, exp))
    start(ctx)
    out, _ = interpret(ctx, progs)
    most = 0
    for (what, nodes, exp), ev, prog in zip(meta, out, progs):
        if len(ev) < len(prog) or "panic" in ev[-1]:
            ctx.violation("generation did not finish within its bound" if "RUNAWAY" in str(ev[-1:]) else "generation crashed", shape=what, program=prog, events=ev[-1:])
            continue
        for w, e, op in zip(exp, ev, prog):
            if w is None: continue
            bound, want, have = w
            bad = ["node %s was built %d times, at most %d expected" % (k, n, bound.get(int(k), 0)) for k, n in e["builds"].items() if n > bound.get(int(k), 0)]
            bad += diff(want, e["ref"], "result") + diff(have, e["components"].get("schemas", {}), "schemas")
            if e["deepest"] > max(1, sum(bound.values())): bad.append("recursion depth %d with %d builds allowed" % (e["deepest"], sum(bound.values())))
            ctx.saw((what, json.dumps(op, sort_keys=True), json.dumps(have, sort_keys=True)), trivial=not e["builds"])
            ctx.count("builds_observed", sum(e["builds"].values()))
            most = max(most, e["deepest"])
            if not e["builds"]: ctx.count("mentions_without_any_build")
            if bad: ctx.violation("a type graph is not built once", shape=what, problems=bad[:5], op=op, program=prog); break
    ctx.coverage["deepest_recursion"] = most
    ctx.coverage["graph_shapes"] = sorted({w for w, _, _ in todo})

class Tick(Prim):
    """Field that counts how often the schema around it is built; the reference counts along."""
    n = 0
    def __init__(self, k): Prim.__init__(self, "rt::Tick<%d>" % k, {"type": "boolean"}, ["rt::Tick"]); self.k = k
    def schema(self, m): self.n += 1; return Prim.schema(self, m)
    def ref(self, m, inline=False, p=NOP): self.n += 1; return Prim.ref(self, m, inline, p)

def add_ticks(defs):
    ticks = []
    for i, d in enumerate(defs):
        if d.transparent or d.kind == "newtype": continue
        t = Tick(i)
        if d.kind == "struct": d.fields.append(Field("tick_", t))
        elif d.kind == "tuple": d.fields.append(Field(None, t))
        else:
            v = next((v for v in d.live() if v.style in ("struct", "tuple")), None)
            if v is None: continue
            v.fields.append(Field("tick_" if v.style == "struct" else None, t))
        ticks.append(t)
    return ticks

def chain(n, per):
    """T0 -> T1 -> ... each `per` times, the last one back to the first."""
    ds = [Def("T%d" % i, "struct") for i in range(n)]
    for i, d in enumerate(ds):
        if i + 1 < n: d.fields = [Field("f%d" % k, [Opt, lambda t: Wrap("Box", t), lambda t: Seq("Vec", t), lambda t: t][k % 4](DefT(ds[i + 1]))) for k in range(per)]
        else: d.fields = [Field("back", Opt(Wrap("Box", DefT(ds[0]))))]
    return ds

def derived(ctx, r):
    hists, ticks = [], {}
    def add(name, g, defs, roots):
        ts = add_ticks(defs)
        runs = [[]]
        h = Hist(name, defs, runs, "".join(d.rust(g) for d in defs))
        lines = [" let mut cx = opg::Components::new();\n"]
        have, exp = {}, []
        for i, t in enumerate(roots + roots[:1]):
            for x in ts: x.n = 0
            m = []
            want = t.ref(m); have = closure_in(m, have)
            bound = {x.k: x.n for x in ts}
            if sum(bound.values()) > 2000: break
            exp.append((t, want, dict(have), bound))
            lines.append(" rt::mention_in::<%s>(%s, \"t%d\", false, &Default::default(), &mut cx); rt::ticks(%s, \"t%d\");\n" % (t.rust, rs(name), i, rs(name), i))
        ticks[name] = exp
        units.append(Unit(name, h.source + "pub fn run() {\n" + "".join(lines) + "}\n"))
    units = []
    for i, (n, per) in enumerate([(2, 1), (3, 8), (12, 3), (30, 2), (30, 3), (60, 2)] + ([(150, 2)] if ctx.thorough else [])):
        g = Gen(random.Random("%s/%d/c%d" % (ctx.prop, ctx.seed, i)))
        ds = chain(n, per)
        add("chain%d" % i, g, ds, [DefT(ds[0]), Seq("Vec", DefT(ds[n // 2]))])
    for i in range(ctx.n(150, 700)):
        g = Gen(random.Random("%s/%d/d%d" % (ctx.prop, ctx.seed, i)))
        defs = rand_program(g, mixed(g.rng, Opts(depth=1, recursive=.9, docs=.05, skip=.02, inline=.03, cont_inline=.03, rename=.05, external_units=True, kinds=("struct",) * 5 + ("tuple", "external", "untagged", "internal", "adjacent", "newtype")), ("recursive",)), g.rng.choice([3, 5, 8]))
        add("h%d" % i, g, defs, [rand_use(g, d) for d in g.rng.sample(defs, min(3, len(defs)))])
    src = {u.name: u.body for u in units}
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins): ctx.violation("a recursive definition in the supported subset does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("generation did not terminate normally", unit=name, rc=rc, stderr=err[-800:], source=src[name][:4000])
    by = {(e["ev"], e["case"], e["id"]): e for e in events if e["ev"] in ("mention", "ticks")}
    for name, exp in ticks.items():
        for i, (t, want, have, bound) in enumerate(exp):
            e, k = by.get(("mention", name, "t%d" % i)), by.get(("ticks", name, "t%d" % i))
            if e is None or k is None: break
            bad = ["%s is built %d times, at most %d expected" % (a, n, bound.get(int(a), 0)) for a, n in k["ticks"].items() if n > bound.get(int(a), 0)]
            bad += diff(want, e["ref"], "result") + diff(have, e["components"].get("schemas", {}), "schemas")
            ctx.saw((name, i, t.rust, json.dumps(have, sort_keys=True)))
            ctx.count("derived_builds_observed", sum(k["ticks"].values()))
            if bad: ctx.violation("derived types are not built once", case=name, type=t.rust, problems=bad[:5], source=src[name][:4000]); break
            ctx.sample(dict(type=t.rust, components=len(have), builds=k["ticks"]), 4)

def main(ctx):
    graphs(ctx, ctx.rng)
    derived(ctx, ctx.rng)
    ctx.coverage["rule"] = "mentions of instrumented types in loops through every wrapper, rings, ladders, complete and random graphs, and of generated recursive derived types with counting fields (chains of up to 60 types with 2-3 uses each); builds per type, recursion depth, result and components are compared with the bound after every mention, the first one repeated at the end; distinct by mention and components"
