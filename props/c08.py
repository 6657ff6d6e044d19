"""C08: registration is order-independent, idempotent and never overwrites."""
from driver import *
from graph import *
from history import *

def scheme(r, k):
    t = r.choice(["basic", "bearer", "apiKey"])
    return {"t": t, "description": "d%d" % k, "format": "f%d" % k, "in": r.choice(["query", "header", "cookie"]), "name": "n%d" % k}

def scheme_json(s):
    if s["t"] == "apiKey": return {"type": "apiKey", "in": s["in"], "name": s["name"], "description": s["description"]}
    return dict({"type": "http", "scheme": s["t"], "description": s["description"]}, **({"bearerFormat": s["format"]} if s["t"] == "bearer" else {}))

def graphs(ctx, r):
    progs, meta = [], []
    for gi in range(ctx.n(2100, 15000)):
        nodes = rand_graph(r, r.choice([1, 2, 3, 4, 6, 10, 16]), density=r.choice([1, 2, 3]))
        roots = [Edge(r.choice(nodes), r.choice(VIAS), r.random() < .15, rand_params(r, .2)) for _ in range(r.choice([1, 2, 3, 5]))]
        head = {"op": "graph", "nodes": [n.json() for n in nodes], "depth": 300, "total": 100000}
        for perm in range(3):
            order = list(roots)
            r.shuffle(order)
            order += [r.choice(roots) for _ in range(r.choice([0, 1, 3]))]
            if perm: r.shuffle(order)
            ops, exp = [head], [None]
            have, schemes = {}, {}
            for e in order:
                if perm == 2 and r.random() < .5:   # registrations by hand in between
                    x = r.random()
                    if x < .5:
                        n = r.choice([nd.name for nd in nodes if nd.name] + ["hand", "hand2", ""])
                        m = Models(r, [nd.name for nd in nodes if nd.name] or ["hand"], 1).model()
                        ops.append({"op": r.choice(["add", "add_str"]), "name": n, "model": m})
                        have.setdefault(n, model_json(m))
                        exp.append((None, dict(have), dict(schemes)))
                    elif x < .85:
                        n, s = r.choice(["s1", "s2", "é", ""]), scheme(r, r.randrange(99))
                        ops.append({"op": "scheme", "name": n, "scheme": s, "as": None if r.random() < .4 else ("apiKey" if s["t"] == "apiKey" else "http")})
                        schemes.setdefault(n, scheme_json(s))
                        exp.append((("result", n), dict(have), dict(schemes)))
                    else:
                        n = r.choice([nd.name for nd in nodes if nd.name] + ["hand"])
                        ops.append({"op": "contains", "name": n}); exp.append((("result", n in have), None, None))
                m = []
                want = e.ref(m)
                have = closure_in(m, have)
                ops.append(dict(e.json(), op="mention")); exp.append((("ref", want), dict(have), dict(schemes)))
            progs.append(ops); meta.append((gi, perm, exp))
    start(ctx)
    out, _ = interpret(ctx, progs)
    final = {}
    for (gi, perm, exp), ev, prog in zip(meta, out, progs):
        if len(ev) < len(prog) or "panic" in ev[-1]: ctx.violation("a registration crashed", program=prog, events=ev[-1:]); continue
        prev = {}
        for w, e, op in zip(exp, ev, prog):
            if w is None: continue
            bad = []
            if w[0] is not None: bad += diff(w[0][1], e[w[0][0]], "result")
            if w[1] is not None:
                now = e["components"]
                bad += diff(w[1], now.get("schemas", {}), "schemas") + diff(w[2], now.get("securitySchemes", {}), "securitySchemes")
                for sec in ("schemas", "securitySchemes"):
                    for n, s in prev.get(sec, {}).items():
                        if now.get(sec, {}).get(n) != s: bad.append("entry %r of %s was altered by a later registration" % (n, sec))
                prev = now
            ctx.saw((gi, json.dumps(op, sort_keys=True), json.dumps(prev, sort_keys=True)), trivial=not prev)
            ctx.count("registrations_" + op["op"])
            if bad: ctx.violation("a registration history went wrong", problems=bad[:5], op=op, program=prog); break
        if perm < 2: final.setdefault(gi, []).append(prev)
    for gi, f in final.items():
        ctx.count("orders_compared", len(f))
        if any(x != f[0] for x in f): ctx.violation("two orders of the same registrations give different components", graph=gi, components=f[:2])

def derived(ctx, r):
    hists = []
    for i in range(ctx.n(120, 500)):
        g = Gen(random.Random("%s/%d/d%d" % (ctx.prop, ctx.seed, i)))
        defs = rand_program(g, mixed(g.rng, Opts(depth=1, recursive=.5, external_units=True)), g.rng.choice([3, 4, 6]))
        src = "".join(d.rust(g) for d in defs)
        ops = [("mention", rand_use(g, d), False, NOP) for d in defs for _ in range(g.rng.choice([1, 2]))]
        ops += [("mention", DefT(g.rng.choice(defs)), True, NOP), ("schema", rand_use(g, g.rng.choice(defs)), None, None)]
        runs = []
        for k in range(3):
            run = list(ops); g.rng.shuffle(run)
            run += [g.rng.choice(ops) for _ in range(2)]
            if k == 2:
                for d in g.rng.sample(defs, min(2, len(defs))): run.insert(g.rng.randrange(len(run)), ("add", g.rng.choice([d.name, d.name, "ByHand"]), "by hand %d" % g.rng.randrange(99)))
            runs.append(run)
        hists.append(Hist("h%d" % i, defs, runs, src))
    for k, n in enumerate(ctx.n([70, 140], [70, 140, 300])):
        g = Gen(random.Random("C08/%d/b%d" % (ctx.seed, k)))
        defs = big_program(g, n)
        ops = [("mention", DefT(d), False, NOP) for d in defs[::7] + defs[-9:]]
        runs = [ops, ops[::-1], g.rng.sample(ops, len(ops)) + [("mention", DefT(defs[0]), True, NOP), ("mention", DefT(defs[3]), False, NOP)]]
        hists.append(Hist("big%d" % k, defs, runs, "".join(d.rust(g) for d in defs)))
    judge(ctx, hists, execute(ctx, hists))

def main(ctx):
    graphs(ctx, ctx.rng)
    derived(ctx, ctx.rng)
    ctx.coverage["rule"] = "registration histories: random type graphs of instrumented types (3 orders each, repetitions, all wrappers, inlined uses, hand-added models and security schemes with colliding names) and generated programs of derived types (3 orders each); after every step the components must equal the reference and no earlier entry may have changed; distinct by operation and resulting components"
