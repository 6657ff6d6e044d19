"""C10: verify_schemas finds a dangling link anywhere, and only then fails."""
from driver import *

NAMES = ["A", "B", "C", "Pet", "pet", "a/b", "", " ", "é", "#/components/schemas/A", "A ", "AA", "_A", "__", "$A", "0", "r#A", "A<B>", "\u00df", "x" * 80]
HOLDERS = ["M", "_M", "m", "$M", "0", "", " ", "A_", "Z_", "#/components/schemas/M", "\u00fc", "M<T>", "M.N", "zz"]

def nest(path, leaf):
    """A model with the reference `leaf` at the end of a chain of containers."""
    ref = leaf
    for step in reversed(path):
        pad = [{"any": True}, {"inline": {"t": "boolean"}}]
        if step == "items": m = {"t": "array", "items": ref}
        elif step == "add": m = {"t": "object", "props": [], "add": ref}
        elif step == "prop": m = {"t": "object", "props": [["a", pad[1]], ["k", ref], ["z", pad[0]]]}
        elif step == "prop1": m = {"t": "object", "props": [["k", ref]]}
        elif step == "propadd": m = {"t": "object", "props": [["k", pad[1]]], "add": ref}
        elif step == "nullprop": m = {"t": "object", "nullable": True, "description": "d", "props": [["k", ref]], "required": ["k"]}
        else:
            kind, pos = step.split("@")
            items = [pad[1], pad[0]]
            items.insert({"first": 0, "mid": 1, "last": 2}[pos], ref)
            m = {"t": kind, "list": items}
        ref = {"inline": m}
    return ref

STEPS = ["items", "add", "prop", "prop1", "propadd", "nullprop"] + ["%s@%s" % (k, p) for k in ("oneOf", "allOf", "anyOf") for p in ("first", "mid", "last")]

def main(ctx):
    r = ctx.rng
    progs, meta = [], []
    def add(comps, kind, note):
        progs.append([{"op": "components", "schemas": comps}, {"op": "verify"}]); meta.append((comps, kind, note))
    # systematic: one dangling (or resolved) link at the end of every chain of containers up to length 3
    import itertools
    chains = [c for n in range(1, 3) for c in itertools.product(STEPS, repeat=n)]
    deep = list(itertools.product(STEPS, repeat=3))
    chains += deep if ctx.thorough else r.sample(deep, 1500)
    for k, c in enumerate(chains):
        for link in ("Gone", "A"):
            m = nest(c, {"link": link})["inline"]
            add([["A", {"t": "boolean"}], [HOLDERS[k % len(HOLDERS)], m], ["Z", {"t": "object", "props": []}]], "chain", c)
    # long chains, many models, last model, self links, names that differ by case, space or prefix
    for i in range(ctx.n(4500, 40000)):
        names = r.sample(NAMES, sized(r, [0, 1, 2, 3, 5], (6, len(NAMES)), .05))
        pool = names if names and r.random() < .5 else NAMES
        g = Models(r, pool or ["A"], r.choice([1, 2, 3, 4]))
        add([[n, g.model()] for n in names], "random", i)
    # wide containers: the only dangling link among many, at any position, and the only one among many components
    for n in (2, 9, 17, 33, 65, 130, 300):
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            for fill in ({"any": True}, {"link": "A"}, {"inline": {"t": "string"}}, {"inline": {"t": "array", "items": {"link": "A"}}}):
                for leaf in ({"link": "Gone"}, {"inline": {"t": "array", "items": {"link": "Gone"}}}, {"link": "A"}):
                    k = r.choice(["oneOf", "allOf", "anyOf", "object", "object"])
                    items = [fill] * n
                    items[pos] = leaf
                    m = {"t": k, "list": items} if k != "object" else {"t": "object", "props": [["p%04d" % i, x] for i, x in enumerate(items)], "required": []}
                    add([["A", {"t": "boolean"}], [r.choice(HOLDERS), m]], "wide", n)
            comps = [["S%04d" % i, {"t": "object", "props": [["next", {"link": "S%04d" % ((i + 1) % n)}]]}] for i in range(n)]
            add(comps, "ring", n)
            broken = [[k, dict(v)] for k, v in comps]
            broken[pos][1]["props"] = [["next", {"link": "S%04d" % n}]]
            add(broken, "ring", n)
    start(ctx)
    longs = [(n, link, [{"op": "chain", "link": link, "steps": [r.choice(["items", "prop", "add", "oneOf", "allOf", "anyOf"]) for _ in range(n)]}]) for n in (10, 40, 120, 300) for link in ("Gone", "M") for _ in range(ctx.n(3, 20))]
    lout, _ = interpret(ctx, [x[2] for x in longs])
    for (n, link, prog), ev in zip(longs, lout):
        ctx.saw(json.dumps(prog))
        if not ev or "panic" in ev[0]: ctx.violation("verification crashed", program=prog, events=ev[-1:]); continue
        if ev[0]["ok"] != (link == "M") or (link != "M" and ev[0]["err"] != link): ctx.violation("verify_schemas is wrong", program=prog, observed=ev[0])
    out, _ = interpret(ctx, progs)
    for (comps, kind, note), ev, prog in zip(meta, out, progs):
        if len(ev) < 2 or "panic" in ev[-1]:
            ctx.violation("verification crashed", program=prog, events=ev[-1:]); continue
        e = ev[1]
        have = {n for n, _ in comps}
        dangling = sorted({l for _, m in comps for l in links_of(m) if l not in have})
        bad = []
        if e["ok"] != (not dangling): bad.append("verification %s, dangling links: %r" % ("succeeds" if e["ok"] else "fails", dangling))
        elif not e["ok"] and e["err"] not in dangling: bad.append("reports %r, dangling links: %r" % (e["err"], dangling))
        bad += ["verification changed the components: " + x for x in diff(e["before"], e["components"])]
        want = {n: model_json(m) for n, m in comps}
        bad += diff(want, e["before"].get("schemas", {}), "components")
        total = sum(len(links_of(m)) for _, m in comps)
        ctx.saw(json.dumps(comps, sort_keys=True), trivial=total == 0)
        ctx.count("links_checked", total); ctx.count("dangling" if dangling else "resolved")
        if bad: ctx.violation("verify_schemas is wrong", problems=bad[:4], schemas=comps, kind=kind)
        elif dangling: ctx.sample(dict(chain=note, reported=e["err"]), 4)
    ctx.coverage["rule"] = "components with a dangling or resolved link below every chain of up to 3 containers (sampled at length 3 in quick), chains of up to 300, containers and components up to 300 wide with the only dangling link at any position, and random components; verdict, reported name and components before/after are compared with a link-walking oracle; non-trivial: at least one link"
