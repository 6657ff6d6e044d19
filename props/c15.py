"""C15: context parameters override exactly the attributes they set."""
import itertools
from driver import *
from graph import *
from typegen import apply, Params

def P(p): return Params(p.get("description"), p.get("nullable"), p.get("format"), p.get("example"), p.get("variants"))

def main(ctx):
    r = ctx.rng
    g = Models(r, depth=3)
    progs, meta = [], []
    # every kind of schema with every subset of its attributes set, times every subset of the parameters
    kinds = ["string", "number", "integer", "boolean", "array", "object", "oneOf", "allOf", "anyOf"]
    val = {"description": "pd", "nullable": None, "format": "pf", "example": "pe", "variants": ["p1", "p2"]}
    for t in kinds:
        for bits in itertools.product((0, 1), repeat=5):
            m = {"t": t, "list": [{"link": "A"}, {"inline": {"t": "string", "description": "in", "format": "if", "example": "ie", "variants": ["iv"]}}], "items": {"inline": {"t": "string", "format": "nf", "nullable": True}},
                 "props": [["k", {"inline": {"t": "integer", "format": "nf", "example": "ne"}}], ["l", {"link": "L"}]], "required": ["k"], "add": {"inline": {"t": "string", "variants": ["x"]}}}
            m = {k: v for k, v in m.items() if k == "t" or k in {"oneOf": ["list"], "allOf": ["list"], "anyOf": ["list"], "array": ["items"], "object": ["props", "required", "add"]}.get(t, [])}
            if bits[0]: m["description"] = "md"
            if bits[1] and "Of" not in t: m["nullable"] = True
            if t in ("string", "number", "integer"):
                if bits[2]: m["format"] = "mf"
                if bits[3]: m["example"] = "me"
            if t == "string" and bits[4]: m["variants"] = ["m1"]
            if any(bits[2:]) and t in ("boolean", "array", "object", "oneOf", "allOf", "anyOf"): continue
            for pb in itertools.product((0, 1), (0, 1, 2), (0, 1), (0, 1), (0, 1)):
                p = {}
                for b, k in zip(pb, val):
                    if b: p[k] = (b == 1) if k == "nullable" else val[k]
                progs.append([{"op": "apply", "model": m, "params": p}]); meta.append((m, p))
    for _ in range(ctx.n(12000, 100000)):
        m, p = g.model(), g.params()
        progs.append([{"op": "apply", "model": m, "params": p}]); meta.append((m, p))
    start(ctx)
    out, _ = interpret(ctx, progs)
    for (m, p), ev in zip(meta, out):
        ctx.saw(json.dumps([m, p], sort_keys=True), trivial=not p)
        if not ev or "panic" in ev[0]: ctx.violation("apply_params crashed", model=m, params=p, events=ev); continue
        e, j = ev[0], model_json(m)
        want = apply(j, P(p))
        nodesc = {k: v for k, v in want.items() if k != "description"}
        dd = dict(nodesc)
        if "description" in j: dd["description"] = j["description"]
        bad = diff(j, e["original"], "before") + diff(j, e["none"], "no parameters") + diff(want, e["once"], "once") + diff(want, e["twice"], "twice") + diff(dd, e["data"], "data only")
        if "type" in e: bad += diff(nodesc, e["type"], "type only")
        if "td" in e:
            w = dict(nodesc); w.pop("nullable", None)
            bad += diff(w, e["td"], "type description only")
            if "string" in e: bad += diff({k: v for k, v in w.items() if k != "type"}, e["string"], "string only")
            if "simple" in e: bad += diff({k: v for k, v in w.items() if k in ("format", "example")}, e["simple"], "simple only")
        ctx.count("applications")
        if bad: ctx.violation("applying parameters gives the wrong schema", model=m, params=p, problems=bad[:5])
        else: ctx.sample(dict(params=p, before=j, after=e["once"]), 3)
    mentions(ctx, r)
    ctx.coverage["rule"] = "every schema kind with every subset of its attributes times every subset of the parameters, random nested models with random parameters, at every level that offers apply_params, and histories of mentions with parameters over random type graphs; non-trivial: some parameter is set"

def mentions(ctx, r):
    """Parameters of a mention reach the inlined schema and never the component."""
    progs, meta = [], []
    for _ in range(ctx.n(4500, 30000)):
        nodes = rand_graph(r, r.choice([1, 2, 3, 5, 8]), params=.6, inline=.25)
        ops, want, m = [{"op": "graph", "nodes": [n.json() for n in nodes], "depth": 300, "total": 50000}], [None], []
        for _ in range(r.choice([1, 2, 4])):
            e = Edge(r.choice(nodes), r.choice(VIAS), r.random() < .4, rand_params(r, .9))
            if r.random() < .3:
                ops.append(dict(e.json(), op="schema")); ref = apply(e.ty().schema(m), e.p)
            else:
                ops.append(dict(e.json(), op="mention")); ref = e.ref(m)
            want.append((ref, dict(closure(m))))
        progs.append(ops); meta.append((want, nodes))
    out, _ = interpret(ctx, progs)
    for (want, nodes), ev, prog in zip(meta, out, progs):
        if len(ev) < len(prog) or "panic" in ev[-1]: ctx.violation("mentioning with parameters crashed", program=prog, events=ev[-1:]); continue
        for w, e, op in zip(want, ev, prog):
            if w is None: continue
            bad = diff(w[0], e.get("ref", e.get("schema")), "result") + diff(comps_json(w[1]), e["components"], "components")
            ctx.saw(json.dumps([op, w[0]], sort_keys=True), trivial=not op["params"])
            ctx.count("mentions_with_parameters" if op["params"] else "mentions_without_parameters")
            if bad: ctx.violation("a mention with parameters gives the wrong schema", problems=bad[:5], op=op, program=prog); break
