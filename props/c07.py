"""C07: every reference resolves to the complete schema of its type, and nothing else is registered."""
from history import *
from apigen import *

def refs(x, path="$"):
    """Every `$ref` of a document with the place it is in."""
    if isinstance(x, dict):
        if isinstance(x.get("$ref"), str): yield path, x["$ref"]
        for k, v in x.items():
            if k not in ("example", "enum", "description", "\0dups"): yield from refs(v, path + "." + k)
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from refs(v, "%s[%d]" % (path, i))

P = "#/components/schemas/"
def resolve(doc):
    """References that do not resolve."""
    comps = doc.get("components", {}).get("schemas", {})
    out = []
    n = 0
    for place, r in refs(doc):
        n += 1
        if not r.startswith(P) or r[len(P):] not in comps: out.append("%s: %r does not resolve" % (place, r))
    return out, n

def programs(ctx, n):
    for k in range(n):
        g = Gen(random.Random("%s/%d/p%d" % (ctx.prop, ctx.seed, k)))
        yield k, g, rand_program(g, mixed(g.rng, Opts(depth=g.rng.choice([1, 2, 3]), recursive=.6, docs=.1, inline=.1, cont_inline=.15, skip=.08, external_units=True)), g.rng.choice([3, 5, 8, 12]))

def documents(ctx):
    units, want, src = [], {}, {}
    for k, g, defs in programs(ctx, ctx.n(210, 1000)):
        r = g.rng
        a = ApiGen(g, O(depth=r.choice([1, 2, 3]), npaths=(1, 2, 3), nops=(1, 2, 3), params=.8, callbacks=.5, security=.1, schemes=.1, body=.9, sections=1), r.sample(defs, r.randint(1, len(defs)))).build()
        name = "a%d" % k
        body = "".join(d.rust(g) for d in defs) + "pub fn run() {\n let mut doc = %s;\n rt::doc(%s, \"doc\", &doc);\n" % (a.rust(), rs(name))
        # further mentions on the finished document
        have = dict(a.doc["components"].get("schemas", {}))
        steps = []
        for i in range(r.choice([1, 2, 4])):
            t, inline = rand_use(g, r.choice(defs)), r.random() < .15
            m = []
            wr = t.ref(m, inline); have = closure_in(m, have)
            steps.append((t, wr, dict(have)))
            body += " rt::mention_in::<%s>(%s, \"m%d\", %s, &Default::default(), &mut doc.components);\n" % (t.rust, rs(name), i, str(inline).lower())
        body += " rt::doc(%s, \"after\", &doc);\n" % rs(name)
        for d in defs: body += " rt::schema::<%s>(%s, %s);\n" % (d.ident, rs(name), rs("s:" + d.name))
        units.append(Unit(name, body + "}\n"))
        want[name] = (a.doc, steps, defs)
        src[name] = body
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins): ctx.violation("a program in the supported subset does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("generating the document crashed", unit=name, rc=rc, stderr=err[-800:], source=src[name][:4000])
    by = {(e["case"], e["id"]): e for e in events if e["ev"] in ("doc", "mention", "schema")}
    for name, (doc, steps, defs) in want.items():
        bad = []
        e = by.get((name, "doc"))
        if e is None: continue
        got = e["json"]
        unresolved, n = resolve(got)
        bad += unresolved
        comps = got.get("components", {}).get("schemas", {})
        bad += diff(doc["components"].get("schemas", {}), comps, "components")
        bad += list(find_dups(got))
        # the references in the document itself, place by place
        place = lambda d: dict(refs({k: v for k, v in d.items() if k != "components"}))
        bad += diff(place(doc), place(got), "references")
        for i, (t, wr, have) in enumerate(steps):
            m = by.get((name, "m%d" % i))
            if m is None: continue
            bad += diff(wr, m["ref"], "mention of " + t.rust) + diff(have, m["components"].get("schemas", {}), "components after " + t.rust)
            if m["verify"] is not None: bad.append("verification of the components failed: %r" % m["verify"])
        after = by.get((name, "after"))
        if after is not None:
            bad += ["after more mentions: " + x for x in resolve(after["json"])[0]]
            last = after["json"].get("components", {}).get("schemas", {})
            for d in defs:   # a component is the schema the type builds on its own
                s = by.get((name, "s:" + d.name))
                if s is not None and d.name in last:
                    bad += diff(s["schema"], last[d.name], "component %s against its own schema" % d.name)
                    ctx.count("components_compared_with_own_schema")
        ctx.count("references_resolved", n)
        ctx.saw(json.dumps(got, sort_keys=True), trivial=not n)
        if bad: ctx.violation("references and components of a document disagree", case=name, problems=bad[:6], source=src[name][:5000])
        else: ctx.sample(dict(paths=len(got["paths"]), references=n, components=sorted(comps)), 4)

# Every place of a description where a type can be mentioned; @ is the type, ^ the type where it has to be a plain path.
OPS = {"body": "POST: { body: @ }", "body_long": "PUT: { body: { schema: @ } }", "body_optional": "PUT: { body: { description: \"d\", required: false, schema: @ } }", "response": "GET: { 200: @ }", "response_text": "DELETE: { 404(\"no\"): @ }", "second_response": "GET: { 200: None, 201: String, 500: @ }",
       "op_query": "GET: { parameters: { (query q: @) } }", "op_query_long": "GET: { parameters: { (header \"h\"), (query q: @): { description: \"d\", required: true } } }", "op_query_schema": "GET: { parameters: { (query q: String): { schema: @ } } }", "op_header_schema": "GET: { parameters: { (header \"h\"): { schema: @ } } }"}
PATHS = dict({k: "(\"p\"): { %s }" % v for k, v in OPS.items()},
             named="(\"p\" / { x: @ }): { GET: { 200: None } }", named_first="({ x: @ } / \"p\"): { }", named_last="(\"p\" / String / { x: @ } / \"q\"): { summary: \"s\" }", unnamed="(\"p\" / ^): { GET: { 200: None } }",
             path_query="(\"p\"): { parameters: { (query q: @) }, GET: { 200: None } }", path_query_long="(\"p\"): { parameters: { (query q: @): { deprecated: true } } }", path_query_schema="(\"p\"): { parameters: { (query q: String): { schema: @ } } }", path_header_schema="(\"p\"): { parameters: { (header \"h\"): { required: false, schema: @ } } }")
ROUTES = dict(PATHS)
ROUTES.update({"callback_" + k: "(\"o\"): { POST: { 200: None, callbacks: { cb: { (\"first\"): { GET: { 200: None } }, %s } } } }" % v for k, v in PATHS.items()})
ROUTES.update({"callback2_" + k: "(\"o\"): { POST: { callbacks: { \"a\": { (\"f\"): { PUT: { callbacks: { z: { %s } } } } } } } }" % PATHS[k] for k in ("named", "unnamed", "body", "response", "path_query")})

def routes(ctx):
    """A type mentioned at one or a few places only: it and what it needs are there, and nothing else."""
    units, want, src = [], {}, {}
    names = sorted(ROUTES)
    todo = [[n] for n in names for _ in range(ctx.n(3, 20))] + [ctx.rng.sample(names, ctx.rng.choice([2, 3])) for _ in range(ctx.n(180, 800))]
    for k, use in enumerate(todo):
        g = Gen(random.Random("C07/%d/route%d" % (ctx.seed, k)))
        r = g.rng
        defs = rand_program(g, mixed(r, Opts(depth=1, recursive=.5, docs=.05, cont_inline=.1, external_units=True)), r.choice([2, 3, 4]))
        used, paths = [], []
        for i, n in enumerate(use):
            d = r.choice([x for x in defs if not x.ident.startswith("r#")] or [None]) if "^" in ROUTES[n] else r.choice(defs)
            t = DefT(d) if d else STRING
            if "@" in ROUTES[n] and r.random() < .5:
                for _ in range(20):
                    w = rand_use(g, d)
                    if w.rust[0] not in "&([" : t = w; break
            t.ref(used)
            paths.append(ROUTES[n].replace("(\"p\"", "(\"p%d\"" % i).replace("(\"o\"", "(\"o%d\"" % i).replace("({ x", "(\"l%d\" / { x" % i if i else "({ x").replace("@", t.rust).replace("^", t.rust))
        doc = "describe_api! { paths: { %s } }" % ", ".join(paths)
        name = "q%d" % k
        body = "".join(d.rust(g) for d in defs) + "pub fn run() { rt::doc(%s, \"doc\", &%s); }\n" % (rs(name), doc)
        units.append(Unit(name, body)); src[name] = body; want[name] = (use, closure(used))
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins): ctx.violation("a program in the supported subset does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("generating the document crashed", unit=name, rc=rc, stderr=err[-800:], source=src[name][:4000])
    for e in events:
        if e["ev"] != "doc": continue
        use, comps = want[e["case"]]
        bad, n = resolve(e["json"])
        bad += diff({k: comps[k] for k in comps}, e["json"].get("components", {}).get("schemas", {}), "components")
        for u in use: ctx.count("route:" + u)
        ctx.saw(json.dumps(e["json"], sort_keys=True), trivial=not n)
        if bad: ctx.violation("a type mentioned at one place of a description is not registered completely", routes=use, problems=bad[:6], source=src[e["case"]][:5000])

def histories(ctx):
    hists = []
    for k, g, defs in programs(ctx, ctx.n(180, 900)):
        r = g.rng
        src = "".join(d.rust(g) for d in defs)
        runs = []
        for _ in range(3):
            run = [("mention", rand_use(g, r.choice(defs)), r.random() < .12, NOP) if r.random() < .8 else ("schema", rand_use(g, r.choice(defs)), None, None) for _ in range(r.choice([1, 2, 4, 8]))]
            runs.append(run)
        hists.append(Hist("h%d" % k, defs, runs, src))
    for k, n in enumerate(ctx.n([70, 100, 260], [70, 130, 260, 520])):
        g = Gen(random.Random("C07/%d/b%d" % (ctx.seed, k)))
        defs = big_program(g, n)
        order = list(range(n)); g.rng.shuffle(order)
        runs = [[("mention", rand_use(g, defs[0]), False, NOP), ("mention", DefT(defs[n // 2]), False, NOP)], [("mention", DefT(defs[i]), False, NOP) for i in order[:4]] + [("schema", DefT(defs[0]), None, None), ("mention", DefT(defs[0]), True, NOP)],
                [("mention", DefT(d), False, NOP) for d in defs[::-(n // 40)]]]
        hists.append(Hist("big%d" % k, defs, runs, "".join(defs[i].rust(g) for i in order)))
    judge(ctx, hists, execute(ctx, hists))

def main(ctx):
    documents(ctx)
    routes(ctx)
    histories(ctx)
    ctx.coverage["rule"] = "describe_api! documents over random programs of derived types (uses behind every wrapper in paths, parameters, bodies, responses and callbacks), followed by direct mentions on the finished document, documents that mention a type at one of every place a description has for types (callbacks included) and nowhere else, and histories of mentions on fresh components; every `$ref` is resolved, components are compared with the set reachable from what was mentioned and with the schema each type builds on its own; distinct by document or components"
