"""Reference-model monitor: what the real crate reports for generated types is compared with the reference of typegen."""
from common import *
from typegen import *

class Case:
    tail = ""   # further statements of the workload
    def __init__(self, name, defs, probes=None, pre="", source=None):
        """probes: [(id, kind, Ty, inline, Params)], kind 'schema' or 'mention'."""
        self.name, self.defs, self.pre, self.source = name, defs, pre, source
        self.probes = probes if probes is not None else default_probes(defs)

def default_probes(defs):
    out = []
    for d in defs:
        if d.derives != Def.derives and "OpgModel" not in d.derives: continue
        t = DefT(d)
        out.append(("s:" + d.ident, "schema", t, False, NOP))
        out.append(("m:" + d.ident, "mention", t, False, NOP))
    return out

def params_rust(p):
    if p is NOP: return "&Default::default()"
    o = lambda v, f: "None" if v is None else "Some(%s)" % f(v)
    st = lambda v: rs(v) + ".to_string()"
    return "&opg::ContextParams { description: %s, nullable: %s, format: %s, example: %s, variants: %s }" % (
        o(p.description, st), o(p.nullable, lambda v: str(v).lower()), o(p.format, st), o(p.example, st),
        o(p.variants, lambda v: "vec![%s]" % ", ".join(st(x) for x in v)))

def unit(g, c):
    if c.source is None: c.source = "".join(d.rust(g) for d in c.defs) + c.pre
    body = c.source + "\npub fn run() {\n"
    for id, kind, t, inline, p in c.probes:
        if kind == "name": body += "  rt::type_name::<%s>(%s, %s);\n" % (t.rust, rs(c.name), rs(id))
        elif kind == "schema": body += "  rt::schema::<%s>(%s, %s);\n" % (t.rust, rs(c.name), rs(id))
        else: body += "  rt::mention::<%s>(%s, %s, %s, %s);\n" % (t.rust, rs(c.name), rs(id), str(inline).lower(), params_rust(p))
    return Unit(c.name, body + c.tail + "}\n")

def spread(units, nbin, prefix="w"):
    return {"%s%d" % (prefix, i): units[i::nbin] for i in range(nbin) if units[i::nbin]}

def run_cases(ctx, cases, seedless=False, nbin=8, sub="", toml=None, check=None, more=None):
    """Builds and runs all cases and compares every observation with the reference."""
    by = {c.name: c for c in cases}
    units = [unit(Gen(random.Random("%s/%d/%s/text" % (ctx.prop, ctx.seed, c.name))), c) for c in cases]
    src = {u.name: u.body for u in units}
    bins = spread(units, nbin)
    if more: bins.update(more)
    for b, name, ds in ctx.build(bins, sub=sub, toml=toml):
        ctx.violation("a definition in the supported subset does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src.get(name, "")[:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes:
        ctx.violation("generating a schema crashed", unit=name, rc=rc, stderr=err[-800:], source=src.get(name, "")[:4000])
    expect = {(c.name, p[0]): p for c in cases for p in c.probes}
    seen = set()
    for e in events:
        if e["ev"] == "name":
            t = expect[e["case"], e["id"]][2]
            ctx.saw(("name", t.rust, e["name"])); ctx.count("names_compared")
            if e["name"] != name_of(t): ctx.violation("a type goes by the wrong name", case=e["case"], type=t.rust, observed=e["name"], expected=name_of(t), source=src[e["case"]][:3000])
            continue
        if e["ev"] not in ("schema", "mention") or (e.get("case"), e.get("id")) not in expect: continue
        id, kind, t, inline, p = expect[e["case"], e["id"]]
        seen.add((e["case"], e["id"]))
        want, comps = expect_schema(t) if kind == "schema" else expect_ref(t, inline, p)
        got = e["schema"] if kind == "schema" else e["ref"]
        bad = diff(want, got) + diff(comps_json(comps), e["components"], "components")
        bad += list(find_dups(e["components"])) + list(find_dups(got))
        if e["verify"] is not None: bad.append("verify_schemas failed: %r" % e["verify"])
        if check: bad += check(by[e["case"]], e)
        ctx.saw((kind, inline, t.rust, json.dumps(want, sort_keys=True), json.dumps(comps, sort_keys=True)))
        ctx.count("schema_nodes_compared", size(got) + size(e["components"]))
        if bad: ctx.violation("observed schema differs from the reference", case=e["case"], probe=e["id"], type=t.rust, problems=bad[:6], source=src[e["case"]][:4000])
        else: ctx.sample(dict(type=t.rust, observed=got))
    return events

def name_of(t):
    """A definition goes by its own name, whatever wraps it; everything else has none."""
    if isinstance(t, (Wrap, Opt)): return name_of(t.t)
    if isinstance(t, DefT): return None if t.d.inline else t.d.name
    return None

def size(x):
    if isinstance(x, dict): return 1 + sum(size(v) for v in x.values())
    if isinstance(x, list): return 1 + sum(size(v) for v in x)
    return 1
