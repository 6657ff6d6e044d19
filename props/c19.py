"""C19: a named type is linked everywhere except where inlining is requested, and then embedded whole."""
from conform import *
from defgen import *
import itertools

def named(g, ident, inner, kind, inline):
    """A named type of the given kind that refers to `inner` (a Def or None)."""
    t = DefT(inner) if inner else BYNAME["u8"]
    r = g.rng
    if r.random() < .3: t = Opt(t)
    elif r.random() < .2: t = Seq("Vec", t)
    d = Def(ident, "struct", inline=inline)
    if kind == "struct": d.fields = [Field("x", t), Field("y", BOOL)]
    elif kind == "newtype": d.kind = "newtype"; d.fields = [Field(None, t)]
    elif kind == "transparent": d.fields = [Field("x", t)]; d.transparent = True
    elif kind == "tuple": d.kind = "tuple"; d.fields = [Field(None, t), Field(None, BOOL)]
    else:
        d.kind = "enum"
        if kind in ("strings", "repr"):
            d.variants = [Variant("A", "unit"), Variant("B", "unit")]
            if kind == "repr": d.repr = "u8"
        else:
            d.variants = [Variant("A", "struct", [Field("x", t)]), Variant("B", "struct", [Field("z", BOOL)])]
            if kind in ("external", "adjacent", "untagged"): d.variants.append(Variant("C", "new", [Field(None, t)]))
            if kind in ("external", "adjacent"): d.variants.append(Variant("D", "tuple", [Field(None, t), Field(None, BOOL)]))
            if kind == "untagged": d.untagged = True
            if kind in ("internal", "adjacent"): d.tag = "t"
            if kind == "adjacent": d.content = "c"
    if r.random() < .4: d.desc = g.text()
    return d

KINDS = ["struct", "newtype", "transparent", "tuple", "strings", "repr", "external", "untagged", "internal", "adjacent"]
def shapes(d):
    t = DefT(d)
    return [t, Opt(t), Wrap("Box", t), Wrap("&", t), Wrap("Rc", t), Opt(Wrap("Arc", t)), Wrap("Box", Opt(t)), Seq("Vec", t), Opt(Seq("Vec", t)), Tup([t]), Tup([t, BOOL]), Map("HashMap", STRING, t), Seq("array", t, 2), Seq("Vec", Opt(t)), Wrap("RefCell", t)]

ANN = {"none": {}, "desc": dict(desc="d"), "fmt": dict(fmt="f"), "ex": dict(ex="e"), "nullable": dict(nullable=True), "rename": dict(rename="r n"), "skip_if": dict(skip_if="rt::never"), "optional": dict(optional=True), "all": dict(desc="d", fmt="f", ex="e", nullable=True)}
def requests(ctx, rep):
    """Every way to ask for inlining in a container (its fields, its variants, both, neither) next to every other annotation of the same field."""
    out = []
    for mode in ("struct", "tuple", "newtype", "external", "adjacent", "untagged", "internal"):
        for style in (("struct", "tuple", "new") if mode in ("external", "adjacent") else ("struct", "new") if mode == "untagged" else ("struct",) if mode == "internal" else ("",)):
            g = Gen(random.Random("C19/%d/q%d/%s/%s" % (ctx.seed, rep, mode, style)))
            r = g.rng
            kind = r.choice(KINDS)
            leaf = named(g, "Leaf", None, "struct", False)
            sub = named(g, "Sub", leaf, kind, rep == 2)
            ds = [leaf, sub]
            n = 0
            for at in ("", "field", "variant", "both") if style else ("", "field"):
                for a, kw in ANN.items():
                    kw = dict(kw)
                    if (mode in ("tuple", "newtype") or style in ("tuple", "new")) and a in ("rename", "skip_if", "optional"): continue
                    if mode == "newtype" and at == "field" and False: continue
                    named_f = not (mode in ("tuple", "newtype") or style in ("tuple", "new"))
                    t = r.choice([DefT(sub), DefT(sub), Opt(DefT(sub)), Wrap("Box", DefT(sub))])
                    f = Field("f" if named_f else None, t, inline=at in ("field", "both"), **kw)
                    rest = Field("g" if named_f else None, DefT(leaf))
                    u = Def("Q%d" % n, "struct"); n += 1
                    if mode == "struct": u.fields = [f, rest]
                    elif mode == "tuple": u.kind = "tuple"; u.fields = [rest, f]
                    elif mode == "newtype": u.kind = "newtype"; u.fields = [f]
                    else:
                        u.kind = "enum"; u.untagged = mode == "untagged"
                        if mode in ("internal", "adjacent"): u.tag = "t"
                        if mode == "adjacent": u.content = "c"
                        u.variants = [Variant("V", style, [f] if style == "new" else [f, rest], inline=at in ("variant", "both")), Variant("W", "struct", [Field("w", BOOL)])]
                        if r.random() < .3: u.variants[0].desc = "v"
                    ds.append(u)
            out.append(Case("q%d%s%s" % (rep, mode, style), ds))
    return out

def run(ctx):
    cases = []
    g = Gen(random.Random("C19/%d" % ctx.seed))
    r = g.rng
    for kind, inline in itertools.product(KINDS, (False, True)):
        for rep in range(ctx.n(4, 16)):
            leaf = named(g, "Leaf", None, r.choice(["struct", "strings", "newtype", "tuple"]), False)
            mid = named(g, "Mid", leaf, r.choice(KINDS[:4] + KINDS[6:]), r.random() < .4)
            d = named(g, "Sub", mid, kind, inline)
            uses = []
            probes = []
            for i, t in enumerate(shapes(d)):
                for req in (False, True):
                    f = Field("f", t, inline=req)
                    if r.random() < .4: f.desc = g.text()
                    if r.random() < .2: f.nullable = True
                    if r.random() < .2: f.ex = g.text()
                    place = r.choice(["struct", "tuple", "var_struct", "var_tuple", "var_new", "var_cont"])
                    u = Def("U%d%d" % (i, req), "struct")
                    again = Field("again", DefT(d))       # a plain use next to the other one stays a link
                    if place == "struct": u.fields = [f, again] if r.random() < .6 else [f]
                    elif place == "tuple": u.kind = "tuple"; f.ident = again.ident = None; u.fields = [again, f]
                    else:
                        u.kind = "enum"
                        mode = r.choice(["external", "adjacent", "untagged"])
                        if place == "var_tuple" and mode == "untagged": mode = "external"
                        u.untagged = mode == "untagged"
                        if place in ("var_struct", "var_cont") and r.random() < .25: mode = "internal"; u.untagged = False; u.tag = "t"
                        if mode == "adjacent": u.tag, u.content = "t", "c"
                        if place == "var_struct": vs = [Variant("V", "struct", [f])]
                        elif place == "var_tuple": f.ident = None; vs = [Variant("V", "tuple", [f, Field(None, DefT(leaf))])]
                        elif place == "var_new": f.ident = None; vs = [Variant("V", "new", [f])]
                        else:
                            f.inline = False; f.ident = None
                            st = r.choice(["new", "tuple", "struct"] if mode != "untagged" else ["new", "struct"])
                            if mode == "internal": st = "struct"
                            if st == "struct": f.ident = "f"
                            vs = [Variant("V", st, [f] if st != "tuple" else [f, Field(None, DefT(leaf))], inline=req)]
                        u.variants = vs + [Variant("Plain", "struct", [Field("p", DefT(d))]) if mode == "internal" else Variant("Plain", "new", [Field(None, DefT(d))])]
                        if r.random() < .5: u.variants.reverse()
                    uses.append(u)
                    probes += default_probes([u])
                for inl in (False, True):
                    p = Params(*(x if r.random() < .3 else None for x in ("d\"e", True, "f", "e", ["v"])))
                    probes.append(("x%d%d" % (i, inl), "mention", t, inl, p))
                    probes.append(("y%d%d" % (i, inl), "mention", t, inl, NOP))
            ds = [leaf, mid, d] + uses
            probes += default_probes([leaf, mid, d])
            half = len(probes) // 2
            c = Case("k%d" % len(cases), ds, probes)
            cx = "let mut cx = Components::new();"
            # embedding in place must neither register nor change the component, before or after a link
            c.tail = "  { %s rt::mention_in::<Sub>(CASE, \"seq1\", true, &Default::default(), &mut cx); rt::mention_in::<Sub>(CASE, \"seq2\", false, &Default::default(), &mut cx); rt::mention_in::<Sub>(CASE, \"seq3\", true, &ContextParams { description: Some(\"zz\".into()), ..Default::default() }, &mut cx); }\n".replace("CASE", rs(c.name)) % cx
            c.sub = d
            cases.append(c)
    for k in range(ctx.n(180, 800)):
        gg = Gen(random.Random("C19/%d/r%d" % (ctx.seed, k)))
        cases.append(Case("r%d" % k, rand_program(gg, mixed(gg.rng, Opts(inline=.5, cont_inline=.35, docs=.15, depth=gg.rng.choice([1, 2]), recursive=.2, external_units=True), ("inline", "recursive")), 5)))
    for k, n in enumerate(ctx.n([60, 150], [60, 150, 300])):
        gg = Gen(random.Random("C19/%d/b%d" % (ctx.seed, k)))
        ds = big_program(gg, n)
        cases.append(Case("big%d" % k, ds, [(w + str(i), w2, DefT(ds[i]), inl, NOP) for w, w2, inl in (("m", "mention", False), ("i", "mention", True), ("s", "schema", False)) for i in (0, n // 3, n - 5)]))
    for k in range(ctx.n(1, 3)): cases += requests(ctx, k)
    seqs = {c.name: c for c in cases if hasattr(c, "sub")}
    # the sequence probes are judged below
    def keep(e): return not (e.get("id", "").startswith("seq"))
    events = run_cases(ctx, cases)
    got = {}
    for e in events:
        if e["ev"] == "mention" and not keep(e): got.setdefault(e["case"], {})[e["id"]] = e
    for name, es in got.items():
        d = seqs[name].sub
        s, comps = expect_schema(DefT(d))
        ref = {"$ref": "#/components/schemas/Sub"}
        full = dict(comps, Sub=s) if not d.inline else comps
        want = [("seq1", s, comps), ("seq2", s if d.inline else ref, full), ("seq3", apply(s, Params(description="zz")), full)]
        for id, w, cs in want:
            bad = diff(w, es[id]["ref"]) + diff(comps_json(cs), es[id]["components"], "components")
            ctx.saw(("seq", id, json.dumps(w, sort_keys=True)))
            if bad: ctx.violation("inlined and linked mentions of one type interfere", case=name, step=id, problems=bad[:5], source=seqs[name].source[:3000])
    ctx.coverage["rule"] = "each kind of named type, inline or not, in 15 wrappers, used with and without inline on fields and variants next to a plain use, direct requests with and without parameters, sequences of inline and linked mentions on one Components, and random programs; compared with the reference; distinct by schema and components"
