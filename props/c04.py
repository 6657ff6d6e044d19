"""C04: documentation attributes appear on the element they annotate and nowhere else."""
from conform import *
from defgen import *

ATTRS = ["desc", "fmt", "ex", "ex_with", "nullable"]

def put(g, x, attr):
    if attr == "desc": x.desc = g.text()
    elif attr == "fmt": x.fmt = g.text()
    elif attr == "ex": x.ex = g.text()
    elif attr == "ex_with": x.ex_with = g.rng.choice(EXW)
    elif attr == "nullable": x.nullable = True

def base(g):
    named = Def("Named", "struct", [Field("a", BYNAME["u8"], desc="own a")], desc="own Named")
    inl = Def("Inl", "struct", [Field("b", STRING, fmt="own fmt")], inline=True, desc="own Inl")
    strs = Def("Strs", "enum", (), [Variant("A", "unit"), Variant("B", "unit")], desc="own Strs")
    new = Def("New", "newtype", [Field(None, STRING)], fmt="own nf", ex="own ne", desc="own New")
    new2 = Def("New2", "newtype", [Field(None, DefT(new))], ex="outer ne")
    return [named, inl, strs, new, new2]

def field_types(ds):
    named, inl, strs, new, new2 = ds
    ts = [BYNAME["u8"], BYNAME["f64"], STRING, BOOL, UNITT, UUID, Opt(STRING), Opt(Opt(BYNAME["i32"])), Seq("Vec", STRING), Tup([BOOL, STRING]), Map("HashMap", STRING, BOOL), Wrap("Box", STRING), Wrap("Arc", Seq("Vec", BOOL))]
    for d in ds:
        ts += [DefT(d), Opt(DefT(d)), Wrap("Box", DefT(d)), Seq("Vec", DefT(d)), Opt(Wrap("Box", DefT(d)))]
    return ts

def systematic(g, add):
    ds = base(g)
    k = [0]
    out = []
    def nm():
        k[0] += 1
        return "D%d" % k[0]
    def emit(d): out.append(d)
    other = lambda: Field("other", g.rng.choice([STRING, DefT(ds[0]), DefT(ds[3])]))
    # one attribute (or all) on each kind of element
    for attrs in [[a] for a in ATTRS] + [["desc", "ex"], ["desc", "fmt", "ex"], ["desc", "fmt", "ex_with", "nullable"], ["fmt", "nullable"]]:
        for t in field_types(ds):
            for where in ("struct", "newtype", "tuple", "cont_newtype", "var_new", "var_struct", "var_tuple", "transparent"):
                if g.rng.random() < .55 and len(attrs) > 1: continue
                f = Field("f", t)
                d = Def(nm(), "struct")
                x = f
                if where == "struct": d.fields = [other(), f]
                elif where in ("newtype", "cont_newtype"):
                    d.kind = "newtype"; d.fields = [f]; f.ident = None
                    if where == "cont_newtype": x = d
                elif where == "transparent": d.fields = [f]; d.transparent = True; x = g.rng.choice([f, d])
                elif where == "tuple": d.kind = "tuple"; o = other(); o.ident = f.ident = None; d.fields = [f, o]
                else:
                    d.kind = "enum"
                    mode = g.rng.choice(["external", "adjacent", "untagged"] if where != "var_tuple" else ["external", "adjacent"])
                    d.untagged = mode == "untagged"
                    if mode == "adjacent": d.tag, d.content = "t", "c"
                    if where == "var_struct": v = Variant("V", "struct", [f, other()])
                    elif where == "var_tuple":
                        o = other(); o.ident = f.ident = None; v = Variant("V", "tuple", [o, f])
                    else:
                        f.ident = None; v = Variant("V", "new", [f]); x = g.rng.choice([f, v])
                    d.variants = [v, Variant("W", "new", [Field(None, DefT(ds[0]))])]
                    g.rng.shuffle(d.variants)
                for a in attrs:
                    if a == "nullable" and isinstance(x, Variant): continue
                    put(g, x, a)
                emit(d)
    # containers
    for attrs in [["desc"], ["desc", "nullable"], ["nullable"]]:
        for kind in ("struct", "tuple", "strings", "external", "adjacent", "internal", "untagged", "repr"):
            d = Def(nm(), "struct", [other()])
            if kind == "tuple": d.kind = "tuple"; d.fields = [Field(None, BOOL), Field(None, DefT(ds[3]))]
            elif kind != "struct":
                d.kind = "enum"; d.fields = []
                st = {"strings": "unit", "repr": "unit"}.get(kind, "struct")
                d.variants = [Variant("A", st, [] if st == "unit" else [other()]), Variant("B", st, [] if st == "unit" else [other()])]
                if kind in ("internal", "adjacent"): d.tag = "t"
                if kind == "adjacent": d.content = "c"
                if kind == "untagged": d.untagged = True
                if kind == "repr": d.repr = "u8"
            for a in attrs:
                if a == "nullable" and kind in ("internal", "untagged", "repr"): continue
                put(g, d, a)
            emit(d)
    for attrs in [["fmt"], ["ex"], ["ex_with"], ["desc", "fmt", "ex", "nullable"]]:
        d = Def(nm(), "enum", (), [Variant("A", "unit"), Variant("B", "unit")])
        for a in attrs: put(g, d, a)
        emit(d)
    # variant descriptions in every mode and style
    for mode in ("external", "adjacent", "internal", "untagged"):
        for st in ("unit", "new", "tuple", "struct"):
            if (mode, st) in (("internal", "tuple"), ("untagged", "unit"), ("untagged", "tuple")): continue
            d = Def(nm(), "enum")
            d.untagged = mode == "untagged"
            if mode in ("internal", "adjacent"): d.tag = "t"
            if mode == "adjacent": d.content = "c"
            fs = {"unit": [], "new": [Field(None, DefT(ds[0]))], "tuple": [Field(None, BOOL), Field(None, STRING)], "struct": [other()]}[st]
            d.variants = [Variant("V", st, fs, desc=g.text()), Variant("W", "struct", [other()], desc=g.text()), Variant("X", "struct", [other()])]
            emit(d)
    # explicit types
    for ex in ("string", "integer", "number", "boolean", "any"):
        for attrs in [[], ["desc"], ["fmt"], ["ex"], ["ex_with"], ["nullable"], ["desc", "fmt", "ex", "nullable"]]:
            for where in ("struct", "tuple", "newtype", "cont", "var_new", "var_struct", "var_tuple"):
                if ex == "any" and where in ("newtype", "cont"): continue
                f = Field("f", EXPLICIT[ex], explicit=ex)
                x = f
                d = Def(nm(), "struct", [other(), f])
                if where == "tuple": d.kind = "tuple"; d.fields[0].ident = None
                if where == "newtype": d.kind = "newtype"; d.fields = [f]
                if where == "cont": d.kind = "newtype"; d.fields = [f]; f.explicit = None; d.explicit = ex; x = d
                if where.startswith("var"):
                    d.kind = "enum"; d.fields = []
                    o = other()
                    if where != "var_struct": o.ident = f.ident = None
                    d.variants = [Variant("V", {"var_new": "new", "var_struct": "struct", "var_tuple": "tuple"}[where], [f] if where == "var_new" else [o, f])]
                if where in ("tuple", "newtype", "cont"): f.ident = None
                for a in attrs: put(g, x, a)
                emit(d)
    g.rng.shuffle(out)
    for i in range(0, len(out), 10):
        part = out[i:i + 10]
        add(ds + part, [p for d in part for p in default_probes([d])] + default_probes(ds))

def overrides(g):
    """Field over variant or newtype container; container over wrapped type; several uses of one type."""
    r = g.rng
    ds = base(g)
    out = list(ds)
    for i in range(6):
        t = r.choice(field_types(out[:5]) if i < 3 else [DefT(d) for d in out if d.kind == "newtype"])
        d = Def("N%d" % i, "newtype", [Field(None, t)])
        for x in (d, d.fields[0]):
            for a in ("desc", "fmt", "ex", "nullable"):
                if r.random() < .4: put(g, x, a)
        out.append(d)
    e = Def("E", "enum", tag="t", content="c")
    for i in range(5):
        v = Variant("V%d" % i, "new", [Field(None, r.choice(field_types(out[:5]) + [DefT(d) for d in out]))])
        for x in (v, v.fields[0]):
            for a in ("desc", "fmt", "ex"):
                if r.random() < .5: put(g, x, a)
        if r.random() < .3: v.fields[0].nullable = True
        e.variants.append(v)
    s = Def("Uses", "struct", [Field("u%d" % i, r.choice([DefT(d) for d in out] + [Opt(DefT(d)) for d in out])) for i in range(8)])
    for f in s.fields:
        for a in ("desc", "fmt", "ex", "nullable"):
            if r.random() < .4: put(g, f, a)
        if r.random() < .25: f.inline = True
    return out + [e, s]

def run(ctx):
    cases = []
    def add(defs, probes=None):
        cases.append(Case("k%d" % len(cases), defs, probes))
    g = Gen(random.Random("C04/%d" % ctx.seed))
    for _ in range(ctx.n(1, 4)): systematic(g, add)
    for k in range(ctx.n(180, 800)): add(overrides(Gen(random.Random("C04/%d/o%d" % (ctx.seed, k)))))
    for k in range(ctx.n(180, 800)):
        gg = Gen(random.Random("C04/%d/r%d" % (ctx.seed, k)))
        add(rand_program(gg, mixed(gg.rng, Opts(docs=.8, nullable=.25, explicit=.12, inline=.15, depth=gg.rng.choice([1, 2]), external_units=True), ("docs",)), 5))
    run_cases(ctx, cases)
    ctx.coverage["rule"] = "each attribute on each kind of element over 40 field types, overrides along newtype chains and variants, several annotated uses of one type, explicit types, texts with quotes, escapes, control and non-ASCII characters; full schemas and components compared with the reference; distinct by schema and components"
