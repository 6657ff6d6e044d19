"""C03: properties and required lists are those of the fields serde writes; skipped ones leave no trace."""
from conform import *
from defgen import *

# serde items of one field -> is it serialized, is it always present
FLAGS = [
    ((), True, True), (("skip",), False, False), (("skip_serializing",), False, False), (("skip_deserializing",), True, True),
    (("skip_serializing_if = \"rt::never\"",), True, False), (("skip_serializing_if = \"rt::always\"",), True, False),
    (("default",), True, True), (("default = \"Default::default\"",), True, True), (("alias = \"al\"",), True, True),
    (("default", "skip_serializing_if = \"rt::never\""), True, False), (("skip_deserializing", "default"), True, True),
    (("skip_serializing", "skip_deserializing"), False, False), (("skip_serializing", "default"), False, False),
    (("skip_deserializing", "skip_serializing_if = \"rt::always\""), True, False), (("rename = \"ren\"", "skip_serializing_if = \"rt::never\""), True, False),
    (("skip_serializing_if = \"rt::never\"", "rename = \"ren2\""), True, False), (("default", "rename(serialize = \"ren3\")"), True, True),
    (("serialize_with = \"rt::ser_same\"",), True, True), (("with = \"rt::same\"",), True, True), (("deserialize_with = \"zz::read\"",), True, True), (("rename(deserialize = \"zz-read\")",), True, True),
    (("serialize_with = \"rt::ser_same\"", "skip_serializing_if = \"rt::never\""), True, False), (("with = \"rt::same\"", "default", "skip_deserializing"), True, True),
]
MODES = ["struct", "external", "internal", "adjacent", "untagged"]

def make_field(g, i, flag, optional, defs):
    items, kept, always = flag
    ty = g.rng.choice([BYNAME["u8"], STRING, Opt(BOOL), Seq("Vec", STRING), Opt(Opt(STRING)), UNITT] + [DefT(d) for d in defs] + [Opt(DefT(d)) for d in defs])
    f = Field("f%d" % i, ty, optional=optional)
    f.always = False
    for it in items:
        if it.startswith("rename") and not it.startswith("rename(deserialize"):
            f.rename = it.split("\"")[1] + "_" + str(i)
            f.ren_form = "ser" if "(" in it else "plain"
        elif it.startswith("skip_serializing_if"): f.skip_if = it.split("\"")[1]
        elif it == "skip" or it == "skip_serializing": f.skip = it
        else: f.ser += (it,)
    r = g.rng
    if f.skip:
        f.ty = r.choice([OPAQUE, Raw("Option<Hidden>", ["None"])])
        f.skip_if = None
    if f.skip_if and r.random() < .6: f.skip_if = r.choice(predicates(f.ty))
    # attributes that must not change whether the field is there
    if r.random() < .2:
        f.explicit = r.choice(list(EXPLICIT))
        if not f.skip:
            f.ty = EXPLICIT[f.explicit]
            if f.skip_if and "::is_" in f.skip_if: f.skip_if = "never"
    if r.random() < .15: f.inline = True
    docs(g, Opts(nullable=.2), f, .2)
    if f.rename is None and r.random() < .1: f.rename = f.ident
    return f

def live(g, ident, ty):
    """A field that stays, whatever it says about reading."""
    f = Field(ident, ty)
    x = g.rng.random()
    if x < .2: f.ser = ("skip_deserializing",)
    elif x < .3: f.ser = (g.rng.choice(["serialize_with = \"rt::ser_same\"", "with = \"rt::same\"", "deserialize_with = \"zz::read\""]),)
    elif x < .4 and ident: f.ser = ("default",)
    elif x < .5: f.other = ("#[allow(dead_code)]", "/// docs\n")
    elif x < .6: f.desc = g.text()
    return f

def wrap(g, mode, fields, ident="S"):
    if mode == "struct": return Def(ident, "struct", fields, nullable=g.rng.random() < .15)
    d = Def(ident, "enum", (), [Variant("A", "struct", fields), Variant("B", "struct", [Field("z", BOOL)])])
    if g.rng.random() < .5: d.variants.reverse()
    if g.rng.random() < .2: d.variants[0].desc = g.text()
    if g.rng.random() < .15 and mode != "untagged": d.nullable = True
    if g.rng.random() < .15: d.variants[0].inline = True
    if mode == "internal": d.tag = "tag"
    if mode == "adjacent": d.tag, d.content = "tag", "content"
    if mode == "untagged": d.untagged = True
    return d

def run(ctx):
    cases = []
    used = Def("Used", "struct", [Field("u", BOOL)])
    hidden = Def("Hidden", "struct", [Field("h", BOOL)])
    hidden.derives = "Serialize, OpgModel"
    def add(defs):
        cases.append(Case("k%d" % len(cases), [used, hidden] + defs, [p for d in defs for p in default_probes([d])]))
    g = Gen(random.Random("C03/%d" % ctx.seed))
    # every flag combination, alone and between other fields, in every kind of container
    for mode in MODES:
        defs = []
        for k, flag in enumerate(FLAGS):
            for opt in (False, True):
                fs = [make_field(g, 1, flag, opt, [used])]
                defs.append(wrap(g, mode, fs, "A%d%d" % (k, opt)))
                fs = [make_field(g, 0, FLAGS[0], False, []), make_field(g, 1, flag, opt, [used]), make_field(g, 2, g.rng.choice(FLAGS), False, [used])]
                defs.append(wrap(g, mode, fs, "B%d%d" % (k, opt)))
        for i in range(0, len(defs), 12): add(defs[i:i + 12])
    # random mixtures, small and large
    for k in range(ctx.n(360, 1500)):
        n = g.rng.choice([0, 1, 2, 3, 5, 8, 13]) if k % 8 else g.rng.choice([40, 64, 80])
        fs = [make_field(g, i, g.rng.choice(FLAGS), g.rng.random() < .15, [used]) for i in range(n)]
        order = list(range(n)); g.rng.shuffle(order)
        add([wrap(g, MODES[k % 5], [fs[i] for i in order])])
    # skipped variants and skipped tuple fields
    for k in range(ctx.n(180, 540)):
        d = Def("S", "enum")
        mode = MODES[1 + k % 4]
        if mode == "internal": d.tag = "t"
        if mode == "adjacent": d.tag, d.content = "t", "c"
        if mode == "untagged": d.untagged = True
        styles = {"external": ["new", "tuple", "struct"], "internal": ["struct", "unit"], "adjacent": ["new", "tuple", "struct", "unit"], "untagged": ["new", "struct"]}[mode]
        nv = g.rng.choice([1, 2, 3, 5, 9])
        keep = g.rng.randrange(nv)
        for i in range(nv):
            st = g.rng.choice(styles)
            dead = i != keep and g.rng.random() < .45
            T = (lambda: OPAQUE if g.rng.random() < .5 else Raw("Option<Hidden>", ["None"])) if dead else (lambda: g.rng.choice([STRING, DefT(used), BYNAME["i8"], Opt(DefT(used))]))
            mk = (lambda i, t: Field(i, t)) if dead else (lambda i, t: live(g, i, t))
            v = Variant("V%d" % i, st)
            v.fields = {"unit": lambda: [], "new": lambda: [mk(None, T())], "tuple": lambda: [mk(None, T()) if dead or j == 1 or g.rng.random() < .7 else skipped(g, None, ()) for j in range(3)],
                        "struct": lambda: [mk("x%d" % j, T()) for j in range(g.rng.choice([0, 1, 2]))]}[st]()
            if st == "unit" and g.rng.random() < .6:
                v.gone = skipped(g, None, ())
                v.gone.ty = g.rng.choice([OPAQUE, Raw("Option<Hidden>", ["None"])])
            if dead:
                v.skip = g.rng.choice(["skip", "skip_serializing"])
                for f in v.fields: f.no_value = True
            d.variants.append(v)
        if mode == "external" and all(v.style == "unit" for v in d.variants): d.variants.append(Variant("Z", "new", [Field(None, BOOL)]))
        strs = Def("Strs", "enum", (), [Variant("A%d" % i, "unit", skip=(g.rng.choice(["skip", "skip_serializing"]) if i != keep and g.rng.random() < .4 else None), ser=(("skip_deserializing",) if g.rng.random() < .2 else ())) for i in range(max(keep + 1, g.rng.choice([1, 3, 6])))])
        for v in strs.variants:
            if v.skip: v.ser = ()
        tupl = Def("Tu", "tuple", [live(g, None, g.rng.choice([STRING, DefT(used)])) if i == 1 or g.rng.random() < .5 else skipped(g, None, [hidden]) for i in range(g.rng.choice([2, 3, 5]))])
        tr = Def("Tr", "struct", transparent=True)
        n, named = g.rng.choice([1, 2, 3, 4]), g.rng.random() < .5
        at = g.rng.randrange(n)
        if not named: tr.kind = "tuple" if n > 1 else "newtype"
        for j in range(n):
            f = live(g, "q%d" % j, g.rng.choice([STRING, DefT(used), Opt(DefT(used))])) if j == at else skipped(g, "q%d" % j, [hidden])
            if not named:
                f.ident = None
                if f.ser == ("default",): f.ser = ()
            if j != at: f.explicit = None
            tr.fields.append(f)
        add([d, strs, tupl, tr])
    # values: what serde writes decides which names are always, sometimes or never there
    gv = Gen(random.Random("C03v/%d" % ctx.seed))
    for c in cases:
        vals = ""
        for d in c.defs[2:]:
            for j in range(2): vals += "rt::value(%s, %s, &%s);\n" % (rs(c.name), rs("v:" + d.ident), turn(d, gv, j))
        c.tail = vals
    observe(ctx, cases)
    ctx.coverage["rule"] = "every combination of skip/default/optional attributes on one field among others in structs and struct variants of the four tagging modes, random containers of 0-80 fields, skipped variants and tuple fields whose types have no schema; observed: schema, components and the keys serde writes; distinct by schema and components"

def turn(d, g, j):
    if d.kind == "enum":
        vs = d.live()
        v = vs[j % len(vs)]
        return v.val(g, d.ident, 0)
    return d.val(g)

def observe(ctx, cases):
    events = run_cases(ctx, cases)
    by = {(c.name, d.ident): d for c in cases for d in c.defs}
    schemas = {}
    for e in events:
        if e["ev"] == "schema": schemas[e["case"], e["id"][2:]] = e["schema"]
        if e["ev"] == "value":
            d, s = by[e["case"], e["id"][2:]], schemas[e["case"], e["id"][2:]]
            if d.kind == "struct" and not d.transparent: judge(ctx, e, d, d.fields, None, s, e["json"])
            elif d.kind == "enum" and d.mode() in ("external", "adjacent", "internal", "untagged"): judge_enum(ctx, e, d, s)

def judge(ctx, e, d, fields, rule, s, value, tag=()):
    if not isinstance(value, dict): ctx.violation("serde did not write an object", case=e["case"], value=value); return
    hidden = {f.name(rule) for f in fields if not f.skip and f.skip_if}
    props, req, keys = set(s.get("properties", {})) - set(tag), set(s.get("required", [])) - set(tag), set(value) - set(tag)
    ctx.count("serde_values_compared")
    bad = []
    if props - keys - hidden or keys - props: bad.append("properties %r, serde writes %r (conditionally hidden: %r)" % (sorted(props), sorted(keys), sorted(hidden)))
    if not req <= keys: bad.append("required %r, serde writes %r" % (sorted(req), sorted(keys)))
    if bad: ctx.violation("schema disagrees with what serde writes", case=e["case"], type=d.ident, problems=bad, schema=s, value=value)

def judge_enum(ctx, e, d, s):
    vs = d.live()
    v, value, tag = None, e["json"], ()
    names = {x.name(d.rename_all): x for x in vs}
    if d.mode() == "external":
        if not isinstance(value, dict): return
        (k, value), = value.items()
        v = names[k]; alt = s["additionalProperties"]["oneOf"][vs.index(v)]
    elif d.mode() == "adjacent":
        v = names[value["t" if "t" in value else "tag"]]
        if v.style == "unit": return
        value = value["c" if "c" in value else "content"]
        alt = s["properties"][d.content]["oneOf"][[x for x in vs if x.style != "unit"].index(v)]
    elif d.mode() == "internal":
        v = names[value[d.tag]]; alt = s["oneOf"][vs.index(v)]; tag = (d.tag,)
    else: return
    if v.style == "struct": judge(ctx, e, d, v.fields, v.rename_all, alt, value, tag)
