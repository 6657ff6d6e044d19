"""C05: enum schemas follow the tagging mode, every serialized variant once, in order."""
from conform import *
from defgen import *
import itertools

STYLES = {"external": ["unit", "new", "tuple", "struct"], "internal": ["unit", "struct", "new", "gone"], "adjacent": ["unit", "new", "tuple", "struct", "gone"], "untagged": ["new", "struct", "tuple2"]}
MODES = list(STYLES)

def with_mode(d, mode, tag="tag", content="content"):
    d.untagged = mode == "untagged"
    if mode in ("internal", "adjacent"): d.tag = tag
    if mode == "adjacent": d.content = content
    return d

def variant(g, i, style, mode, ds, ident=None):
    r = g.rng
    ident = ident or "V%d" % i
    obj_, nested = ds[0], ds[1]
    ts = [STRING, BYNAME["u8"], BOOL, Opt(STRING), Seq("Vec", BYNAME["i64"]), DefT(obj_), Opt(DefT(obj_)), Seq("Vec", DefT(nested)), Map("HashMap", STRING, DefT(obj_)), DefT(ds[2]), DefT(ds[3]), Wrap("Box", DefT(nested)), UNITT]
    if style == "unit": return Variant(ident, "unit")
    if style == "gone": return Variant(ident, "unit", gone=skipped(g, None, ()))
    if style == "new":
        t = r.choice(ts)
        if mode == "internal": t = r.choice([DefT(obj_), DefT(nested), Wrap("Box", DefT(obj_)), Map("BTreeMap", STRING, BOOL), UNITT, Wrap("Box", UNITT), DefT(ds[2]), DefT(ds[4]), Wrap("Rc", DefT(ds[5])), DefT(r.choice(ds[6:])), Wrap("&", DefT(r.choice(ds[6:])))])
        f = Field(None, t)
        if r.random() < .25: docs(g, Opts(nullable=.3 if mode != "internal" or "type" in t.schema([]) else 0), f, .4)
        return Variant(ident, "new", [f])
    if style == "tuple": return Variant(ident, "tuple", [Field(None, r.choice(ts)) for _ in range(r.choice([2, 2, 3, 5]))])
    fs = [Field("f%d" % j, r.choice(ts)) for j in range(r.choice([0, 1, 2, 4]))]
    for f in fs:
        if r.random() < .2: docs(g, Opts(nullable=.3), f, .4)
        if r.random() < .15: f.optional = True
        if r.random() < .1: f.skip_if = "never"
        if r.random() < .1: f.explicit = r.choice(list(EXPLICIT)); f.ty = EXPLICIT[f.explicit]
    if r.random() < .15: fs.insert(r.randrange(len(fs) + 1), skipped(g, "s", ()))
    return Variant(ident, "struct", fs)

def base():
    o = Def("Obj", "struct", [Field("x", BYNAME["u8"]), Field("y", STRING)])
    n = Def("Nested", "enum", (), [Variant("P", "struct", [Field("p", BOOL)]), Variant("Q", "struct", [])], tag="nk")
    s = Def("Strs", "enum", (), [Variant("A", "unit"), Variant("B", "unit")])
    w = Def("New", "newtype", [Field(None, STRING)])
    e = Def("Empty", "struct", [])
    a = Def("Adj", "enum", (), [Variant("A", "unit"), Variant("B", "new", [Field(None, DefT(o))])], tag="ak", content="ac")
    no = Def("NObj", "struct", [Field("n", BOOL), Field("o", Opt(STRING), optional=True)], nullable=True, desc="nullable object")
    ne = Def("NEmpty", "struct", [], nullable=True)
    na = Def("NAdj", "enum", (), [Variant("A", "struct", [Field("z", BOOL)])], tag="k", content="kc", nullable=True)
    ni = Def("NInt", "enum", (), [Variant("A", "unit"), Variant("B", "struct", [Field("z", BOOL)])], tag="k", nullable=True, desc="nullable alternatives")
    il = Def("InlObj", "struct", [Field("i", DefT(o))], inline=True, desc="in place")
    tr = Def("TrObj", "struct", [Field("t", DefT(o)), Field("u", OPAQUE, skip="skip")], transparent=True, desc="transparent")
    wo = Def("NewObj", "newtype", [Field(None, DefT(no))])
    ex = Def("Ext", "enum", (), [Variant("A", "new", [Field(None, BOOL)])], nullable=True)
    return [o, n, s, w, e, a, no, ne, na, ni, il, tr, wo, ex]

def reprs(g):
    r = g.rng
    ty = r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "isize", "usize"])
    n = r.choice([1, 2, 3, 5, 9, 20])
    d = Def("R", "enum", repr=ty)
    bits = 64 if "size" in ty else int(ty[1:])
    lo, hi = (0, 2 ** bits - 1) if ty[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    vals, style = [], r.choice(["implicit", "explicit", "explicit", "expr", "wild"])
    if style != "implicit":
        pool = set()
        while len(pool) < n:
            pool.add(r.choice([r.randint(max(lo, -50), min(hi, 100)), r.randint(lo, hi), lo, hi, 0, 1]))
        vals = list(pool)
        r.shuffle(vals)
    for i in range(n):
        v = Variant("V%d" % i, "unit")
        if vals:
            k = vals[i]
            forms = [(str(k), k)]
            if k >= 0: forms += [(hex(k), k), ("0b" + bin(k)[2:], k), ("0o" + oct(k)[2:], k), ("%d%s" % (k, ty), k)]
            if 2 <= k <= hi - 2: forms += [("%d + 2" % (k - 2), k), ("%d - 1" % (k + 1), k), ("(%d)" % k, k), ("%d as %s" % (k, ty), k)]
            if k in (1, 2, 4, 8, 16, 32, 64): forms.append(("1 << %d" % (k.bit_length() - 1), k))
            v.disc = r.choice(forms) if style != "explicit" else forms[0]
        d.variants.append(v)
    if r.random() < .3: d.rename_all = r.choice(RULES)
    if r.random() < .3: d.desc = g.text()
    return layout(g, Opts(noise=.2), d)

def run(ctx):
    cases = []
    g = Gen(random.Random("C05/%d" % ctx.seed))
    r = g.rng
    ds = base()
    todo = []
    # every ordered combination of up to three styles in every mode
    for mode in MODES:
        ss = [s for s in STYLES[mode] if s != "tuple2"]
        for n in (1, 2, 3):
            for combo in itertools.product(ss, repeat=n):
                if mode == "external" and all(s == "unit" for s in combo): continue
                todo.append(with_mode(Def("E", "enum", (), [variant(g, i, s, mode, ds) for i, s in enumerate(combo)]), mode))
    # larger ones, renamed, skipped, documented, recursive
    for k in range(ctx.n(420, 2500)):
        mode = MODES[k % 4]
        ss = [s for s in STYLES[mode] if s != "tuple2"]
        n = r.choice([2, 4, 6, 10]) if k % 10 else r.choice([30, 60, 100])
        ids = g.idents([v for v in VIDENTS if v[0].isascii()], min(n, 15)) + ["W%d" % i for i in range(max(0, n - 15))]
        r.shuffle(ids)
        vs = [variant(g, i, r.choice(ss), mode, ds, ids[i]) for i in range(n)]
        d = with_mode(Def("E", "enum", (), vs), mode, r.choice(["tag", "type", "$t", "é", "a b", "", " t "]), r.choice(["content", "data", "$c", "ç", " c"]))
        if mode == "external" and all(v.style == "unit" for v in vs): vs.append(Variant("Data", "new", [Field(None, BOOL)]))
        if r.random() < .4: d.rename_all = r.choice(RULES); d.rule_form = r.choice(["plain", "ser", "both"])
        for i, v in enumerate(vs):
            if r.random() < .15: v.rename = "renamed %d" % i; v.ren_form = r.choice(["plain", "ser", "both"])
            if r.random() < .15: v.desc = g.text()
            if v.style == "struct" and r.random() < .3: v.rename_all = r.choice(RULES)
            if r.random() < .15: v.skip = r.choice(["skip", "skip_serializing"])
            if v.style == "new" and mode != "internal" and r.random() < .1: v.fields[0].ty = Opt(Wrap("Box", DefT(d)))
            if v.style in ("new", "struct", "tuple") and r.random() < .08: v.inline = not any(f.ty.defs() == [d] for f in v.fields)
        if r.random() < .3: d.desc = g.text()
        if r.random() < .3 and mode != "untagged": d.nullable = True
        if r.random() < .15 and not any(x is d for v in vs for f in v.fields for x in f.ty.defs()): d.inline = True
        seen = set()
        d.variants = [v for v in vs if not (v.name(d.rename_all) in seen or seen.add(v.name(d.rename_all)))]
        if d.tag is not None and d.tag == d.content: continue
        todo.append(d)
    # strings
    for k in range(ctx.n(180, 540)):
        n = r.choice([1, 2, 5, 20, 20, 100]) if k else 0
        ids = g.idents([v for v in VIDENTS if v[0].isascii()], min(n, 18)) + ["W%d" % i for i in range(max(0, n - 18))]
        d = Def("E", "enum", (), [Variant(i, "unit") for i in ids])
        if r.random() < .6: d.rename_all = r.choice(RULES)
        for i, v in enumerate(d.variants):
            if r.random() < .2: v.rename = r.choice(STRINGS + [v.ident]) + str(i)
            if r.random() < .2: v.skip = r.choice(["skip", "skip_serializing"])
        seen = set()
        d.variants = [v for v in d.variants if not (v.name(d.rename_all) in seen or seen.add(v.name(d.rename_all)))]
        todo.append(d)
        # the same names under a tag
        e = Def("E", "enum", (), [Variant(v.ident, "unit", rename=v.rename, skip=v.skip) for v in d.variants], rename_all=d.rename_all)
        todo.append(with_mode(e, r.choice(["internal", "adjacent"])))
    for d in todo:
        layout(g, Opts(noise=.2), d)
    for i, d in enumerate(todo):
        cases.append(Case("e%d" % i, ds + [d], default_probes([d])))
    rp = [reprs(g) for _ in range(ctx.n(360, 1080))]
    for i, d in enumerate(rp):
        c = Case("r%d" % i, [d], default_probes([d]))
        c.tail = "".join("  rt::value_l(%s, \"R\", %s, &R::%s);\n" % (rs(c.name), rs(v.ident), v.ident) for v in d.variants)
        cases.append(c)
    events = run_cases(ctx, cases)
    # integers: the example of alternative i is what serde_repr writes for variant i
    wrote = {}
    for e in events:
        if e["ev"] == "value": wrote.setdefault(e["case"], []).append(e["json"])
    for e in events:
        if e["ev"] == "schema" and e["case"] in wrote:
            got = [a.get("example") for a in e["schema"].get("oneOf", [])]
            ctx.count("repr_values_compared", len(got))
            if got != [str(x) for x in wrote[e["case"]]]:
                ctx.violation("examples of a repr enum are not the integers serde_repr writes", case=e["case"], examples=got, written=wrote[e["case"]])
    ctx.coverage["enums"] = len(todo) + len(rp)
    ctx.coverage["rule"] = "every ordered combination of 1-3 variant styles in each tagging mode, random enums up to 100 variants with renames, skips, rules and recursion, unit-only and repr enums; full schemas compared with the reference, repr examples with serde_repr's output; distinct by schema and components"
