"""Random type definitions."""
from typegen import *
from common import sized

EXW = [("rt::ex_num()", "1599083980"), ("1 + 2 * 3", "7"), ("rt::ex_str(\"q\")", "<q>"), ("!false", "true"), ("'c'", "c"), ("(44 as u8)", "44"), ("rt::EX_CONST", "const!")]

class Opts:
    docs = .25
    fmt_prefix = ""         # set where a declared format must not be mistaken for one the validator enforces
    rename = .2
    rules = .4
    skip = .12
    skip_if = .12
    optional = .1
    explicit = .06
    inline = .08
    cont_inline = .12
    transparent = .08
    noise = .15
    nullable = .1
    depth = 2
    recursive = .5
    nfields = (1, 2, 3, 4, 6)
    nvariants = (1, 2, 3, 4)
    external_units = False   # unit variants in externally tagged enums with data (known finding)
    kinds = ("struct",) * 4 + ("newtype", "newtype", "transparent", "tuple", "strings", "external", "untagged", "internal", "internal", "adjacent", "adjacent", "repr")
    def __init__(self, **k): self.__dict__.update(k)

RATES = {"docs": (0, .1, .4, .9), "rename": (0, .1, .5, .9), "rules": (0, .3, .9), "skip": (0, .05, .3, .5), "skip_if": (0, .1, .5), "optional": (0, .1, .4), "explicit": (0, .06, .25), "inline": (0, .1, .4), "cont_inline": (0, .1, .4),
         "transparent": (0, .1, .3), "noise": (0, .1, .5), "nullable": (0, .1, .5), "recursive": (0, .4, .9)}
def swarm(r, o, keep=()):
    """The same options with every rate, the kinds of definitions and their sizes drawn anew: some programs are full of
    one feature and without another."""
    k = dict(o.__dict__)
    for n, c in RATES.items():
        if n not in keep: k[n] = r.choice(c)
    if "kinds" not in keep:
        names = sorted(set(o.kinds))
        k["kinds"] = tuple(r.choices(names, k=r.choice([1, 2, 3, 6, 12])))
    if "nfields" not in keep: k["nfields"] = r.choice([(0, 1), (1, 2), (2, 3, 4), (1, 3, 8), (5, 9, 14)])
    if "nvariants" not in keep: k["nvariants"] = r.choice([(1,), (1, 2), (2, 3, 4), (3, 6, 12)])
    return Opts(**k)

def mixed(r, o, keep=()):
    return swarm(r, o, keep) if r.random() < .5 else o

NOISE_F = ["default", "skip_deserializing", "alias = \"zz\"", "default = \"Default::default\"", "serialize_with = \"rt::ser_same\"", "with = \"rt::same\"", "deserialize_with = \"zz::read\""]
OTHER = ["#[allow(dead_code)]", "/// a doc comment with \"quotes\"\n", "#[doc = \"doc\"]", "#[cfg_attr(all(), allow(unused))]", "#[cfg(all())]"]

def predicates(ty):
    """Paths for skip_serializing_if, in every form a path can have."""
    out = ["rt::never", "rt::always", "never", "always", "::rt::never", "self::always", "rt::never::<_>", "<rt::Preds as rt::Pred>::never"]
    if isinstance(ty, Opt): out += ["Option::is_none", "std::option::Option::is_some", "<Option<_>>::is_none"]
    if isinstance(ty, Seq) and ty.kind == "Vec": out += ["Vec::is_empty", "<[_]>::is_empty"]
    if isinstance(ty, Map): out += [ty.kind + "::is_empty"]
    if ty is STRING: out += ["String::is_empty", "str::is_empty"]
    return out

def docs(g, o, x, p, nullable=True, fmt=True):
    r = g.rng
    if r.random() < p: x.desc = g.text()
    if fmt and r.random() < p * .5: x.fmt = o.fmt_prefix + g.text()
    if fmt and r.random() < p * .6:
        if r.random() < .6: x.ex = g.text()
        else: x.ex_with = r.choice(EXW)
    if nullable and r.random() < o.nullable: x.nullable = True
    return x

def rand_field(g, o, ident, defs, later, inplace=False):
    r = g.rng
    f = Field(ident, g.ty(o.depth, defs, later))
    docs(g, o, f, o.docs)
    x = r.random()
    if x < o.explicit:
        f.explicit = r.choice(["string", "integer", "number", "boolean", "any"])
        f.ty = EXPLICIT[f.explicit]
        if f.explicit in ("integer", "string", "boolean", "number") and r.random() < .4:
            f.ty = g.ty(1, (), ())
            f.ser = ("serialize_with = \"rt::ser_as_%s\"" % {"string": "str", "integer": "int", "boolean": "bool", "number": "num"}[f.explicit],)
        f.inline = r.random() < .1
    elif x < o.explicit + o.inline * 1.5 and not later:
        f.inline = True
    if ident and r.random() < o.noise and not f.ser: f.ser = (r.choice(NOISE_F),)
    if r.random() < o.noise: f.other = (r.choice(OTHER),)
    return f

def skipped(g, ident, defs):
    r = g.rng
    ty = OPAQUE
    if defs and r.random() < .5: ty = Raw("Option<%s>" % r.choice(defs).ident, ["None"])
    f = Field(ident, ty, skip=r.choice(["skip", "skip_serializing"]))
    if r.random() < .3: f.desc = g.text()
    if r.random() < .15: f.explicit = r.choice(list(EXPLICIT))
    if r.random() < .15: f.inline = True
    if r.random() < .15: f.optional = True
    if r.random() < .1: f.nullable = True
    if r.random() < .1: f.fmt = g.text()
    return f

def rand_fields(g, o, n, defs, later, rule, taken=()):
    r = g.rng
    out, names = [], set(taken)
    for ident in g.idents([i for i in IDENTS if not (rule in ("camelCase", "PascalCase") and not unraw(i).strip("_"))], n):
        if rule == "camelCase" and not (rename_field("PascalCase", unraw(ident))[:1].isascii()): continue
        if {unraw(ident), rename_field("kebab-case", unraw(ident))} & set(taken): continue   # the name it would be read under
        if r.random() < o.skip:
            f = skipped(g, ident, defs)
            if f.name(rule) not in taken: out.append(f)   # serde rejects a field named like the tag even if it is skipped
            continue
        f = rand_field(g, o, ident, defs, later)
        if r.random() < o.rename:
            f.rename = r.choice(["renamed", "with space", "kebab-x", "Ünï", "$ref", "a.b/c", "type", "", "0", "\"q\"", "new\nline", " pad ", unraw(ident), rename_field(rule, unraw(ident)), rename_field("PascalCase", unraw(ident))])
            f.ren_form = r.choice(["plain", "ser", "both", "both2"])
        if r.random() < o.skip_if: f.skip_if = r.choice(predicates(f.ty))
        if r.random() < o.optional: f.optional = True
        if f.name(rule) in names: continue
        names.add(f.name(rule))
        out.append(f)
    return out

def newtype_field(g, o, defs, later):
    f = Field(None, g.ty(o.depth, defs, ()))
    if later and g.rng.random() < .3: f.ty = Seq("Vec", DefT(g.rng.choice(later)))
    docs(g, o, f, o.docs * .5)
    if not later and r_(g, o.inline): f.inline = True
    if r_(g, o.noise * .3): f.other = (g.rng.choice(OTHER),)
    return f

def r_(g, p): return g.rng.random() < p

def tuple_fields(g, o, n, defs, later):
    r = g.rng
    out = []
    for i in range(n):
        if r.random() < o.skip and (i or n > 2): out.append(skipped(g, None, defs))
        else: out.append(rand_field(g, o, None, defs, later))
    return out

def objectlike(d, seen=()):
    """Does serde write this definition as a map (so it can be the content of an internally tagged newtype variant)?"""
    if d in seen: return False
    if d.kind == "enum" and d.mode() == "internal" and any(v.style == "new" and (not v.fields[0].ty.defs() or any(x.kind == "enum" for x in v.fields[0].ty.defs())) for v in d.live()):
        return False  # an open map inside alternatives would take the outer tag for one of its entries (listed finding)
    if d.kind == "enum": return d.mode() in ("internal", "adjacent", "external") and not (d.mode() == "external" and any(v.style == "unit" for v in d.live()))
    return d.kind == "struct" and not d.transparent

def keys_of(d):
    """Names that may appear as top-level keys of the serialized value."""
    if d.kind == "struct": return {f.name(d.rename_all) for f in d.fields if not f.skip}
    if d.mode() == "adjacent": return {d.tag, d.content}
    if d.mode() == "external": return {v.name(d.rename_all) for v in d.live()}
    out = {d.tag}
    for v in d.live():
        if v.style == "struct": out |= {f.name(v.rename_all) for f in v.fields if not f.skip}
        elif v.style == "new":
            for x in v.fields[0].ty.defs(): out |= keys_of(x)
    return out

def reading_only(g, o, d):
    """serde attributes that change nothing about what is written."""
    r = g.rng
    if d.repr or d.transparent: return d
    pick = lambda c: (r.choice(c),)
    if not d.ser and r.random() < o.noise:
        c = ["deny_unknown_fields", "expecting = \"zz\"", "rename = \"ZzName\"", "rename(deserialize = \"ZzName\")", "crate = \"serde\""]
        if d.rename_all is None and d.kind in ("struct", "enum"): c += ["rename_all(deserialize = %s)" % g.lit(r.choice([x for x in RULES if x != "camelCase"]))] * 2
        if d.kind == "struct": c.append("default")
        d.ser = pick(c)
    for v in d.variants:
        if not v.ser and not v.skip and r.random() < o.noise * .7:
            c = ["skip_deserializing", "alias = \"zz_alias%d\"" % d.variants.index(v)]
            if v.rename is None: c.append("rename(deserialize = \"zz_read%d\")" % d.variants.index(v))
            if v.rename_all is None and d.mode() != "internal": c.append("rename_all(deserialize = %s)" % g.lit(r.choice([x for x in RULES if x != "camelCase"])))
            v.ser = pick(c)
    for fs in [d.fields] + [v.fields for v in d.variants]:
        for i, f in enumerate(fs):
            if f.ser or f.skip or f.phantom or r.random() >= o.noise * .7: continue
            c = ["skip_deserializing", "skip_deserializing", "serialize_with = \"rt::ser_same\"", "with = \"rt::same\"", "deserialize_with = \"zz::read\""]
            if f.ident: c.append("alias = \"zz_alias%d\"" % i)
            if f.ident and f.rename is None: c += ["rename(deserialize = \"zz_read%d\")" % i] * 2
            f.ser = pick(c)
    return d

def layout(g, o, d):
    """Memory layouts say nothing about what is written (only an integer type on an enum of units makes it a repr enum)."""
    r = g.rng
    if r.random() >= o.noise: return d
    c = ["#[repr(align(8))]", "#[repr(align(16))]"]
    if not d.repr: c += ["#[repr(C)]"] * 2
    if d.kind == "newtype" and len(d.fields) == 1: c.append("#[repr(transparent)]")
    if d.kind == "enum" and not d.variants: return d
    if d.kind == "enum" and any(v.style != "unit" for v in d.variants): c += ["#[repr(u8)]", "#[repr(C, i16)]"]
    d.other = tuple(d.other) + (r.choice(c),)
    if d.kind == "enum" and not d.repr and all(v.style == "unit" and not v.gone for v in d.variants) and r.random() < .5:
        for i, v in enumerate(d.variants): v.disc = (str(i * 5 + 2), i * 5 + 2)
    return d

def rand_def(g, o, defs=(), later=(), kind=None, ident=None):
    return layout(g, o, reading_only(g, o, rand_def_(g, o, defs, later, kind, ident)))

def rand_def_(g, o, defs=(), later=(), kind=None, ident=None):
    """defs: definitions usable anywhere; later: placeholders for definitions still to come (used behind collections)."""
    r = g.rng
    kind = kind or r.choice(o.kinds)
    d = Def(ident or g.name(), "struct")
    d.inline = r.random() < o.cont_inline
    later = [] if d.inline else list(later) + ([d] if r.random() < o.recursive else [])
    if r.random() < o.docs: d.desc = g.text()
    if r.random() < o.noise: d.other = (r.choice(OTHER[:4]),)
    if r.random() < o.rules:
        d.rename_all = r.choice(RULES); d.rule_form = r.choice(["plain", "plain", "ser", "both"])
    if kind == "struct":
        d.fields = rand_fields(g, o, sized(r, o.nfields, (20, 45), .02), defs, later, d.rename_all)
        d.nullable = r.random() < o.nullable
        live = [f for f in d.fields if not f.skip]
        if len(live) == 1 and r.random() < o.transparent * 4 and not live[0].explicit and not live[0].skip_if and not live[0].optional and not live[0].inline:
            live[0].ty = g.ty(o.depth, defs, ()); live[0].ser = ()
            live[0].rename = None
            d.transparent = True
            d.rename_all = None
            for f in d.fields: f.ser = ()
            docs(g, o, d, o.docs)
        return d
    if kind == "transparent":
        # one live field anywhere among skipped ones, named or not
        d.transparent = True; d.rename_all = None
        named = r.random() < .6
        if not named: d.kind = "tuple"
        n = r.choice([0, 1, 2, 3])
        ids = g.idents([i for i in IDENTS if i.isascii()], n + 1) if named else [None] * (n + 1)
        at = r.randrange(n + 1)
        d.fields = [skipped(g, i, defs) for i in ids]
        for f in d.fields:
            f.explicit = None
            if r.random() < .25: f.skip, f.phantom, f.ty = None, True, Raw(r.choice(["std::marker::PhantomData<rt::Opaque>", "::core::marker::PhantomData<(u8, rt::Opaque)>"]), ["std::marker::PhantomData"])
        live = newtype_field(g, o, defs, later)
        live.ident = ids[at]
        d.fields[at] = live
        if n == 0 and not named: d.kind = "newtype"
        docs(g, o, d, o.docs)
        return d
    if kind == "newtype":
        d.kind = "newtype"; d.rename_all = None
        d.fields = [newtype_field(g, o, defs, later)]
        docs(g, o, d, o.docs)
        if r.random() < o.explicit:
            d.explicit = r.choice(["string", "integer", "number", "boolean"])
            d.fields[0] = Field(None, EXPLICIT[d.explicit])
        elif r.random() < o.transparent: d.transparent = True
        return d
    if kind == "tuple":
        d.kind = "tuple"; d.rename_all = None
        d.fields = tuple_fields(g, o, sized(r, [2, 2, 3, 4, 5], (9, 24), .03), defs, later)
        d.nullable = r.random() < o.nullable
        return d
    d.kind = "enum"
    n = sized(r, o.nvariants, (14, 40), .02)
    if kind == "strings": n = sized(r, [1, 2, 3, 5, 8], (20, 70), .05)
    vids = [v for v in VIDENTS if d.rename_all != "camelCase" or v[0].isascii()]
    names = set()
    vs = []
    d.tag = d.content = None
    if kind in ("internal", "adjacent"): d.tag = r.choice(["tag", "type", "kind_", "@t", "t y", " pad ", "\ttab"])
    if kind == "adjacent": d.content = r.choice(["content", "value_", "c", " c ", "Content"])
    if kind == "untagged": d.untagged = True
    if kind == "repr":
        d.repr = r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "i64", "u64"])
        explicit = r.random() < .6
        d.rename_all = None
    used = set()
    for i, ident in enumerate(g.idents(vids, n)):
        if kind in ("strings", "repr"): style = "unit"
        elif kind == "external": style = r.choice(["new", "tuple", "struct"] + (["unit"] if o.external_units else []))
        elif kind == "untagged": style = r.choice(["new", "struct"])
        elif kind == "internal": style = r.choice(["unit", "struct", "struct", "new"])
        else: style = r.choice(["unit", "new", "tuple", "struct"])
        v = Variant(ident, style)
        if kind != "repr" and r.random() < o.rename * .6:
            v.rename = r.choice(["ren amed", "X-y", "élan", "", "0", " pad", unraw(ident), unraw(ident), rename_variant(d.rename_all, unraw(ident))]); v.ren_form = r.choice(["plain", "ser", "both"])
        if v.name(d.rename_all) in names: continue
        if style == "unit" and kind in ("internal", "adjacent", "external") and r.random() < o.skip: v.gone = skipped(g, None, defs)
        if style == "new":
            v.fields = [newtype_field(g, o, defs, later)]
            if kind == "internal":
                c = [x for x in defs if objectlike(x) and d.tag not in keys_of(x)]
                f = v.fields[0]
                f.nullable = False
                if c and r.random() < .8: f.ty = DefT(r.choice(c)) if r.random() < .7 else Wrap(r.choice(["Box", "Rc", "&"]), DefT(r.choice(c)))
                elif r.random() < .2: f.ty = r.choice([UNITT] + [DefT(x) for x in defs if x.kind == "enum" and x.mode() == "strings" and d.tag not in {w.name(x.rename_all) for w in x.variants}])
                else: f.ty = Map("BTreeMap", STRING, g.ty(1, (), ()))
            elif r.random() < o.inline: v.fields[0].inline = True; v.fields[0].ty = g.ty(o.depth, defs, ())
        elif style == "tuple": v.fields = tuple_fields(g, o, r.choice([2, 3]), defs, later)
        elif style == "struct":
            if r.random() < o.rules * .6: v.rename_all = r.choice(RULES); v.rule_form = r.choice(["plain", "ser", "both"])
            v.fields = rand_fields(g, o, r.choice([0, 1, 2, 3]), defs, later, v.rename_all, {d.tag} if kind == "internal" else ())
        docs(g, o, v, o.docs, nullable=False, fmt=kind not in ("repr",))
        if style != "unit" and not later and r.random() < o.inline * .5: v.inline = True
        if kind == "repr" and explicit:
            k = i * 3 + r.randrange(3) if d.repr[0] == "u" else i * 3 + r.randrange(3) - 4
            v.disc = r.choice([(str(k), k), ("%d + %d - %d" % (k, 2, 2), k)])
            if k >= 0 and r.random() < .2: v.disc = ("0x%x" % k, k)
        if r.random() < o.skip and kind != "repr": v.skip = r.choice(["skip", "skip_serializing"])
        if r.random() < o.noise: v.other = (r.choice(OTHER),)
        names.add(v.name(d.rename_all))
        vs.append(v)
    if kind in ("external", "untagged") and all(v.style == "unit" for v in vs) or (kind == "untagged" and not vs):
        vs.append(Variant("Zz", "new", [newtype_field(g, o, defs, ())]))
    d.variants = vs
    if vs and not d.live(): r.choice(vs).skip = None
    if kind == "external" and not [v for v in d.live() if v.style != "unit"]: [v for v in vs if v.style != "unit"][0].skip = None
    if kind in ("external", "adjacent", "strings", "internal"): d.nullable = r.random() < o.nullable
    if kind == "strings": docs(g, o, d, o.docs * .4, nullable=False)
    return d

def rand_program(g, o, n):
    """n definitions; each may use earlier ones anywhere and later ones (including itself) behind collections."""
    idents = [g.name() for _ in range(n)]
    shells = [Def(i, "struct") for i in idents]
    out = []
    for i in range(n):
        later = [s for s in shells[i + 1:] if g.rng.random() < .3] if g.rng.random() < o.recursive else []
        d = rand_def(g, o, out, later, ident=idents[i])
        if shells[i].__dict__.get("used"): pass
        # keep the identity of the shell other definitions may already refer to
        inline = d.inline
        shells[i].__dict__.update(d.__dict__)
        for f in list(d.fields) + [f for v in d.variants for f in v.fields]: _swap(f.ty, d, shells[i])
        if any(shells[i] in later_of(x) for x in out): shells[i].inline = False
        else: shells[i].inline = inline
        out.append(shells[i])
    return out

def big_program(g, n):
    """A chain of n definitions (the first needs all others) with some links back and across: far more components, and a
    far deeper recursion, than any program written by hand."""
    r = g.rng
    ds = [Def("Big%d" % i, "struct") for i in range(n)]
    for i, d in enumerate(ds):
        nxt = [DefT(ds[i + 1])] if i + 1 < n else [r.choice([STRING, BOOL])]
        if r.random() < .3: nxt.append(Seq("Vec", DefT(r.choice(ds))))
        w = lambda t: r.choice([lambda: t, lambda: Opt(t), lambda: Wrap("Box", t), lambda: Seq("Vec", t), lambda: Map("BTreeMap", STRING, t), lambda: Tup([t, BOOL])])()
        nxt = [w(t) for t in nxt]
        k = r.choice(["struct", "struct", "tuple", "external", "adjacent", "internal", "untagged"])
        if k == "struct": d.fields = [Field("f%d" % j, t) for j, t in enumerate(nxt)]
        elif k == "tuple": d.kind = "tuple"; d.fields = [Field(None, t) for t in nxt] + [Field(None, BOOL)]
        else:
            d.kind = "enum"; d.untagged = k == "untagged"
            if k in ("internal", "adjacent"): d.tag = "t"
            if k == "adjacent": d.content = "c"
            d.variants = [Variant("A", "struct", [Field("f%d" % j, t) for j, t in enumerate(nxt)]), Variant("B", "struct", [Field("b", BOOL)])]
        if r.random() < .2: d.desc = g.text()
    return ds

def _swap(t, a, b):
    if isinstance(t, DefT):
        if t.d is a: t.d = b
    elif isinstance(t, Tup):
        for x in t.ts: _swap(x, a, b)
    elif hasattr(t, "t"): _swap(t.t, a, b)

def later_of(d):
    out = set()
    for f in list(d.fields) + [f for v in d.variants for f in v.fields]:
        for x in f.ty.defs(): out.add(x)
    return out
Def.__hash__ = object.__hash__
