"""C18: the derive rejects what it cannot describe, and accepts the same definition without the offending part."""
from conform import *
from defgen import *

TOML = CARGO_TOML.replace('rt = {{', 'rt_attrs = {{ path = "{verif}/rt_attrs" }}\nrt = {{')

# (kind, positions, offending attributes, attributes of the valid twin, keys that must be free on the item)
C, V, F = "container", "variant", "field"
ALL = (C, V, F)
def misuses():
    out = []
    def add(kind, where, bad, ok="", keys=()):
        for w in where: out.append((kind, w, bad, ok, tuple(keys)))
    for w in ("bogus", "Inline", "INLINE", "NULLABLE", "str", "int", "bool", "float", "object", "array", "desc", "description", "format", "example", "example_with", "a::b", "opg::inline", "r#type", "in_line", "null", "skip", "transparent", "default", "rename", "none"):
        add("unknown word " + w, ALL, "#[opg(%s)]" % w)
    add("optional", (C, V), "#[opg(optional)]")
    add("nullable", (V,), "#[opg(nullable)]")
    for w in ("description = \"x\"", "desc = \"x\"", "inline = \"x\"", "inline = true", "nullable = true", "nullable = \"true\"", "optional = true", "string = \"x\"", "any = true", "Format = \"x\"", "rename = \"x\"", "example_fn = \"x\"", "type = \"string\"", "examples = \"a\"", "formats = \"a\"", "minimum = 3"):
        add("unknown pair " + w, ALL, "#[opg(%s)]" % w)
    for w in ("nullable", "optional", "string", "integer", "number", "boolean", "format", "example", "example_with"): add("unknown list %s()" % w, ALL, "#[opg(%s())]" % w)
    for w in ("string", "integer", "number", "boolean", "any", "optional", "inline", "nullable"): add("unknown pair %s = ..." % w, ALL, "#[opg(%s = \"%s\")]" % (w, w))
    for w in ("nullable(true)", "inline()", "format(\"x\")", "example(\"x\")", "string(x)", "bogus(a, b)", "description(\"x\")", "any()", "integer(format = \"x\")", "optional()"):
        add("unknown list " + w, ALL, "#[opg(%s)]" % w)
    for w in ("#[opg]", "#[opg = \"x\"]", "#[opg(format \"x\")]", "#[opg(= 1)]", "#[opg(\"a\" \"b\")]", "#[opg(format = )]", "#[opg(inline nullable)]", "#[opg(,)]", "#[opg(format = \"a\" inline)]", "#[opg(format == \"a\")]", "#[opg(-)]", "#[opg(format: \"x\")]", "#[opg(inline; string)]", "#[opg(format = format!(\"x\"))]", "#[opg(example = CONST)]"):
        add("malformed " + w, ALL, w)
    # the same attribute twice, in one list or in two, with the same or different values
    for key, a, b, where in (("description", "\"x\"", "\"y\"", ALL), ("description", "\"x\"", "\"x\"", ALL), ("format", "format = \"x\"", "format = \"y\"", ALL), ("format", "format = \"x\"", "format = \"x\"", ALL),
                             ("example", "example = \"x\"", "example = \"y\"", ALL), ("example", "example_with = \"1\"", "example_with = \"2\"", ALL),
                             ("example", "example = \"1\"", "example_with = \"1\"", ALL), ("example", "example_with = \"1\"", "example = \"1\"", ALL), ("inline", "inline", "inline", ALL), ("nullable", "nullable", "nullable", (C, F)), ("optional", "optional", "optional", (F,))):
        add("twice %s / %s" % (a, b), where, "#[opg(%s, %s)]" % (a, b), "#[opg(%s)]" % a, [key])
        add("twice apart %s / %s" % (a, b), where, "#[opg(%s)] #[opg(%s)]" % (a, b), "#[opg(%s)]" % a, [key])
        add("twice with others %s / %s" % (a, b), where, "#[opg(%s)] #[doc = \"d\"] #[opg(%s,)] #[allow(unused)]" % (a, b), "#[opg(%s)] #[allow(unused)]" % a, [key])
    ts = ["string", "integer", "number", "boolean", "any"]
    for a in ts:
        for b in ts:
            add("two types %s %s" % (a, b), ALL, "#[opg(%s, %s)]" % (a, b), "#[opg(%s)]" % (a if a != "any" else "string"), ["explicit"])
    add("two types apart", ALL, "#[opg(string)] #[opg(number)]", "#[opg(string)]", ["explicit"])
    add("three types", ALL, "#[opg(string, number, boolean)]", "#[opg(string)]", ["explicit"])
    for v in ("1", "-1", "1.5", "true", "'c'", "b\"x\"", "b'x'", "1u8"):
        for key in ("format", "example", "example_with"):
            add("%s = %s" % (key, v), ALL, "#[opg(%s = %s)]" % (key, v), "#[opg(%s = \"1\")]" % key, ["example" if key != "format" else "format"])
        add("description %s" % v, ALL, "#[opg(%s)]" % v, "#[opg(\"1\")]", ["description"])
    for v in ("", "1 +", ")", "let x", "a b", "{", "fn", "\\\"", "1, 2", ";"):
        add("unparsable example_with %r" % v, ALL, "#[opg(example_with = \"%s\")]" % v, "#[opg(example_with = \"1 + 1\")]", ["example"])
    return out

KEY = {"description": lambda x: x.desc is not None, "format": lambda x: x.fmt is not None, "example": lambda x: x.ex is not None or x.ex_with is not None, "inline": lambda x: x.inline,
       "nullable": lambda x: x.nullable, "optional": lambda x: getattr(x, "optional", False), "explicit": lambda x: x.explicit is not None}

def positions(d):
    """(kind of place, what exactly, item)."""
    out = [(C, d.kind if d.kind != "enum" else d.mode(), d)]
    for i, f in enumerate(d.fields): out.append((F, "%s field%s%s" % (d.kind, " skipped" if f.skip else "", " last" if i and i == len(d.fields) - 1 else ""), f))
    for i, v in enumerate(d.variants):
        out.append((V, "%s %s variant%s%s" % (d.mode(), v.style, " skipped" if v.skip else "", " last" if i and i == len(d.variants) - 1 else ""), v))
        for f in v.fields: out.append((F, "%s %s variant field%s" % (d.mode(), v.style, " skipped" if f.skip or v.skip else ""), f))
    return out

def attribute_cases(ctx):
    """Each misuse in random places of random definitions."""
    cases = []
    ms = misuses()
    per = ctx.n(2, 12)
    for mi, (kind, where, bad, ok, keys) in enumerate(ms):
        done, tries = 0, 0
        while done < per and tries < 60:
            tries += 1
            seed = "%s/%d/%d/%d" % (ctx.prop, ctx.seed, mi, tries)
            g = Gen(random.Random(seed))
            d = rand_def(g, Opts(depth=1, docs=.15, recursive=0, external_units=True, explicit=.03), (), ())
            ps = [p for p in positions(d) if p[0] == where and not any(KEY[k](p[2]) for k in keys)]
            if where == C and d.kind in ("newtype",) and "explicit" in keys: ps = []
            if not ps: continue
            what, item = g.rng.choice(ps)[1:]
            if "explicit" in keys and where == F and getattr(item, "ser", ()): continue
            state = g.rng.getstate()
            texts = []
            old = item.other
            for a in (bad, ok):
                g.rng.setstate(state)
                item.other = tuple(old) + ((a,) if a else ())
                texts.append(d.rust(g))
            item.other = old
            cases.append((kind, what, texts[0], texts[1]))
            done += 1
    return cases

def structural(ctx):
    r = random.Random("%s/%d/s" % (ctx.prop, ctx.seed))
    D, DS = "#[derive(OpgModel)] ", "#[derive(Serialize, OpgModel)] "
    out = []
    for a in ("", "#[opg(inline)] ", "#[opg(\"text\")] ", "#[repr(C)] ", "#[opg(nullable, string)] "):
        out.append(("union", "container", "#[derive(OpgModel)] %spub union X { a: u8, b: u16 }" % a, "#[derive(OpgModel)] %spub struct X { a: u8, b: u16 }" % a))
        out.append(("union generic", "container", "#[derive(OpgModel)] %spub union X<T: Copy> { a: T, b: u16 }" % a, "#[derive(OpgModel)] %spub struct X<T: Copy> { a: T, b: u16 }" % a))
    for a in ("", "#[opg(inline)] ", "#[opg(\"text\", format = \"f\")] ", "#[opg(nullable)] ", "#[opg(string)] ", "#[serde(rename = \"y\")] ", "#[serde(rename_all = \"camelCase\")] "):
        out.append(("unit struct", "container", DS + a + "pub struct X;", DS + a + "pub struct X {}" if "string" not in a else DS + a + "pub struct X(String);"))
        out.append(("unit struct", "container", DS + a + "pub struct X where u8: Copy;", DS + a + "pub struct X where u8: Copy { a: u8 }"))
    for n in (1, 2, 3, 9):
        vs = ["V%d" % i for i in range(n)]
        for a in ("", "#[opg(inline)] ", "#[serde(rename_all = \"snake_case\")] ", "#[opg(\"text\")] ", "#[repr(u8)] "):
            out.append(("untagged units", "container", DS + "#[serde(untagged)] " + a + "pub enum X { %s }" % ", ".join(vs), DS + a + "pub enum X { %s }" % ", ".join(vs)))
            out.append(("untagged units", "container", DS + a + "#[serde(untagged)] " + "pub enum X { %s, #[serde(skip)] #[opg(\"d\")] S }" % ", ".join(vs), DS + a + "#[serde(untagged)] pub enum X { %s, D(u8) }".replace("%s, ", "") ))
    for n in (2, 3, 5, 8):
        for mask in range(1, (1 << n) - 1):
            if n > 3 and r.random() > (.4 if n == 5 else .06): continue
            vs = ["V%d" % i + (" = %d" % (i * 10) if mask >> i & 1 else "") for i in range(n)]
            all_ = ["V%d = %d" % (i, i * 10) for i in range(n)]
            none = ["V%d" % i for i in range(n)]
            a = r.choice(["", "#[repr(u8)] ", "#[repr(i32)] ", "#[opg(inline)] ", "#[serde(tag = \"t\")] ", "#[serde(tag = \"t\", content = \"c\")] "])
            out.append(("partial discriminants", "mask %s of %d" % (bin(mask), n), DS + a + "pub enum X { %s }" % ", ".join(vs), DS + a + "pub enum X { %s }" % ", ".join(all_ if mask & 1 else none)))
    return out

# ---- accepted and ignored
NOISE = {
    C: ["#[serde(deny_unknown_fields)]", "#[serde(default)]", "#[serde(expecting = \"text\")]", "#[serde(bound = \"\")]", "#[serde(bound(deserialize = \"\"))]", "#[serde(crate = \"serde\")]", "#[serde(rename(deserialize = \"Other\"))]", "#[serde(rename_all(deserialize = \"kebab-case\"))]",
        "#[allow(dead_code)]", "#[doc = \"text\"]", "/// text\n", "#[doc(hidden)]", "#[must_use]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[non_exhaustive]", "#[derive(Clone, Debug)]", "#[rustfmt::skip]", "#[deprecated]", "#[serde(rename = \"Wire\")]", "#[opg()]", "#[serde()]", "#[cfg_attr(any(), opg(bogus))]"],
    F: ["#[serde(default)]", "#[serde(default = \"Default::default\")]", "#[serde(alias = \"zz\")]", "#[serde(skip_deserializing)]", "#[serde(deserialize_with = \"Deserialize::deserialize\")]", "#[serde(bound(deserialize = \"\"))]", "#[serde(rename(deserialize = \"zz\"))]",
        "#[allow(dead_code)]", "#[doc = \"text\"]", "/// text\n", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[rustfmt::skip]", "#[doc(alias = \"x\")]", "#[opg()]", "#[serde()]", "#[cfg_attr(any(), opg(bogus))]", "#[cfg_attr(any(), serde(skip))]"],
    V: ["#[serde(alias = \"zz\")]", "#[serde(skip_deserializing)]", "#[serde(rename(deserialize = \"zz\"))]", "#[serde(rename_all(deserialize = \"kebab-case\"))]", "#[serde(bound(deserialize = \"\"))]",
        "#[allow(dead_code)]", "#[doc = \"text\"]", "/// text\n", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[rustfmt::skip]", "#[opg()]", "#[serde()]", "#[cfg_attr(any(), opg(bogus))]", "#[cfg_attr(any(), serde(skip))]"],
}
HOSTS = {   # @C@, @V@, @F@ mark the places
    "struct": "@C@pub struct X { @F@pub a_b: Vec<u8>, @F@pub c: Option<String>, }",
    "newtype": "@C@pub struct X(@F@pub Vec<String>);",
    "tuple": "@C@pub struct X(@F@pub u8, @F@pub String);",
    "strings": "@C@pub enum X { @V@FirstOne, @V@Second }",
    "external": "@C@pub enum X { @V@New(@F@u8), @V@Tup(@F@u8, @F@String), @V@Str { @F@a_b: u8 } }",
    "internal": "@C@#[serde(tag = \"t\")] pub enum X { @V@Unit, @V@Str { @F@a_b: u8 } }",
    "adjacent": "@C@#[serde(tag = \"t\", content = \"c\")] pub enum X { @V@Unit, @V@New(@F@u8), @V@Str { @F@a_b: u8 } }",
    "untagged": "@C@#[serde(untagged)] pub enum X { @V@New(@F@Vec<u8>), @V@Str { @F@a_b: u8 } }",
}

def noise_cases(ctx):
    """Each attribute at each place of each kind of type; serde decides which combinations are legal."""
    r = random.Random("%s/%d/n" % (ctx.prop, ctx.seed))
    out = []
    for host, text in HOSTS.items():
        for mark, items in NOISE.items():
            m = "@%s@" % mark[0].upper()
            n = text.count(m)
            for a in items:
                if n == 0: continue
                for k in (range(n) if ctx.thorough else [r.randrange(n)]):
                    parts = text.split(m)
                    s = parts[0] + "".join(((a + " ") if i == k else "") + p for i, p in enumerate(parts[1:]))
                    for x in ("@C@", "@V@", "@F@"): s = s.replace(x, "")
                    out.append((host, mark, a, s))
    return out

def run(ctx):
    # --- misuse
    cases = attribute_cases(ctx) + structural(ctx)
    units = [Unit("x%d" % i, c[2] + "\npub fn run() {}\n") for i, c in enumerate(cases)]
    # nothing but the derive objects to the program
    noop = [Unit(u.name, u.body.replace("OpgModel)]", "rt_attrs::OpgNone)]")) for u in units]
    odd = {n for b, n, ds in ctx.build(spread(noop, 8, "n"), sub="none", toml=TOML)}
    twins = [Unit("t%d" % i, c[3] + "\npub fn run() {}\n") for i, c in enumerate(cases)]
    rejected_twins = {n: ds for b, n, ds in ctx.build(spread(twins, 8, "t"), sub="twins", toml=TOML)}
    rejected = {n: ds for b, n, ds in ctx.build(spread([u for u in units if u.name not in odd], 8, "x"), sub="misuse", toml=TOML)}
    ctx.coverage["programs_others_reject_too"] = len(odd)
    kinds, places = {}, {}
    for i, (kind, what, bad, ok) in enumerate(cases):
        if "x%d" % i not in odd:
            ctx.saw(("reject", kind, what, bad)); ctx.count("misuses_observed")
            kinds[kind] = kinds.get(kind, 0) + 1; places[what] = places.get(what, 0) + 1
            if "x%d" % i not in rejected: ctx.violation("a definition that cannot be described is accepted", kind=kind, place=what, source=bad[:2500])
            else: ctx.sample(dict(kind=kind, place=what, diagnostic=rejected["x%d" % i][0].split("\n")[0]), 5)
        ctx.saw(("accept", kind, what, ok)); ctx.count("twins_observed")
        if "t%d" % i in rejected_twins:
            ctx.violation("the valid twin of a misuse is rejected", kind=kind, place=what, diagnostics=[x[:1200] for x in rejected_twins["t%d" % i][:2]], source=ok[:2500])
    ctx.coverage["kinds"] = len(kinds); ctx.coverage["places"] = places
    # --- accepted and ignored
    ns = noise_cases(ctx)
    D = "use serde::Deserialize;\n#[derive(Serialize, Deserialize, %s)] "
    def body(s, case, derive="OpgModel"): return Unit(case, D % derive + s + ("\npub fn run() { rt::schema::<X>(%s, \"s\"); rt::mention::<X>(%s, \"m\", false, &Default::default()); }\n" % (rs(case), rs(case)) if derive == "OpgModel" else "\npub fn run() {}\n"))
    base = {h: body(t.replace("@C@", "").replace("@V@", "").replace("@F@", ""), "base_" + h) for h, t in HOSTS.items()}
    illegal = {n for b, n, ds in ctx.build(spread([body(s, "z%d" % i, "rt_attrs::OpgNone") for i, (h, m, a, s) in enumerate(ns)], 8, "i"), sub="legal", toml=TOML)}
    units = [body(s, "z%d" % i) for i, (h, m, a, s) in enumerate(ns) if "z%d" % i not in illegal]
    bins = spread(list(base.values()) + units, 8, "y")
    failed = {n: ds for b, n, ds in ctx.build(bins, sub="noise", toml=TOML)}
    events, crashes = ctx.run_all(list(bins))
    by = {(e["case"], e["id"]): e for e in events if e["ev"] in ("schema", "mention")}
    for i, (h, m, a, s) in enumerate(ns):
        n = "z%d" % i
        if n in illegal: continue
        ctx.saw(("noise", h, m, a, s)); ctx.count("ignored_attributes_observed")
        if n in failed: ctx.violation("an attribute of another tool, or one without effect on serialization, is rejected", host=h, place=m, attribute=a, diagnostics=[x[:1200] for x in failed[n][:2]], source=s); continue
        for id in ("s", "m"):
            w, e = by.get(("base_" + h, id)), by.get((n, id))
            if w is None or e is None: ctx.violation("generating a schema crashed", source=s); break
            k = "schema" if id == "s" else "ref"
            bad = diff(w[k], e[k]) + diff(w["components"], e["components"], "components")
            if bad: ctx.violation("an attribute without effect on serialization changes the schema", host=h, place=m, attribute=a, problems=bad[:4], source=s); break
    ctx.coverage["rule"] = "each kind of misuse in random places of random definitions (containers, variants and fields of every kind, skipped ones included) and structural misuses; the compiler's verdict with the real derive is observed against the same program with a derive that does nothing (must compile) and against the valid twin (must compile); plus foreign and deserialization-only attributes at every place, whose schemas must equal the plain type's; distinct by program"
