"""C02: names in a schema are the names serde writes (differential monitor: serde's output is the oracle)."""
from conform import *

KEYWORDS = "as break const continue dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while abstract become box do final macro override priv typeof unsized virtual yield try async await".split()
F_IDS = ["r#" + k for k in KEYWORDS] + [
    "a", "b", "ab", "a_b", "a_b_c", "abc_def", "very_tasty_cake", "_a", "__a", "___a_b", "a_", "a__", "a__b", "a___b_c_", "_a_", "__a__b__", "_1", "_1a", "a1", "a_1", "a1_b2_c3", "a_1_2", "x86_64", "utf8_str",
    "aB", "aBc_dE", "camelCase", "PascalCase", "SCREAMING", "SCREAMING_SNAKE", "Mixed_Case_Id", "URL", "url_ID", "httpURL", "HTTPServer", "iOS", "I", "A_", "A_b", "_A", "a_B", "a_B_c",
    "self_", "super_", "crate_", "Self_", "é", "été", "naïve", "a_é", "é_a", "ß", "straße_a", "a_ß", "имя", "полное_имя", "Имя", "a_Имя", "名前", "a_名前", "ñandú_x", "ǆ", "a_ǆ", "ﬁ", "ı_x", "x_ı", "İx", "x_İ", "σς", "Δelta", "a_Δ",
    "id", "name", "value", "kind", "tag", "content", "type_", "ref_", "default", "union", "auto", "raw", "r", "r_", "rr", "r_a", "raw_string", "to_string", "new", "schema", "description", "required", "properties", "model", "cx", "params", "x", "y", "z", "result", "ok", "some", "none"]
V_IDS = ["A", "B", "Ab", "ABc", "AbC", "ABC", "AbCd", "VeryTasty", "HTTPError", "HttpError", "IOError", "X1", "X1Y2", "A1b", "Version2Beta", "V2_3", "With_Under", "With__Two", "_Lead", "__Lead2", "Trail_", "A_B", "A_b", "a", "lower", "lower_snake", "camelCase", "camelCaseX", "mixed_Case",
         "SCREAMING", "SCREAMING_SNAKE", "Überraschung", "AÜber", "Éa", "aÉ", "Имя", "ПолноеИмя", "AИмя", "Straße", "ΔElta", "Aβ", "名前", "A名", "İx", "Xİ", "ǅx", "Aǅ", "None_", "Some_", "Ok_", "Err_", "Self_", "Option", "Vec", "String", "Box", "Default", "Type", "Null", "True", "Result",
         "r#type", "r#match", "r#fn", "r#struct", "r#Raw", "r#async", "r#dyn", "I", "II", "IDs", "OAuth2", "eBay", "X_1", "_1", "Z9Z", "AaBbCcDdEe"]
FORMS = ["plain", "ser", "both", "both2"]
TEXTS = [s for s in STRINGS] + ["renamed", "Renamed-It", "with space", "UPPER", "snake_name", "r#raw", "ünï", "a.b", "a/b", "~1", " lead", "\tx", "  "]

# the known finding, to the letter
PROBE = ["properties of a variant: serde writes ['t', 'SOME_FIELD'], schema says ['some_field', 't']", "required of a variant: serde writes ['SOME_FIELD', 't'], schema says ['some_field', 't']"]

def camel_ok(i):
    p = rename_field("PascalCase", unraw(i))
    return bool(p) and p[0].isascii()

def chunks(ids, rule, name, n):
    """Chunks of identifiers without colliding names."""
    out = []
    for i in ids:
        k = name(rule, unraw(i))
        for cur, seen in out:
            if k not in seen and len(cur) < n: break
        else:
            cur, seen = [], set()
            out.append((cur, seen))
        cur.append(i); seen.add(k)
    return [c for c, _ in out]

def rule_attr(g, key, rule):
    f = g.rng.choice(["plain", "plain", "ser", "both", "both2"])
    return serde_rename_items(g, rule, f, key)

def ren(g, i=None, ids=(), name=None, rule=None):
    """serde items of one rename, or none. A rename may spell out the identifier or the name the item has anyway."""
    x = g.rng.random()
    if i is not None and x < .12:
        others = {name(q, unraw(k)) for k in ids if k != i for q in (None, rule)}
        own = [n for n in (unraw(i), name(rule, unraw(i)), unraw(i).lower(), unraw(i).upper()) if n not in others and not (n.lower() in {o.lower() for o in others})]
        if own: return serde_rename_items(g, own[0] if g.rng.random() < .6 else g.rng.choice(own), g.rng.choice(FORMS))
        return []
    if x < .55: return []
    if x < .65: return ["rename(deserialize = %s)" % g.lit(g.rng.choice(TEXTS + ["only_de", "only-de", "onlyDe", "ONLY", "a"]) + g.uid("_d"))]
    if x < .7: return ["alias = %s" % g.lit(g.rng.choice(TEXTS + ["al", "al-ias"]) + g.uid("_a"))]
    return serde_rename_items(g, g.rng.choice(TEXTS) + g.uid("_u") + g.rng.choice(["", "", " "]), g.rng.choice(FORMS))

def field(g, ident, items): return "%s%s: u8" % (g.attrs(items, ()), ident)

def run(ctx):
    units = []
    def unit(body, calls):
        n = "c%d" % len(units)
        units.append(Unit(n, body + "\npub fn run() {\n%s}\n" % "".join("  " + c.replace("CASE", rs(n)) + "\n" for c in calls)))
    meta = {}
    def struct(g, ids, rule, renames, extra=()):
        items = (rule_attr(g, "rename_all", rule) if rule else []) + list(extra)
        body = "#[derive(Serialize, OpgModel)]\n%spub struct S {\n%s}\n" % (g.attrs(items, ()), "".join("  %s,\n" % field(g, i, ren(g, i, ids, rename_field, rule) if renames else []) for i in ids))
        unit(body, ["rt::schema::<S>(CASE, \"S\");", "rt::value(CASE, \"S\", &S { %s });" % ", ".join("%s: 1" % i for i in ids)])
        meta["c%d" % (len(units) - 1)] = ("struct", body)
    def enum(g, ids, rule, renames, mode, extra=()):
        items = (rule_attr(g, "rename_all", rule) if rule else []) + list(extra)
        tag, content = g.rng.choice(["tag", "t", "type", "$", "a b", "é", " lead", "trail ", "Tag", "snake_tag", "\t"]), g.rng.choice(["content", "data", "c c", " c", "c\n", "snakeContent", "Data"])
        if mode in ("internal", "adjacent"): items.append("tag = " + g.lit(tag))
        if mode == "adjacent": items.append("content = " + g.lit(content))
        if mode == "untagged": items.append("untagged")
        text, vals = [], []
        for k, i in enumerate(ids):
            it = ren(g, i, ids, rename_variant, rule) if renames else []
            st = "unit" if mode == "strings" else g.rng.choice(["unit", "struct", "struct"] + (["new", "tuple"] if mode == "adjacent" else []))
            if mode in ("external", "untagged"): st = g.rng.choice(["struct", "struct", "struct", "new"])
            fs = []
            if st == "struct":
                vrule = g.rng.choice([None, None] + RULES)
                fs = g.rng.sample([x for x in F_IDS if camel_ok(x) and x not in ("tag", "r#type", "content")], g.rng.choice([1, 2, 4]))
                if len({rename_field(vrule, unraw(x)) for x in fs}) != len(fs): fs = fs[:1]
                if vrule: it = it + rule_attr(g, "rename_all", vrule)
                if g.rng.random() < .1 and not vrule: it = it + ["rename_all(deserialize = %s)" % g.lit(g.rng.choice(RULES))]
                frs = [ren(g, x, fs + [tag, content], rename_field, vrule) if renames else [] for x in fs]
                if any(rename_field(vrule, unraw(x)) in (tag, content, "t", "type") for x in fs): fs, frs = fs[:0], []
                text.append("%s%s { %s }" % (g.attrs(it, ()), i, ", ".join(field(g, x, fr) for x, fr in zip(fs, frs))))
                vals.append("E::%s { %s }" % (i, ", ".join("%s: 2" % x for x in fs)))
            elif st == "new": text.append(g.attrs(it, ()) + i + "(u8)"); vals.append("E::%s(3)" % i)
            elif st == "tuple": text.append(g.attrs(it, ()) + i + "(u8, bool)"); vals.append("E::%s(3, true)" % i)
            else:
                text.append(g.attrs(it, ()) + i); vals.append("E::" + i)
        body = "#[derive(Serialize, OpgModel)]\n%spub enum E {\n%s}\n" % (g.attrs(items, ()), "".join("  %s,\n" % t for t in text))
        unit(body, ["rt::schema::<E>(CASE, \"E\");"] + ["rt::value_l(CASE, \"E\", \"%d\", &%s);" % (k, v) for k, v in enumerate(vals)])
        meta["c%d" % (len(units) - 1)] = (mode, body, tag, content)
    g = Gen(random.Random("C02/%d" % ctx.seed))
    r = g.rng
    for rep in range(ctx.n(1, 6)):
        for rule in [None] + RULES:
            fids = [i for i in F_IDS if rule != "camelCase" or camel_ok(i)]
            vids = [i for i in V_IDS if rule != "camelCase" or unraw(i)[0].isascii()]
            for renames in (False, True):
                r.shuffle(fids); r.shuffle(vids)
                for c in chunks(fids, rule, rename_field, 40): struct(g, c, rule, renames)
                for mode in ("strings", "internal", "adjacent", "external", "untagged"):
                    for c in chunks(vids, rule, rename_variant, 25): enum(g, c, rule, renames, mode)
        # rules and renames that only concern deserialization, unrelated serde items, container rename
        for extra in (*(["rename_all(deserialize = %s)" % g.lit(q)] for q in RULES if q != "camelCase"), ["rename = \"Container\""], ["rename(serialize = \"Cs\", deserialize = \"Cd\")"], ["deny_unknown_fields"]):
            struct(g, r.sample(F_IDS, 20), None, r.random() < .5, extra)
            ids = []
            for i in r.sample(V_IDS, 12): ids.append(i)
            for mode in ("strings", "internal", "adjacent", "external", "untagged"): enum(g, ids, None, r.random() < .5, mode, extra)
    # random identifiers
    alpha = "abcxyzABCXYZ019__éÉßИи名"
    def rid():
        while True:
            s = "".join(r.choice(alpha) for _ in range(r.randint(1, 10) if r.random() < .95 else r.randint(30, 90)))
            if not s[0].isdigit() and s.strip("_") and s not in KEYWORDS and s not in ("Self", "self", "super", "crate"): return s
    for _ in range(ctx.n(180, 900)):
        rule = r.choice([None] + RULES)
        ids = sorted({rid() for _ in range(25)}); r.shuffle(ids)
        if rule == "camelCase": ids = [i for i in ids if camel_ok(i) and i[0].isascii()]
        for c in chunks(ids, rule, rename_field, 25): struct(g, c, rule, False)
        for c in chunks(ids, rule, rename_variant, 25): enum(g, c, rule, False, r.choice(["strings", "internal", "adjacent"]))
    units.append(Unit("probe", "#[derive(Serialize, OpgModel)] #[serde(tag = \"t\", rename_all_fields = \"UPPERCASE\")] pub enum E { A { some_field: u8 } }\npub fn run() { rt::schema::<E>(\"probe\", \"E\"); rt::value_l(\"probe\", \"E\", \"0\", &E::A { some_field: 1 }); }"))
    meta["probe"] = ("internal", "rename_all_fields", "t", None)
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins):
        ctx.violation("a definition in the supported subset does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=meta[name][1][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("the workload died", unit=name, rc=rc, stderr=err[-800:])
    schemas, values = {}, {}
    for e in events:
        if e["ev"] == "schema": schemas[e["case"]] = e["schema"]
        elif e["ev"] == "value": values.setdefault(e["case"], []).append(e["json"])
    for case, s in schemas.items():
        m, vs = meta[case], values.get(case, [])
        bad = []
        def names(where, want, got, sort=False):
            ctx.count("names_compared", len(want))
            for w in want: ctx.saw((m[0], w))
            if (sorted(want) if sort else want) != got: bad.append("%s: serde writes %r, schema says %r" % (where, want, got))
        if any(True for v in vs for _ in find_dups(v)):
            ctx.count("left_out_because_serde_itself_writes_a_key_twice")
            continue
        if m[0] == "struct":
            keys = list(vs[0])
            names("properties", keys, list(s.get("properties", {})), True)
            names("required", keys, s.get("required", []))
        elif m[0] == "strings": names("enum", vs, s.get("enum"))
        elif m[0] in ("external", "untagged"):
            alts = (s.get("additionalProperties", {}) if m[0] == "external" else s).get("oneOf", [])
            if len(alts) != len(vs): bad.append("%d alternatives for %d variants" % (len(alts), len(vs)))
            for v, a in zip(vs, alts):
                if m[0] == "external": v, = v.values()
                if not isinstance(v, dict):
                    if "properties" in a: bad.append("%r is described with properties" % (v,))
                    continue
                names("properties of a variant", list(v), list(a.get("properties", {})), True)
                names("required of a variant", list(v), a.get("required", []))
        elif m[0] == "internal":
            alts = s.get("oneOf", [])
            if len(alts) != len(vs): bad.append("%d alternatives for %d variants" % (len(alts), len(vs)))
            for v, a in zip(vs, alts):
                names("properties of a variant", list(v), list(a.get("properties", {})), True)
                names("required of a variant", list(v)[1:] + list(v)[:1], a.get("required", []))
                names("tag value", [v[m[2]]], a.get("properties", {}).get(m[2], {}).get("enum"))
        else:
            names("tag values", [v[m[2]] for v in vs], s.get("properties", {}).get(m[2], {}).get("enum"))
            names("tag and content", sorted({k for v in vs for k in v}), list(s.get("properties", {})), True)
            alts = s.get("properties", {}).get(m[3], {}).get("oneOf", [])
            withc = [v for v in vs if m[3] in v]
            if len(alts) != len(withc): bad.append("%d alternatives for %d variants with content" % (len(alts), len(withc)))
            for v, a in zip(withc, alts):
                if not isinstance(v[m[3]], dict):
                    if "properties" in a: bad.append("%r is described with properties" % (v[m[3]],))
                    continue
                names("properties of a variant", list(v[m[3]]), list(a.get("properties", {})), True)
                names("required of a variant", list(v[m[3]]), a.get("required", []))
        if bad: ctx.violation("names differ from serde's", sig="rename_all_fields" if case == "probe" and bad == PROBE else None, case=case, problems=bad[:5], source=m[1][:4000])
        else: ctx.sample(dict(mode=m[0], serde=vs[0]))
    ctx.coverage["definitions"] = len(meta)
    ctx.coverage["rule"] = "every identifier of a fixed hostile list and random ones, as field and as variant, under every rename_all rule and none, with and without renames in all forms, in structs and all enum representations; oracle: the keys and tags serde writes; distinct by (shape, name)"
    ctx.assumptions.append("identifiers on which serde's own derive panics (camelCase of a non-ASCII first letter) are left out")
