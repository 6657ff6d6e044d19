"""C17: describe_type! builds exactly the described model."""
from conform import *
from driver import HOSTILE, model_json
import schema as S

WORDS = ["a", "b", "id", "name", "x_y", "type", "r", "items", "properties", "required", "description", "link", "string", "self_", "Zed", "camelCase", "é", "fn", "match", "u1", "loop", "raw_model", "object", "z9", "_lead"]
VARS = ["properties", "required", "model", "item", "v", "description", "string", "data", "x"]

class TG:
    def __init__(self, rng, depth):
        self.r, self.depth, self.pre, self.names, self.feat = rng, depth, [], set(), set()
    def text(self):
        t = self.r.choice(HOSTILE)
        if self.r.random() < .06: return wild(self.r)
        return t if self.r.random() < .6 else "t%d %s" % (self.r.randrange(10 ** 5), t)
    def lit(self):
        """Literal with Display -> (rust, text)."""
        x = self.r.random()
        if x < .72: t = self.text(); return rs(t), t
        if x < .78: return 'r#"raw \\ "q" {}"#', 'raw \\ "q" {}'
        if x < .84: n = self.r.randrange(10 ** 9); return str(n), str(n)
        if x < .88: return "-17", "-17"
        if x < .92: return "1.5", "1.5"
        if x < .96: return "true", "true"
        return "'c'", "c"
    def var(self, decl):
        """A variable of the caller; some are named like variables of the macro."""
        for n in self.r.sample(VARS, len(VARS)):
            if n not in self.names: break
        else: n = "w%d" % len(self.names)
        self.names.add(n)
        self.pre.append(decl % n)
        return n
    def attr(self, key, m, p=.45):
        if self.r.random() > p: return ""
        t, v = self.lit()
        m[key] = v
        return "%s: %s " % (key, t)
    def type_(self, d, kind=None):
        """-> (rust after the macro's opening, reference JSON)."""
        r = self.r
        leaf = ["string", "number", "integer", "boolean"]
        k = kind or r.choice(leaf if d >= self.depth else leaf + ["array", "array", "object", "object", "object", "raw_model", "raw_type"])
        self.feat.add(k)
        m = {}
        if k in ("raw_model", "raw_type"): return self.raw(k, d)
        m["type"] = k
        s = self.attr("description", m)
        if k in ("string", "number", "integer"):
            s += self.attr("format", m); s += self.attr("example", m)
            if k == "string" and r.random() < .35:
                vs = [self.lit() for _ in range(sized(r, [0, 1, 1, 2, 5, 12], (30, 80), .03))]
                m["enum"] = [v for _, v in vs]
                s += "variants: [%s] " % ", ".join(t for t, _ in vs)
        elif k == "array":
            t, j = self.value(d + 1)
            m["items"] = j; s += "items: (%s) " % t
        elif k == "object":
            n = r.choice([0, 1, 2, 3, 6]) if d else sized(r, [0, 1, 2, 3, 6, 12, 20], (30, 70), .02)
            ps, js, req = [], {}, []
            for w in (r.sample(WORDS, n) if n <= len(WORDS) else WORDS + ["w%d" % i for i in range(n - len(WORDS))]):
                t, j = self.value(d + 1)
                rq = r.random() < .5
                ps.append("%s%s: (%s)" % (w, "[required]" if rq else "", t)); js[w] = j
                if rq: req.append(w); self.feat.add("required")
            if js: m["properties"] = js
            if req: m["required"] = req
            s += "properties: { %s }" % " ".join(ps)
        return "%s => { %s}" % (k, s), m
    def raw(self, k, d):
        """A model or type built by the caller."""
        r = self.r
        x = r.choice(["describe", "one_of", "nullable", "any_of", "map"])
        if x == "describe":
            t, j = self.type_(max(d + 1, self.depth - 1), r.choice(["string", "integer", "object", "array"]))
            e = "opg::describe_type!(%s)" % t
        elif x in ("one_of", "any_of"):
            K = {"one_of": "OneOf", "any_of": "AnyOf"}[x]
            e = "opg::Model { description: Some(%s.to_string()), data: opg::ModelData::%s(opg::Model%s { %s: vec![opg::ModelReference::Any, opg::ModelReference::Link(\"Far\".to_string())] }) }" % (rs("raw\n"), K, K, x)
            j = {"description": "raw\n", K[0].lower() + K[1:]: [{}, {"$ref": "#/components/schemas/Far"}]}
        elif x == "nullable":
            e = "opg::Model { description: None, data: opg::ModelData::Single(opg::ModelType { nullable: true, type_description: opg::ModelTypeDescription::Boolean }) }"
            j = {"nullable": True, "type": "boolean"}
        else:
            e = "opg::Model { description: None, data: opg::ModelData::Single(opg::ModelType { nullable: false, type_description: opg::ModelTypeDescription::Object(opg::ModelObject { additional_properties: Some(Box::new(opg::ModelReference::Any)), ..Default::default() }) }) }"
            j = {"type": "object", "additionalProperties": {}}
        if k == "raw_model":
            return "raw_model => " + self.var("let %%s = %s;" % e.replace("%", "%%")), j
        j = dict(j); j.pop("description", None)
        s = self.attr("description", j)
        return "raw_type => { %sident: %s }" % (s, self.var("let %%s = (%s).data;" % e.replace("%", "%%"))), j
    def value(self, d):
        r = self.r
        if r.random() < .25:
            n = self.text()
            self.feat.add("link")
            j = {"$ref": "#/components/schemas/" + n}
            x = r.random()
            if x < .6: return "link => " + rs(n), j
            self.feat.add("link variable")
            if x < .8: return "link => " + self.var("let %%s: &str = %s;" % rs(n).replace("%", "%%")), j
            return "link => " + self.var("let %%s: String = %s.to_string();" % rs(n).replace("%", "%%")), j
        return self.type_(d)

def deep(n, r):
    """One long chain of arrays and objects."""
    t, j = 'string => { format: "end" }', {"type": "string", "format": "end"}
    for i in range(n):
        if r.random() < .5: t, j = "array => { items: (%s) }" % t, {"type": "array", "items": j}
        else: t, j = "object => { description: \"%d\" properties: { k[required]: (%s) o: (link => \"L\") } }" % (i, t), {"description": str(i), "type": "object", "properties": {"k": j, "o": {"$ref": "#/components/schemas/L"}}, "required": ["k"]}
    return t, j

def run(ctx):
    units, want, src = [], {}, {}
    def add(name, pre, text, j, bare=False, tail=""):
        expr = "{ %s opg::describe_type!(%s) }" % (" ".join(pre), text)
        if bare: body = "pub mod bare { pub fn m() -> ::opg::Model %s }\npub fn run() { rt::doc(%s, \"m\", &bare::m()); }\n" % (expr.replace("{ ", "{ ", 1).replace("opg::", "::opg::").replace(":::opg", "::opg"), rs(name))
        else: body = "pub fn run() { let m: opg::Model = %s; rt::doc(%s, \"m\", &m); }\n" % (expr, rs(name))
        units.append(Unit(name, body)); want[name], src[name] = j, expr
    feats = {}
    for k in range(ctx.n(4500, 25000)):
        g = TG(random.Random("C17/%d/%d" % (ctx.seed, k)), k % 6)
        t, j = g.type_(0, ["string", "number", "integer", "boolean", "array", "object", "object", "object", "raw_model", "raw_type"][k % 10])
        add("m%d" % k, g.pre, t, j)
        for f in g.feat: feats[f] = feats.get(f, 0) + 1
    # every subset of the attributes of every simple type
    for kind, keys in (("string", ["description", "format", "example", "variants"]), ("number", ["description", "format", "example"]), ("integer", ["description", "format", "example"]), ("boolean", ["description"])):
        for mask in range(1 << len(keys)):
            on = [x for i, x in enumerate(keys) if mask >> i & 1]
            j = {"type": kind}
            t = ""
            for x in on:
                if x == "variants": t += "variants: [\"v1\", \"v0\", \"v1\"] "; j["enum"] = ["v1", "v0", "v1"]
                else: t += "%s: \"the %s\" " % (x, x); j[x] = "the " + x
            add("s_%s_%d" % (kind, mask), [], "%s => { %s}" % (kind, t), j)
            add("p_%s_%d" % (kind, mask), [], "object => { properties: { a: (%s => { %s}) b[required]: (array => { items: (%s => { %s}) }) } }" % (kind, t, kind, t),
                {"type": "object", "properties": {"a": j, "b": {"type": "array", "items": j}}, "required": ["b"]})
    r = random.Random("C17/%d/deep" % ctx.seed)
    for n in (5, 12, 25, 40): t, j = deep(n, r); add("deep%d" % n, [], t, j)
    names = ["p%02d" % i for i in range(60)]; r.shuffle(names)
    req = {n for n in names if r.random() < .5}
    add("wide", [], "object => { properties: { %s } }" % " ".join("%s%s: (boolean => { description: \"%s\" })" % (n, "[required]" if n in req else "", n) for n in names),
        {"type": "object", "properties": {n: {"type": "boolean", "description": n} for n in names}, "required": [n for n in names if n in req]})
    t, j = deep(6, r); add("bare", [], t, j, bare=True)
    bins = spread(units, 8)
    for b, name, ds in ctx.build(bins): ctx.violation("a description in the documented grammar does not compile", unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("building the model crashed", unit=name, rc=rc, stderr=err[-800:], source=src[name][:4000])
    for e in events:
        if e["ev"] != "doc": continue
        w, got = want[e["case"]], e["json"]
        bad = list(find_dups(got)) + diff(w, got)
        ctx.saw(json.dumps(w, sort_keys=True))
        ctx.count("nodes_compared", size(got))
        if bad: ctx.violation("the model differs from its description", case=e["case"], problems=bad[:6], source=src[e["case"]][:4000])
        else: ctx.sample(got, 3)
    ctx.coverage["features_used"] = feats
    ctx.coverage["rule"] = "random describe_type! programs (all type kinds, nesting to depth 5, chains to depth 40, hostile text and non-string literals, links, raw models and types held in variables named like the macro's own), every subset of attributes of every simple type at the top, as property and as item; the model is compared with the description; distinct by model"
