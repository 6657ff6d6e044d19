"""Generated Rust types: source text, values, and an independent reference of the schema each one should have.

The reference is written from the documentation (README, attribute names, OpenAPI 3.0.3 and serde's data format),
as plain JSON. `m` collects the named types a schema links to."""
from common import rs, sized, wild

UNIT = {"description": "Always `null`", "nullable": True, "type": "string", "format": "null"}
RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


# ---------------------------------------------------------------- serde's renaming
def aup(s): return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
def alow(s): return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)

def rename_field(rule, s):
    if rule in (None, "lowercase", "snake_case"): return s
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"): return aup(s)
    if rule == "kebab-case": return s.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE": return aup(s).replace("_", "-")
    out, cap = "", True
    for c in s:
        if c == "_": cap = True
        elif cap: out += aup(c); cap = False
        else: out += c
    return out if rule == "PascalCase" else alow(out[:1]) + out[1:]

def rename_variant(rule, s):
    if rule in (None, "PascalCase"): return s
    if rule == "lowercase": return alow(s)
    if rule == "UPPERCASE": return aup(s)
    if rule == "camelCase": return alow(s[:1]) + s[1:]
    snake = "".join(("_" if i and c.isupper() else "") + alow(c) for i, c in enumerate(s))
    return {"snake_case": snake, "SCREAMING_SNAKE_CASE": aup(snake), "kebab-case": snake.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": aup(snake).replace("_", "-")}[rule]

def unraw(ident): return ident[2:] if ident.startswith("r#") else ident


# ---------------------------------------------------------------- context parameters
class Params:
    def __init__(self, description=None, nullable=None, format=None, example=None, variants=None):
        self.description, self.nullable, self.format, self.example, self.variants = description, nullable, format, example, variants
    def or_(self, o):
        pick = lambda a, b: a if a is not None else b
        return Params(pick(self.description, o.description), pick(self.nullable, o.nullable), pick(self.format, o.format),
                      pick(self.example, o.example), pick(self.variants, o.variants))

NOP = Params()

def apply(model, p):
    m = dict(model)
    if p.description is not None: m["description"] = p.description
    if "type" in m:
        if p.nullable is not None:
            m.pop("nullable", None)
            if p.nullable: m["nullable"] = True
        if m["type"] in ("string", "number", "integer"):
            if p.format is not None: m["format"] = p.format
            if p.example is not None: m["example"] = p.example
        if m["type"] == "string" and p.variants is not None: m["enum"] = list(p.variants)
    return m


# ---------------------------------------------------------------- types
STRINGS = ["", "a", "null", "true", "1", "~", "he said \"hi\"", "back\\slash", "line\nbreak", "tab\t", "{brace} #{x}", "é漢字🦀", "- yaml: [x]", "'", "%s", "\u0000\u0001",
           " lead", "trail ", "#/components/schemas/X", "$ref", "0x10", "1e3", "2020-01-01", "\u2028", "//c", "/*c*/", "r#\"x\"#", "a: b", "*", "&a", "!tag", "|", "cr\r\nlf", "\r", "\ufeff", "\x7f\x85", "=", "<<", "y", "/", "/a", "a/", "\\", "{", "}", "\x00", "&amp;", "<b>", "\u202e", "e\u0301"]

class Ty:
    hashable = ordered = copy = False
    sized = True
    def ref(self, m, inline=False, p=NOP): raise NotImplementedError
    def schema(self, m): raise NotImplementedError
    def defs(self): return []
    def __repr__(self): return self.rust

class Prim(Ty):
    def __init__(self, rust, schema, vals, hashable=True, ordered=True, copy=True, key=False):
        self.rust, self._s, self.vals = rust, schema, vals
        self.hashable, self.ordered, self.copy, self.key = hashable, ordered, copy, key
    def schema(self, m): return dict(self._s)
    def ref(self, m, inline=False, p=NOP): return apply(self._s, p)
    def val(self, g, d=0):
        v = self.vals
        return v(g.rng) if callable(v) else g.rng.choice(v)

def _int(t, lo, hi):
    return lambda r: "(%s%s)" % (r.choice([lo, hi, 0, min(hi, max(lo, r.randrange(-300, 300))), r.randint(lo, hi)]), t)
def _strv(r): return rs(r.choice(STRINGS))
INTS = {}
for _n in (8, 16, 32, 64):
    INTS["i%d" % _n] = ("int%d" % _n, -2 ** (_n - 1), 2 ** (_n - 1) - 1)
    INTS["u%d" % _n] = ("uint%d" % _n, 0, 2 ** _n - 1)

PRIMS = []
def _p(*a, **k):
    t = Prim(*a, **k); PRIMS.append(t); return t
CHAR = _p("char", {"type": "string", "format": "char"}, ["'a'", "'\\u{1F980}'", "'\\''", "'\\n'", "'0'"], key=True)
STR = _p("&'static str", {"type": "string"}, _strv, key=True)
STRING = _p("String", {"type": "string"}, lambda r: _strv(r) + ".to_string()", copy=False, key=True)
BOOL = _p("bool", {"type": "boolean"}, ["true", "false"])
for _t, (_f, _lo, _hi) in INTS.items():
    _p(_t, {"type": "integer", "format": _f}, _int(_t, _lo, _hi), key=True)
ISIZE = _p("isize", {"type": "integer"}, _int("isize", -2 ** 63, 2 ** 63 - 1), key=True)
USIZE = _p("usize", {"type": "integer"}, _int("usize", 0, 2 ** 64 - 1), key=True)
FL = dict(hashable=False, ordered=False)
_p("f32", {"type": "number", "format": "float"}, ["0.0f32", "-1.5f32", "3.4e38f32"], **FL)
_p("f64", {"type": "number", "format": "double"}, ["0.0f64", "-1.5e-300", "1e300", "7.0f64"], **FL)
NC = dict(hashable=False, ordered=False, copy=False)
for _t, (_f, _lo, _hi) in INTS.items():
    _p("std::sync::atomic::Atomic" + _t.upper(), {"type": "integer", "format": _f},
       (lambda t, lo, hi: lambda r: "std::sync::atomic::Atomic%s::new(%s)" % (t.upper(), _int(t, lo, hi)(r)))(_t, _lo, _hi), **NC)
_p("std::sync::atomic::AtomicIsize", {"type": "integer"}, ["std::sync::atomic::AtomicIsize::new(-3)"], **NC)
_p("std::sync::atomic::AtomicUsize", {"type": "integer"}, ["std::sync::atomic::AtomicUsize::new(3)"], **NC)
_p("std::sync::atomic::AtomicBool", {"type": "boolean"}, ["std::sync::atomic::AtomicBool::new(true)"], **NC)
UNITT = _p("()", UNIT, ["()"])
UUID = _p("uuid::Uuid", {"description": "UUID ver. 4 [rfc](https://tools.ietf.org/html/rfc4122)", "type": "string", "format": "uuid", "example": "00000000-0000-0000-0000-000000000000"},
          ["uuid::Uuid::from_u128(0)", "uuid::Uuid::from_u128(0x1234567890abcdef_fedcba0987654321)"])
NDT = _p("chrono::NaiveDateTime", {"description": "Datetime without timezone", "type": "string", "format": "date-time", "example": "2020-06-26T14:04:20.730045106"},
         ["chrono::NaiveDate::from_ymd_opt(2020, 2, 29).unwrap().and_hms_opt(23, 59, 59).unwrap()", "chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_nano_opt(0, 0, 0, 7).unwrap()"])
_tz = {"description": "Datetime with timezone", "type": "string", "format": "date-time", "example": "2020-06-26T14:04:20.730045106Z"}
DTU = _p("chrono::DateTime<chrono::Utc>", _tz, ["chrono::DateTime::<chrono::Utc>::from_timestamp(1599083980, 5).unwrap()"])
DTF = _p("chrono::DateTime<chrono::FixedOffset>", _tz, ["chrono::DateTime::<chrono::Utc>::from_timestamp(0, 0).unwrap().with_timezone(&chrono::FixedOffset::east_opt(3600 * 5 + 1800).unwrap())"])
ND = _p("chrono::NaiveDate", {"description": "Date without timezone", "type": "string", "format": "date", "example": "2020-06-26"}, ["chrono::NaiveDate::from_ymd_opt(2024, 2, 29).unwrap()"])
KEYS = [t for t in PRIMS if getattr(t, "key", False)]
STRSLICE = Prim("str", {"type": "string"}, _strv, copy=False); STRSLICE.sized = False
BYNAME = {t.rust: t for t in PRIMS}

class Wrap(Ty):
    KINDS = ["&", "&mut", "Box", "Rc", "Arc", "Cell", "RefCell"]
    def __init__(self, kind, t):
        self.kind, self.t = kind, t
        self.hashable = t.hashable and kind in ("&", "Box", "Rc", "Arc")
        self.ordered = t.ordered and kind in ("&", "Box", "Rc", "Arc")
        self.copy = kind == "&"
        r = t.rust
        self.rust = {"&": "&'static %s", "&mut": "&'static mut %s", "Box": "Box<%s>", "Rc": "std::rc::Rc<%s>", "Arc": "std::sync::Arc<%s>",
                     "Cell": "std::cell::Cell<%s>", "RefCell": "std::cell::RefCell<%s>"}[kind] % r
    @staticmethod
    def ok(kind, t):
        if not t.sized: return kind in ("&", "Box", "Rc", "Arc")
        return kind != "Cell" or t.copy
    def schema(self, m): return self.t.schema(m)
    def ref(self, m, inline=False, p=NOP): return self.t.ref(m, inline, p)
    def defs(self): return self.t.defs()
    def val(self, g, d=0):
        v = self.t.val(g, d)
        if not self.t.sized:
            if self.t is STRSLICE: return v if self.kind == "&" else "%s::from(%s)" % (self.kind_path(), v)
            return "&*Box::leak((%s).into_boxed_slice())" % v if self.kind == "&" else "%s::from(%s)" % (self.kind_path(), v)
        return {"&": "&*Box::leak(Box::new(%s))", "&mut": "Box::leak(Box::new(%s))"}.get(self.kind, self.kind_path() + "::new(%s)") % v
    def kind_path(self):
        return {"Rc": "std::rc::Rc", "Arc": "std::sync::Arc", "Cell": "std::cell::Cell", "RefCell": "std::cell::RefCell"}.get(self.kind, self.kind)

class Opt(Ty):
    def __init__(self, t):
        self.t, self.rust = t, "Option<%s>" % t.rust
        self.hashable, self.ordered, self.copy = t.hashable, t.ordered, t.copy
    def schema(self, m): return apply(self.t.schema(m), Params(nullable=True))
    def ref(self, m, inline=False, p=NOP):
        r = self.t.ref(m, inline, p.or_(Params(nullable=True)))
        if "$ref" in r:
            out = {"anyOf": [r, dict(UNIT)]}
            if p.description is not None: out["description"] = p.description
            return out
        return r
    def defs(self): return self.t.defs()
    def val(self, g, d=0):
        return "None" if d > 2 or g.rng.random() < .4 else "Some(%s)" % self.t.val(g, d + 1)

class Seq(Ty):
    KINDS = ["Vec", "HashSet", "LinkedList", "VecDeque", "BinaryHeap", "array", "slice"]
    def __init__(self, kind, t, n=None):
        self.kind, self.t, self.n = kind, t, n
        P = {"Vec": "Vec<%s>", "slice": "[%s]", "array": "[%%s; %s]" % n}.get(kind, "std::collections::" + kind + "<%s>")
        self.rust = P % t.rust
        self.sized = kind != "slice"
        if kind in ("Vec", "array", "LinkedList", "VecDeque"): self.hashable, self.ordered = t.hashable, t.ordered
        if kind == "array": self.copy = t.copy
    @staticmethod
    def ok(kind, t):
        return t.hashable if kind == "HashSet" else t.ordered if kind == "BinaryHeap" else True
    def schema(self, m): return {"type": "array", "items": self.t.ref(m)}
    def ref(self, m, inline=False, p=NOP): return apply(self.schema(m), p)
    def defs(self): return self.t.defs()
    def val(self, g, d=0):
        if self.kind == "array": return "[%s]" % ", ".join(self.t.val(g, d + 1) for _ in range(self.n))
        n = 0 if d > 2 else g.rng.choice([0, 1, 1, 2, 3])
        v = "vec![%s]" % ", ".join(self.t.val(g, d + 1) for _ in range(n))
        return v if self.kind in ("Vec", "slice") else "%s.into_iter().collect()" % v

class Tup(Ty):
    def __init__(self, ts):
        self.ts = ts
        self.rust = "(%s%s)" % (", ".join(t.rust for t in ts), "," if len(ts) == 1 else "")
        self.hashable, self.ordered, self.copy = all(t.hashable for t in ts), all(t.ordered for t in ts), all(t.copy for t in ts)
    def schema(self, m):
        if len(self.ts) == 1: return {"type": "array", "items": self.ts[0].ref(m)}
        return {"type": "array", "items": {"oneOf": [t.ref(m) for t in self.ts]}}
    def ref(self, m, inline=False, p=NOP): return apply(self.schema(m), p)
    def defs(self): return [d for t in self.ts for d in t.defs()]
    def val(self, g, d=0): return "(%s,)" % ", ".join(t.val(g, d + 1) for t in self.ts)

class Map(Ty):
    KINDS = ["HashMap", "BTreeMap"]
    def __init__(self, kind, k, t):
        self.kind, self.k, self.t, self.rust = kind, k, t, "std::collections::%s<%s, %s>" % (kind, k.rust, t.rust)
    def schema(self, m): return {"type": "object", "additionalProperties": self.t.ref(m)}
    def ref(self, m, inline=False, p=NOP): return apply(self.schema(m), p)
    def defs(self): return self.t.defs()
    def val(self, g, d=0):
        n = 0 if d > 2 else g.rng.choice([0, 1, 2])
        return "vec![%s].into_iter().collect()" % ", ".join("(%s, %s)" % (self.k.val(g, d + 1), self.t.val(g, d + 1)) for _ in range(n))

class Raw(Ty):
    """A type with no schema: only for skipped fields and fields with an explicit type."""
    def __init__(self, rust, vals): self.rust, self.vals = rust, vals
    def val(self, g, d=0): return g.rng.choice(self.vals)
    def defs(self): return []

OPAQUE = Raw("rt::Opaque", ["rt::Opaque"])
EXPLICIT = {
    "string": Raw("rt::SerStr", ["rt::SerStr(\"x\".into())", "rt::SerStr(String::new())"]),
    "integer": Raw("rt::SerInt", ["rt::SerInt(-5)", "rt::SerInt(i64::MAX)"]),
    "number": Raw("rt::SerNum", ["rt::SerNum(1.25)", "rt::SerNum(-3.0)"]),
    "boolean": Raw("rt::SerBool", ["rt::SerBool(true)"]),
    "any": Raw("rt::SerAny", ["rt::SerAny(rt::js_value(\"{\\\"a\\\":[1,null]}\"))", "rt::SerAny(rt::js_value(\"3\"))", "rt::SerAny(rt::js_value(\"null\"))"]),
}

class DefT(Ty):
    def __init__(self, d, args=""):
        self.d, self.args = d, args
        self.rust = d.ident + args
    def schema(self, m): return self.d.schema(m)
    def ref(self, m, inline=False, p=NOP):
        if inline or self.d.inline: return apply(self.d.schema(m), p)
        m.append(self.d)
        return {"$ref": "#/components/schemas/" + self.d.name}
    def defs(self): return [self.d]
    def val(self, g, d=0): return self.d.val(g, d)


# ---------------------------------------------------------------- definitions
class Doc:
    """Documentation attributes of a field, variant or container."""
    desc = fmt = ex = ex_with = None
    nullable = inline = False
    explicit = None
    def params(self):
        ex = self.ex if self.ex is not None else (self.ex_with[1] if self.ex_with else None)
        return Params(self.desc, True if self.nullable else None, self.fmt, ex)
    def opg_items(self, g):
        out = []
        if self.desc is not None: out.append(g.lit(self.desc))
        if self.fmt is not None: out.append("format = " + g.lit(self.fmt))
        if self.ex is not None: out.append("example = " + g.lit(self.ex))
        if self.ex_with is not None: out.append("example_with = " + g.lit(self.ex_with[0]))
        if self.nullable: out.append("nullable")
        if self.inline: out.append("inline")
        if self.explicit: out.append(self.explicit)
        return out

def serde_rename_items(g, rename, form, key="rename"):
    if rename is None: return []
    if form == "plain": return ["%s = %s" % (key, g.lit(rename))]
    if form == "ser": return ["%s(serialize = %s)" % (key, g.lit(rename))]
    if form == "both": return ["%s(serialize = %s, deserialize = %s)" % (key, g.lit(rename), g.lit("zz_other" if key == "rename" else "kebab-case"))]
    return ["%s(deserialize = %s, serialize = %s)" % (key, g.lit("zz_other" if key == "rename" else "kebab-case"), g.lit(rename))]

class Field(Doc):
    rename = skip = None
    ren_form = "plain"
    skip_if = None          # predicate path
    optional = False
    phantom = False         # a marker field of a transparent struct
    ser = ()                # further serde items
    other = ()              # attributes of other tools
    def __init__(self, ident, ty, **k):
        self.ident, self.ty = ident, ty
        self.__dict__.update(k)
    def name(self, rule):
        return self.rename if self.rename is not None else rename_field(rule, unraw(self.ident) if self.ident else "")
    def ref(self, m, inline, p):
        if self.explicit == "any": return {}
        if self.explicit: return explicit_model(self.explicit, p, self.nullable)
        return self.ty.ref(m, inline or self.inline, p)
    def attrs(self, g):
        s = serde_rename_items(g, self.rename, self.ren_form) + list(self.ser)
        if self.skip: s.append(self.skip)
        if self.skip_if: s.append("skip_serializing_if = " + g.lit(self.skip_if))
        o = self.opg_items(g)
        if self.optional: o.append("optional")
        return g.attrs(s, o, self.other)
    def val(self, g, d):
        if self.skip: return "Default::default()"
        return self.ty.val(g, d + 1)

def explicit_model(kind, p, nullable):
    m = {"type": kind}
    if p.description is not None: m["description"] = p.description
    if nullable: m["nullable"] = True
    if kind != "boolean":
        if p.format is not None: m["format"] = p.format
        if p.example is not None: m["example"] = p.example
    return m

def obj(fields, rule, m, inline=False):
    props, req = {}, []
    for f in fields:
        if f.skip: continue
        n = f.name(rule)
        props[n] = f.ref(m, inline, f.params())
        if not (f.optional or f.skip_if): req.append(n)
    out = {"type": "object"}
    if props: out["properties"] = props
    if req: out["required"] = req
    return out

def tup(fields, m, inline=False):
    return {"type": "array", "items": {"oneOf": [f.ref(m, inline, f.params()) for f in fields if not f.skip]}}

def described(model, desc, nullable=False):
    m = dict(model)
    if desc is not None: m["description"] = desc
    if nullable: m["nullable"] = True
    return m

class Variant(Doc):
    rename = rename_all = skip = None
    ren_form = rule_form = "plain"
    disc = None             # (text, integer)
    gone = None             # a unit variant in effect, written as a newtype variant whose field is skipped
    ser = ()
    other = ()
    def __init__(self, ident, style, fields=(), **k):
        self.ident, self.style, self.fields = ident, style, list(fields)
        self.__dict__.update(k)
    def name(self, rule):
        return self.rename if self.rename is not None else rename_variant(rule, unraw(self.ident))
    def data(self, m):
        """Schema of the variant's own data."""
        if self.style == "new":
            f = self.fields[0]
            return f.ref(m, self.inline, f.params().or_(self.params()))
        if self.style == "tuple": return described(tup(self.fields, m, self.inline), self.desc)
        if self.style == "struct": return described(obj(self.fields, self.rename_all, m, self.inline), self.desc)
    def rust(self, g):
        s = serde_rename_items(g, self.rename, self.ren_form) + serde_rename_items(g, self.rename_all, self.rule_form, "rename_all") + list(self.ser)
        if self.skip: s.append(self.skip)
        head = g.attrs(s, self.opg_items(g), self.other) + self.ident
        if self.gone: return head + "(%s%s)" % (self.gone.attrs(g), self.gone.ty.rust)
        if self.style == "unit": return head + (" = " + self.disc[0] if self.disc else "")
        if self.style == "struct": return head + " { %s }" % ", ".join("%s%s: %s" % (f.attrs(g), f.ident, f.ty.rust) for f in self.fields)
        return head + "(%s)" % ", ".join(f.attrs(g) + f.ty.rust for f in self.fields)
    def val(self, g, path, d):
        p = "%s::%s" % (path, self.ident)
        if self.gone: return p + "(%s)" % self.gone.val(g, d)
        if self.style == "unit": return p
        if self.style == "struct": return p + " { %s }" % ", ".join("%s: %s" % (f.ident, f.val(g, d)) for f in self.fields)
        return p + "(%s)" % ", ".join(f.val(g, d) for f in self.fields)

class Def(Doc):
    rename_all = rename = None
    rule_form = ren_form = "plain"
    transparent = False
    tag = content = None
    untagged = False
    repr = None
    ser = ()
    other = ()
    generics = ""           # text after the identifier in the definition
    where = ""
    derives = "Serialize, OpgModel"
    def __init__(self, ident, kind, fields=(), variants=(), **k):
        self.ident, self.kind, self.fields, self.variants = ident, kind, list(fields), list(variants)
        self.__dict__.update(k)
        self.turn = 0
    @property
    def name(self): return unraw(self.ident)

    # ---- reference schema
    def schema(self, m):
        if self.kind == "enum": return self.enum_schema(m)
        live = [f for f in self.fields if not f.skip and not f.phantom]
        if self.transparent or self.kind == "newtype":
            f = live[0] if self.transparent else self.fields[0]
            p = f.params().or_(self.params())
            ex = f.explicit if f.explicit and f.explicit != "any" else self.explicit
            if ex: return explicit_model(ex, p, self.nullable or f.nullable)
            return apply(f.ty.schema(m), p)
        if self.kind == "tuple": return described(tup(self.fields, m), self.desc, self.nullable)
        return described(obj(self.fields, self.rename_all, m), self.desc, self.nullable)

    def live(self): return [v for v in self.variants if not v.skip]

    def enum_schema(self, m):
        vs = self.live()
        names = [v.name(self.rename_all) for v in vs]
        mode = self.mode()
        if mode == "strings":
            s = {"type": "string", "enum": names}
            p = self.params()
            if p.example is not None: s["example"] = p.example
            elif names: s["example"] = names[0]
            if p.format is not None: s["format"] = p.format
            return described(s, self.desc, self.nullable)
        if mode == "repr":
            return described({"oneOf": [{"description": n + " variant", "type": "integer", "example": str(v.disc[1] if v.disc else self.variants.index(v))}
                                        for v, n in zip(vs, names)]}, self.desc)
        if mode == "external":
            alts = [described({"type": "string", "enum": [n], "example": n}, v.desc) if v.style == "unit" else v.data(m) for v, n in zip(vs, names)]
            return described({"type": "object", "additionalProperties": described({"oneOf": alts}, self.desc)}, self.desc, self.nullable)
        if mode == "untagged":
            return described({"oneOf": [v.data(m) for v in vs]}, self.desc)
        if mode == "adjacent":
            out = {"type": "object", "properties": {self.tag: self.tag_model(names)}, "required": [self.tag]}
            alts = [v.data(m) for v in vs if v.style != "unit"]
            if alts:
                out["properties"][self.content] = described({"oneOf": alts}, self.desc)
                if len(alts) == len(vs): out["required"].append(self.content)
            return described(out, self.desc, self.nullable)
        alts = []
        for v, n in zip(vs, names):
            tag = {"type": "object", "properties": {self.tag: self.tag_model([n])}, "required": [self.tag]}
            if v.style == "unit": alts.append(described(tag, v.desc)); continue
            if v.style == "new":
                f = v.fields[0]
                s = apply(f.ty.schema(m), f.params().or_(v.params()))
            else: s = v.data(m)
            if "type" not in s:
                if self.nullable: tag = described(tag, None, True)
                alts.append({"allOf": [s, tag]}); continue
            if s["type"] != "object":   # a unit, or a unit-only enum: serde writes the tag (and a name, with null)
                alts.append(described(tag, s.get("description"), self.nullable)); continue
            s = dict(s)
            s["properties"] = dict(s.get("properties", {}), **tag["properties"])
            s["required"] = s.get("required", []) + [self.tag]
            alts.append(s)
        return described({"oneOf": alts}, self.desc)

    def tag_model(self, names):
        s = {"description": self.name + " type variant", "type": "string", "enum": names}
        if names: s["example"] = names[0]
        return s

    def mode(self):
        if self.repr: return "repr"
        if self.untagged: return "untagged"
        if self.tag is not None: return "adjacent" if self.content is not None else "internal"
        return "strings" if all(v.style == "unit" and not v.gone for v in self.variants) else "external"

    # ---- source text
    def rust(self, g):
        s = serde_rename_items(g, self.rename, self.ren_form) + serde_rename_items(g, self.rename_all, self.rule_form, "rename_all") + list(self.ser)
        if self.transparent: s.append("transparent")
        if self.untagged: s.append("untagged")
        if self.tag is not None: s.append("tag = " + g.lit(self.tag))
        if self.content is not None: s.append("content = " + g.lit(self.content))
        derive = "#[derive(%s)]\n" % (self.derives if not self.repr else "serde_repr::Serialize_repr, serde_repr::Deserialize_repr, OpgModel")
        a = g.attrs(s, self.opg_items(g), tuple(self.other) + (("#[repr(%s)]" % self.repr,) if self.repr else ()))
        head = derive + a
        if self.kind == "enum":
            return "%spub enum %s%s %s {\n%s\n}\n" % (head, self.ident, self.generics, self.where, "".join("  %s,\n" % v.rust(g) for v in self.variants))
        if self.kind == "struct":
            return "%spub struct %s%s %s {\n%s}\n" % (head, self.ident, self.generics, self.where,
                                                     "".join("  %spub %s: %s,\n" % (f.attrs(g), f.ident, f.ty.rust) for f in self.fields))
        return "%spub struct %s%s(%s) %s;\n" % (head, self.ident, self.generics, ", ".join("%spub %s" % (f.attrs(g), f.ty.rust) for f in self.fields), self.where)

    def val(self, g, d=0):
        if self.kind == "enum":
            vs = self.live()
            if d > 2:
                leaf = [v for v in vs if v.style == "unit"]
                vs = leaf or vs
            self.turn += 1
            return vs[self.turn % len(vs)].val(g, self.ident, d)
        if self.kind == "struct": return "%s { %s }" % (self.ident, ", ".join("%s: %s" % (f.ident, f.val(g, d)) for f in self.fields))
        return "%s(%s)" % (self.ident, ", ".join(f.val(g, d) for f in self.fields))


def closure(start):
    """Components that mentioning the given definitions has to register: {name: schema}."""
    out, todo = {}, list(start)
    while todo:
        d = todo.pop(0)
        if d.inline or d.name in out: continue
        m = []
        out[d.name] = d.schema(m)
        todo += m
    return out

def expect_schema(t):
    m = []
    s = t.schema(m)
    return s, closure(m)

def expect_ref(t, inline=False, p=NOP):
    m = []
    r = t.ref(m, inline, p)
    return r, closure(m)

def comps_json(c):
    return {"schemas": c} if c else {}


# ---------------------------------------------------------------- random generation
IDENTS = ["a", "b1", "value", "very_tasty", "x_y_z", "user_id", "r#type", "r#match", "r#fn", "_lead", "__two", "trail_", "dbl__under", "a1_b2", "camelCase", "URL", "httpURL",
          "é", "naïve_ß", "имя", "r#struct", "self_", "id", "kind", "z", "some_long_identifier_with_many_parts", "A", "aB", "n0", "_0", "x1y2"]
VIDENTS = ["A", "B", "First", "VeryTasty", "HTTPError", "Z42", "Ok2", "ABC", "X1y2Z3", "With_Under", "lower", "camelVar", "R2D2", "Überraschung", "A_B", "Nested", "Last", "Null", "True", "r#Raw"]

class Gen:
    def __init__(self, rng, prefix="T"):
        self.rng, self.prefix = rng, prefix
        # one program in four repeats its texts, so that entries which must stay apart look alike
        self.same = ["a", "b", rng.choice(STRINGS)] if rng.random() < .25 else None
        self.n = 0
        self.defs = []
    def lit(self, s):
        if self.rng.random() < .15 and s.isprintable() and "\"#" not in s: return 'r##"%s"##' % s
        return rs(s)
    def attrs(self, serde, opg, other=()):
        """Render items as one or several attributes, in any order."""
        out = []
        for name, items in (("serde", list(serde)), ("opg", list(opg))):
            self.rng.shuffle(items)
            while items:
                k = len(items) if self.rng.random() < .6 else self.rng.randint(1, len(items))
                out.append("#[%s(%s%s)] " % (name, ", ".join(items[:k]), "," if self.rng.random() < .2 else ""))
                items = items[k:]
        out += [o + ("\n" if o.startswith("//") else " ") for o in other]
        self.rng.shuffle(out)
        return "".join(out)
    def text(self):
        r = self.rng
        if self.same and r.random() < .6: return r.choice(self.same)
        if r.random() < .5: return r.choice(STRINGS)
        if r.random() < .12: return wild(r)
        return "text %d %s" % (r.randrange(10 ** 6), r.choice(STRINGS))
    def uid(self, base="u"):
        self.n += 1
        return "%s%d" % (base, self.n)
    def name(self):
        self.n += 1
        x = self.rng.random()
        if x < .16: return ["r#%s%d", "_%s%d", "%s_%d_x", "low_%s%d", "%sÉ%d", "%sUPPER%d", "__%s%d", "%s%d_"][int(x * 50)] % (self.prefix, self.n)
        if x < .175: return "%s%s%d" % (self.prefix, "LongName" * self.rng.choice([8, 16, 33]), self.n)
        return "%s%d" % (self.prefix, self.n)
    def prim(self, pred=lambda t: True):
        return self.rng.choice([t for t in PRIMS if pred(t)])
    def ty(self, depth=2, defs=(), later=(), inner=False):
        """A random type; `defs` may appear anywhere, `later` only behind a collection or Option<Box<_>>."""
        r = self.rng
        x = r.random()
        if later and inner and r.random() < .3: return DefT(r.choice(later))
        if depth <= 0 or x < .28:
            if defs and r.random() < .45: return DefT(r.choice(defs))
            return self.prim()
        sub = lambda inner=False: self.ty(depth - 1, defs, later, inner)
        if x < .46:
            if later and r.random() < .3: return Opt(Wrap("Box", DefT(r.choice(later))))
            return Opt(sub())
        if x < .60:
            t = r.choice([STRSLICE, Seq("slice", sub(True))]) if r.random() < .15 else sub()
            ks = [k for k in Wrap.KINDS if Wrap.ok(k, t)]
            return Wrap(r.choice(ks), t)
        if x < .78:
            k = r.choice(["Vec", "Vec", "LinkedList", "VecDeque", "array", "HashSet", "BinaryHeap"])
            if k in ("HashSet", "BinaryHeap"):
                t = self.prim(lambda t: t.hashable and t.ordered)
                if r.random() < .3: t = Opt(t)
                return Seq(k, t)
            if k == "array": return Seq(k, sub(), r.choice([1, 2, 3, 5]))
            return Seq(k, sub(True))
        if x < .88: return Tup([sub() for _ in range(r.choice([1, 2, 2, 3, 4]))])
        return Map(r.choice(Map.KINDS), r.choice(KEYS), sub(True))
    def idents(self, pool, n):
        out = []
        pool = list(pool)
        self.rng.shuffle(pool)
        for i in range(n):
            x = pool[i] if i < len(pool) else None
            if x is None or self.rng.random() < .15: x = self.ident()
            if x not in out: out.append(x)
        return out
    def ident(self):
        """A random identifier: parts of letters and digits in any case, joined by underscores or not, sometimes very long."""
        r = self.rng
        part = lambda: r.choice(["a", "b", "x", "Q", "Zz", "id", "HTTP", "url", "Name", "ion", "k8", "v2"]) + r.choice(["", "", str(r.randrange(100)), "s"])
        n = r.choice([1, 2, 2, 3, 4]) if r.random() < .95 else r.randint(10, 30)
        s = r.choice(["", "", "", "_"]) + r.choice(["_", "_", "", "__"]).join(part() for _ in range(n)) + "%d" % r.randrange(1000)
        return s + r.choice(["", "", "", "_"])
