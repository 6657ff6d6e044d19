"""describe_api! programs and the document each one has to produce."""
from typegen import *
from common import rs, sized, wild

REASONS = {100: "Continue", 101: "Switching Protocols", 102: "Processing", 200: "OK", 201: "Created", 202: "Accepted", 203: "Non Authoritative Information", 204: "No Content", 205: "Reset Content", 206: "Partial Content", 207: "Multi-Status", 208: "Already Reported", 226: "IM Used",
           300: "Multiple Choices", 301: "Moved Permanently", 302: "Found", 303: "See Other", 304: "Not Modified", 305: "Use Proxy", 307: "Temporary Redirect", 308: "Permanent Redirect",
           400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 409: "Conflict", 410: "Gone", 411: "Length Required",
           412: "Precondition Failed", 413: "Payload Too Large", 414: "URI Too Long", 415: "Unsupported Media Type", 416: "Range Not Satisfiable", 417: "Expectation Failed", 418: "I'm a teapot", 421: "Misdirected Request", 422: "Unprocessable Entity", 423: "Locked", 424: "Failed Dependency",
           426: "Upgrade Required", 428: "Precondition Required", 429: "Too Many Requests", 431: "Request Header Fields Too Large", 451: "Unavailable For Legal Reasons", 500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Timeout",
           505: "HTTP Version Not Supported", 506: "Variant Also Negotiates", 507: "Insufficient Storage", 508: "Loop Detected", 510: "Not Extended", 511: "Network Authentication Required"}
METHODS = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]

class O:
    """Knobs of the generator."""
    npaths = (0, 1, 2, 3, 5)
    nops = (0, 1, 1, 2, 3, 8)
    params = .5
    callbacks = .25
    security = .4
    schemes = .6
    body = .5
    depth = 2
    segs = (1, 1, 2, 3, 5)
    sections = .85
    pnames = None
    once = None              # prefix of keys of expressions that count their evaluations (documents generated once)
    unnamed = .25
    def __init__(self, **k): self.__dict__.update(k)

SEGS = ["pets", "v1", "a-b", "", "with space", "é", "x.json", "a{b", "$x", "~", "%20", "users", "nested", "0", "{literal}", "a/b", "?q=1", "#frag", "/lead", "trail/", "/", "//", "/a/", "{", "}", "{}", ":id", "*", "..", "UPPER", "Ü"]
TAGS = ["pets", "users", "a", "b", "zz", "tag_x", "Mixed", "u1", "public", "r", "admin", "default", "type", "fn"]
QNAMES = ["limit", "offset", "q", "sort_by", "X", "camelCase", "page_1", "filter", "r", "id", "z9", "name", "type", "in", "match"]
HNAMES = ["X-Request-Id", "Authorization", "x", "with space", "é-header", "a\"b", "Accept", "$h", "0", "X-Very-Long-Header-Name-For-Test"]

LOCALS = ["title", "version", "description", "result", "path", "context", "operation", "parameter", "security", "callback_object", "schema", "required", "deprecated", "scheme", "bearer_format", "parameter_in", "name", "full_name",
          "chars", "first", "properties", "http_security_scheme", "summary", "status", "url", "tags", "i", "info", "model", "paths", "servers", "operations", "callbacks", "body", "value", "opg", "http", "link"]

class ApiGen:
    def __init__(self, g, o=None, defs=()):
        self.g, self.r, self.o, self.defs = g, g.rng, o or O(), list(defs)
        self.pre = []            # statements before the macro
        self.used = []           # definitions linked
        self.mentioned = []      # (Ty) in order
        self.vars = 0
        self.locals = set()
        self.evals = 0
        self.scheme_vars = {}    # name -> reference JSON
        self.declared = {}       # schemes declared in the section
        self.required = {}       # schemes registered by requirements
        self.feat = set()

    # ---- small pieces
    def local(self):
        """A variable named like a property of the description or like something in the macros."""
        free = [n for n in LOCALS if n not in self.locals]
        if not free: return None
        n = self.r.choice(free)
        self.locals.add(n)
        return n
    def var(self, decl):
        self.vars += 1
        n = "v%d" % self.vars
        if self.r.random() < .4: n = self.local() or n
        self.pre.append(decl.replace("@@", n, 1))
        return n
    def text(self): return self.g.text()
    def expr(self):
        """Expression with ToString -> (rust, text)."""
        r = self.r
        x = r.random()
        if self.o.once and r.random() < .12:
            self.evals += 1
            k = "%s/%d" % (self.o.once, self.evals)
            return "rt::once(%s)" % rs(k), k + " evaluation 1"
        if x < .55: t = self.text(); return rs(t), t
        if x < .65: t = self.text(); return self.var("let @@ = %s.to_string();" % rs(t)), t
        if x < .75: t = self.text(); return self.var("let @@: &str = %s;" % rs(t)), t
        if x < .82: return "format!(\"{}-{}\", 1, \"x\")", "1-x"
        if x < .88: return "40 + 2", "42"
        if x < .94: return "true", "true"
        return "concat!(\"a\", 1, \"b\")", "a1b"
    def rexpr(self):
        """Expression of a reference to ToString."""
        r = self.r
        x = r.random()
        if x < .6: t = self.text(); return rs(t), t
        if x < .8: t = self.text(); return "&" + self.var("let @@ = %s.to_string();" % rs(t)), t
        if x < .9: return "&format!(\"{}-{}\", 1, \"x\")", "1-x"
        return "&42", "42"
    def boolx(self, v):
        if self.r.random() < .15: return "!%s" % str(not v).lower()
        return str(v).lower()
    def sep(self, items, always=False):
        """Items with separators; the last comma is optional."""
        s = ", ".join(items)
        if items and self.r.random() < .5: s += ","
        return s
    def ty(self):
        """A type written as a path."""
        for _ in range(50):
            t = self.g.ty(self.o.depth, self.defs)
            if isinstance(t, (Prim, DefT, Opt, Map)) and t.rust[0] not in "&(": return t
            if isinstance(t, Seq) and t.kind not in ("array", "slice"): return t
            if isinstance(t, Wrap) and t.kind not in ("&", "&mut"): return t
        return STRING
    def ref(self, t):
        self.mentioned.append(t)
        return t.ref(self.used)
    def param_json(self, name, where, required, schema, description=None, deprecated=False):
        p = {"name": name}
        if description is not None: p["description"] = description
        p["in"] = where
        if required: p["required"] = True
        if deprecated: p["deprecated"] = True
        p["schema"] = schema
        return p

    # ---- parameters: returns (rust, {name: json})
    def parameters(self, taken=()):
        r = self.r
        out, js = [], {}
        names = set(taken)
        for _ in range(sized(r, [0, 1, 1, 2, 3], (8, 30))):
            desc, dep, sch = None, False, None
            if r.random() < .5:
                n = r.choice(HNAMES) + r.choice(["", "", "", "-%d" % r.randrange(50)])
                if n in names: continue
                required, schema, where = True, self.ref(STRING), "header"
                e = rs(n)
                if r.random() < .2: e = self.var("let @@ = %s.to_string();" % rs(n))
                elif r.random() < .1: e = "format!(\"{}\", %s)" % rs(n)
                head = "(header %s)" % e
            else:
                n = r.choice(QNAMES) + r.choice(["", "", "", "_%d" % r.randrange(50)])
                if n in names: continue
                t = self.ty()
                required, schema, where = False, self.ref(t), "query"
                head = "(query %s: %s)" % (n, t.rust)
            names.add(n)
            if r.random() < .6:
                props = []
                if r.random() < .5: e, desc = self.expr(); props.append("description: " + e)
                if r.random() < .5: required = r.random() < .5; props.append("required: " + self.boolx(required))
                if r.random() < .4: dep = r.random() < .7; props.append("deprecated: " + self.boolx(dep))
                if r.random() < .4:
                    t = self.ty(); schema = self.ref(t); props.append("schema: " + t.rust)
                r.shuffle(props)
                head += ": { %s }" % self.sep(props)
            out.append(head)
            js[n] = self.param_json(n, where, required, schema, desc, dep)
            self.feat.add(where)
        return "parameters: { %s }" % self.sep(out), js

    # ---- one operation
    def operation(self, depth):
        r = self.r
        items, op = [], {}
        if r.random() < .5: e, op["summary"] = self.rexpr(); items.append("summary: " + e)
        if r.random() < .4: e, op["operationId"] = self.rexpr(); items.append("operationId: " + e)
        if r.random() < .4: e, op["description"] = self.rexpr(); items.append("description: " + e)
        if r.random() < .3:
            v = r.random() < .7
            items.append("deprecated: " + self.boolx(v))
            if v: op["deprecated"] = True
        if r.random() < .4:
            ts = r.sample(TAGS, r.choice([1, 2, 3])) + ["tag%d" % i for i in r.sample(range(99), sized(r, [0], (8, 30)))]
            if r.random() < .1: ts.append(ts[0])
            items.append("tags: {%s}" % self.sep(ts)); op["tags"] = ts
            self.feat.add("tags")
        if r.random() < self.o.params:
            s, js = self.parameters()
            items.append(s)
            if js: op["parameters"] = [js[k] for k in sorted(js)]
        if r.random() < self.o.security:
            s, alts = self.security()
            items.append(s)
            if alts: op["security"] = alts
        if r.random() < self.o.body:
            t = self.ty()
            if r.random() < .5:
                items.append("body: " + t.rust)
                op["requestBody"] = self.body(t, True, "")
            else:
                props, req, desc = ["schema: " + t.rust], True, ""
                if r.random() < .5: req = r.random() < .4; props.append("required: " + str(req).lower())
                if r.random() < .5: desc = self.text(); props.append("description: " + rs(desc))
                r.shuffle(props)
                items.append("body: { %s }" % self.sep(props))
                op["requestBody"] = self.body(t, req, desc)
            self.feat.add("body")
        codes = r.sample([200, 201, 204, 301, 400, 404, 418, 500, 503] + [r.randrange(100, 600) for _ in range(60)], sized(r, [0, 1, 1, 2, 4], (8, 30)))
        resp = {}
        for c in dict.fromkeys(codes):
            s, j = self.response(c)
            items.append(s); resp[c] = j
        if depth > 0 and r.random() < self.o.callbacks:
            s, cbs = self.callbacks(depth - 1)
            items.append(s)
            if cbs: op["callbacks"] = cbs
        r.shuffle(items)
        op["responses"] = {str(c): resp[c] for c in sorted(resp)}
        order = ["tags", "summary", "operationId", "description", "deprecated", "security", "requestBody", "responses", "parameters", "callbacks"]
        return "{ %s }" % self.sep(items), {k: op[k] for k in order if k in op}
    def body(self, t, req, desc):
        b = {}
        if req: b["required"] = True
        b["description"] = desc
        b["content"] = {"application/json": {"schema": self.ref(t)}}
        return b
    def response(self, code):
        r = self.r
        d = ""
        desc = REASONS.get(code, "")
        if r.random() < .4: desc = self.text(); d = "(%s)" % rs(desc)
        x = r.random()
        j = {"description": desc}
        if x < .25: v = "None"
        elif x < .35: v = "()"; j["content"] = {"application/json": {"schema": self.ref(UNITT)}}
        elif x < .4: v = "{ None }"
        else:
            t = self.ty(); v = t.rust
            j["content"] = {"application/json": {"schema": self.ref(t)}}
        self.feat.add("response")
        return "%d%s: %s" % (code, d, v), j

    # ---- security
    def scheme(self):
        """(kind, macro properties, value of the Rust type, JSON)."""
        r = self.r
        desc = self.text() if r.random() < .5 else None
        o = lambda v: "None" if v is None else "Some(%s.to_string())" % rs(v)
        if r.random() < .5:
            k = r.choice(["Basic", "Bearer"])
            j = {"type": "http", "scheme": k.lower()}
            fmt = self.text() if k == "Bearer" and r.random() < .6 else None
            if fmt is not None: j["bearerFormat"] = fmt
            if desc is not None: j["description"] = desc
            props = ["scheme: " + k] + (["bearer_format: " + rs(fmt)] if fmt is not None else []) + (["description: " + rs(desc)] if desc is not None else [])
            val = "opg::HttpSecurityScheme::%s { %sdescription: %s }" % (k, "format: %s, " % o(fmt) if k == "Bearer" else "", o(desc))
            return "http", props, val, j
        where = r.choice(["Query", "Header", "Cookie"])
        name = self.text()
        j = {"type": "apiKey", "in": where.lower(), "name": name}
        if desc is not None: j["description"] = desc
        props = ["name: " + rs(name)] + (["description: " + rs(desc)] if desc is not None else [])
        if where != "Header" or r.random() < .5: props.append("parameter_in: " + where)
        return "apiKey", props, "opg::ApiKeySecurityScheme { parameter_in: opg::ParameterIn::%s, name: %s.to_string(), description: %s }" % (where, rs(name), o(desc)), j
    def scheme_var(self):
        n = self.local() if self.r.random() < .25 else None
        n = n or "scheme_%d" % (len(self.scheme_vars) + 1)
        k, props, val, j = self.scheme()
        if self.r.random() < .3: val = "opg::SecurityScheme::from(%s)" % val
        self.pre.append("let %s = %s;" % (n, val))
        self.scheme_vars[n] = j
        return n, j
    def schemes(self):
        r = self.r
        out = []
        for _ in range(sized(r, [0, 1, 2, 3, 4], (8, 20))):
            if r.random() < .3:
                n, j = self.scheme_var()
                if n in self.declared: continue
                out.append(n); self.declared[n] = j
                continue
            n = r.choice(["basicAuth", "bearerAuth", "apiKeyAuth", "with space", "é", "x", "scheme_1", "scheme_2", "Z", "0"]) + r.choice(["", "", "2", str(r.randrange(50))])
            if n in self.declared: continue
            k, props, val, j = self.scheme()
            r.shuffle(props)
            e = rs(n)
            if k == "apiKey" and r.random() < .2: e = "format!(\"{}\", %s)" % rs(n)
            out.append("(%s %s): { %s }" % (k, e, self.sep(props)))
            self.declared[n] = j
        r.shuffle(out)
        return "security_schemes: { %s }" % self.sep(out)
    def security(self):
        r = self.r
        alts, js = [], []
        for _ in range(sized(r, [1, 1, 2, 3], (6, 20))):
            parts, req = [], {}
            for _ in range(sized(r, [1, 1, 2, 3], (5, 14), .08)):
                if r.random() < .35:
                    if self.scheme_vars and r.random() < .5: n = r.choice(sorted(self.scheme_vars))
                    else: n, _j = self.scheme_var()
                    if n in req: continue
                    self.required.setdefault(n, self.scheme_vars[n])
                    s = n
                else:
                    n = r.choice(["basicAuth", "bearerAuth", "undeclared", "é", "x y", "more%d" % r.randrange(9)])
                    if n in req: continue
                    s = rs(n)
                roles = []
                if r.random() < .4:
                    roles = [self.text() for _ in range(sized(r, [0, 1, 2, 3], (6, 20)))]
                    s += "[%s]" % ", ".join(rs(x) for x in roles)
                req[n] = roles
                parts.append(s)
            alts.append(" && ".join(parts))
            js.append({k: req[k] for k in sorted(req)})
        if r.random() < .1: alts.append(alts[0]); js.append(js[0])
        self.feat.add("security")
        return "security: { %s }" % self.sep(alts), js

    # ---- paths
    def path(self, used):
        r = self.r
        for _ in range(50):
            segs, text, params = [], "", {}
            for _ in range(sized(r, self.o.segs, (9, 24), .04)):
                x = r.random()
                if x < .8 - self.o.unnamed:
                    s = r.choice(SEGS) + r.choice(["", str(r.randrange(100))])
                    segs.append(rs(s)); text += "/" + s
                    continue
                if x < 1 - self.o.unnamed:
                    t = self.ty(); n = r.choice(["id", "petId", "x_y", "Name", "z", "user_id", "type", "in", "é", "ID", "A", "_u", "__", "header", "query", "path", "HTTPCode", "r", "Ñ"] + (self.o.pnames or [])) + r.choice(["", "2"])
                    s = "{%s: %s}" % (n, t.rust)
                else:
                    t = r.choice([STRING, BYNAME["u64"], BYNAME["bool"], UUID] + [DefT(d) for d in self.defs if not d.ident.startswith("r#")])
                    p = t.rust.split("::")[-1]
                    s = t.rust
                    if t is STRING and r.random() < .5: s = "std::string::String"
                    if isinstance(t, DefT) and r.random() < .3: s = "self::" + t.rust
                    if r.random() < .15:   # a generic type: the name is the last segment of its own path
                        k, full = r.choice([("Vec", "std::vec::"), ("Option", "std::option::"), ("Box", "std::boxed::"), ("Arc", "std::sync::")])
                        t = {"Vec": lambda: Seq("Vec", t), "Option": lambda: Opt(t)}.get(k, lambda: Wrap(k, t))()
                        p = "%s<%s>" % (k, s)
                        s = (full if k == "Arc" or r.random() < .4 else "") + p
                    n = p[0].lower() + p[1:]
                if n in params: continue
                segs.append(s); text += "/{%s}" % n
                params[n] = t
            if text and text not in used:
                used.add(text)
                if params: self.feat.add("placeholder")
                return "(%s)" % " / ".join(segs), text, {n: self.param_json(n, "path", True, self.ref(t)) for n, t in params.items()}
        return "(\"unique%d\")" % len(used), "/unique%d" % len(used), {}
    def path_value(self, depth, params):
        r = self.r
        items, pv = [], {}
        if r.random() < .3: pv["summary"] = self.text(); items.append("summary: " + rs(pv["summary"]))
        if r.random() < .3: pv["description"] = self.text(); items.append("description: " + rs(pv["description"]))
        params = dict(params)
        if r.random() < self.o.params:
            s, js = self.parameters(taken=params)
            items.append(s); params.update(js)
        ops = {}
        for m in r.sample(METHODS, r.choice(self.o.nops)):
            s, j = self.operation(depth)
            items.append("%s: %s" % (m, s)); ops[m] = j
            self.feat.add(m)
        for m in METHODS:
            if m in ops: pv[m.lower()] = ops[m]
        if params: pv["parameters"] = [params[k] for k in sorted(params)]
        r.shuffle(items)
        return "{ %s }" % self.sep(items), pv
    def callbacks(self, depth):
        r = self.r
        out, js = [], {}
        for _ in range(sized(r, [1, 1, 2], (4, 8))):
            n = r.choice(["onEvent", "done", "cb_x", "Z"]) + r.choice(["", "", str(r.randrange(9))])
            if n in js: continue
            used, paths, pj = set(), [], {}
            for _ in range(sized(r, [0, 1, 1, 2, 3], (4, 8), .08)):
                s, text, params = self.path(used)
                v, pv = self.path_value(depth, params)
                paths.append("%s: %s" % (s, v)); pj[text] = pv
            out.append("%s: { %s }" % (n if r.random() < .5 else rs(n), self.sep(paths)))
            js[n] = pj
            self.feat.add("callback")
        return "callbacks: { %s }" % self.sep(out), {k: js[k] for k in sorted(js)}

    # ---- whole document
    def build(self):
        r = self.r
        secs, doc = [], {"openapi": "3.0.3", "info": {"title": "", "version": ""}, "paths": {}}
        on = lambda: r.random() < self.o.sections
        if on():
            items, info = [], {}
            for k in ("title", "version", "description"):
                if r.random() < .8: e, info[k] = self.expr(); items.append("%s: %s" % (k, e))
            r.shuffle(items)
            if items:
                secs.append("info: { %s }" % self.sep(items))
                doc["info"] = {"title": info.get("title", "")}
                if "description" in info: doc["info"]["description"] = info["description"]
                doc["info"]["version"] = info.get("version", "")
        if on():
            ts = r.sample(TAGS, r.choice([1, 2, 4])) + ["tag%d" % i for i in r.sample(range(99), sized(r, [0], (8, 40)))]
            items, js = [], {}
            for t in ts:
                if r.random() < .5: e, d = self.expr(); items.append("%s(%s)" % (t, e)); js[t] = {"name": t, "description": d}
                else: items.append(t); js[t] = {"name": t}
            secs.append("tags: { %s }" % self.sep(items))
            doc["tags"] = [js[t] for t in sorted(js)]
        if on():
            items, js = [], []
            for _ in range(sized(r, [1, 2, 3], (8, 30))):
                u, ut = self.slit()
                s = {"url": ut}
                if r.random() < .5: d, s["description"] = self.slit(); u += "(%s)" % d
                items.append(u); js.append(s)
            if r.random() < .1: items.append(rs(js[0]["url"]) + ("(%s)" % rs(js[0]["description"]) if "description" in js[0] else "")); js.append(js[0])
            secs.append("servers: { %s }" % self.sep(items))
            doc["servers"] = js
        if r.random() < self.o.schemes: secs.append(self.schemes())
        if on():
            used, items, js = set(), [], {}
            for _ in range(sized(r, self.o.npaths, (8, 16), .03)):
                s, text, params = self.path(used)
                v, pv = self.path_value(1, params)
                items.append("%s: %s" % (s, v)); js[text] = pv
            secs.append("paths: { %s }" % self.sep(items))
            doc["paths"] = js
        r.shuffle(secs)
        comps = closure(self.used)
        c = {}
        if comps: c["schemas"] = {k: comps[k] for k in sorted(comps)}
        ss = dict(self.required); ss.update(self.declared)
        if ss: c["securitySchemes"] = {k: ss[k] for k in sorted(ss)}
        doc["components"] = c
        order = ["openapi", "info", "tags", "servers", "paths", "components"]
        self.doc = {k: doc[k] for k in order if k in doc}
        self.macro = "opg::describe_api! {\n%s\n}" % (",\n".join("  " + s for s in secs) + ("," if secs and r.random() < .5 else ""))
        return self
    def slit(self):
        t = self.text()
        x = self.r.random()
        if x < .6: return rs(t), t
        if x < .8: return self.var("let @@: &str = %s;" % rs(t)), t
        return self.var("let @@: String = %s.to_string();" % rs(t)), t
    def rust(self): return "{ %s\n%s }" % (" ".join(self.pre), self.macro)
