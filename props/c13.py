"""C13: security schemes and requirements are recorded as declared."""
import itertools
from c11 import *

def opts(r):
    return O(npaths=(1, 2, 3), nops=(1, 2, 4), params=.1, callbacks=.4, security=.95, schemes=.9, body=.05, sections=.3 if r.random() < .1 else 1, depth=0)

def extra(ctx):
    out = {}
    base = lambda comps, **k: dict({"openapi": "3.0.3", "info": {"title": "", "version": ""}, "paths": {}}, **dict(k, components={"securitySchemes": comps} if comps else {}))
    T = ["", "plain", "a\"b\\c", "é\u2028", "#/x", "null"]
    # every combination of set attributes, inline and as a variable, literal and expression values
    n = 0
    for form in ("inline", "var", "enumvar"):
        items, pre, js = [], [], {}
        for k, (d, f) in itertools.product(("Basic", "Bearer"), itertools.product([None, T[1], T[2]], [None, T[1], T[3]])):
            if k == "Basic" and f is not None and form != "inline": continue
            n += 1
            name = "s%d" % n
            j = {"type": "http", "scheme": k.lower()}
            if k == "Bearer" and f is not None: j["bearerFormat"] = f
            if d is not None: j["description"] = d
            js[name] = j
            o = lambda v: "None" if v is None else "Some(%s.to_string())" % rs(v)
            if form == "inline": items.append("(http \"%s\"): { scheme: %s%s%s }" % (name, k, ", bearer_format: " + rs(f) if f is not None else "", ", description: " + rs(d) if d is not None else ""))
            else:
                v = "HttpSecurityScheme::%s { %sdescription: %s }" % (k, "format: %s, " % o(f) if k == "Bearer" else "", o(d))
                pre.append("let %s = %s;" % (name, v if form == "var" else "SecurityScheme::Http(%s)" % v)); items.append(name)
        for w, d, nm in itertools.product(("Query", "Header", "Cookie", None), [None, T[0], T[4]], T[1:4]):
            if w is None and form != "inline": continue
            n += 1
            name = "k%d" % n
            j = {"type": "apiKey", "in": (w or "Header").lower(), "name": nm}
            if d is not None: j["description"] = d
            js[name] = j
            if form == "inline": items.append("(apiKey \"%s\"): { %sname: %s%s }" % (name, "parameter_in: %s, " % w if w else "", rs(nm), ", description: " + rs(d) if d is not None else ""))
            else:
                v = "ApiKeySecurityScheme { parameter_in: ParameterIn::%s, name: %s.to_string(), description: %s }" % (w, rs(nm), o(d))
                pre.append("let %s = %s;" % (name, v if form == "var" else "SecurityScheme::ApiKey(%s)" % v)); items.append(name)
        for i in range(0, len(items), 12):
            ns = list(js)[i:i + 12]
            out["combo_%s_%d" % (form, i)] = ("", "{ %s opg::describe_api! { security_schemes: { %s } } }" % (" ".join(pre[i:i + 12]) if pre else "", ", ".join(items[i:i + 12])), base({k: js[k] for k in sorted(ns)}))
    # a requirement never alters a declared scheme, in either order of the sections
    sec = "security_schemes: { (http \"tok\"): { scheme: Basic, description: \"declared\" } }"
    paths = "paths: { (\"p\"): { GET: { security: { tok }, 200: None } } }"
    doc = base({"tok": {"type": "http", "scheme": "basic", "description": "declared"}}, paths={"/p": {"get": {"security": [{"tok": []}], "responses": {"200": {"description": "OK"}}}}})
    pre = "let tok = HttpSecurityScheme::Bearer { format: None, description: Some(\"required\".to_string()) };"
    out["declared_first"] = ("", "{ %s opg::describe_api! { %s, %s } }" % (pre, sec, paths), doc)
    out["declared_last"] = ("", "{ %s opg::describe_api! { %s, %s } }" % (pre, paths, sec), doc)
    # one variable across operations, paths and callbacks; long alternatives; many roles; alternatives that repeat
    reqs = "security: { tok && \"a\" && \"b\"[%s], \"a\", \"a\", tok[\"z\", \"y\", \"z\"] }" % ", ".join("\"r%d\"" % i for i in range(20))
    alts = [{"a": [], "b": ["r%d" % i for i in range(20)], "tok": []}, {"a": []}, {"a": []}, {"tok": ["z", "y", "z"]}]
    op = {"security": alts, "responses": {}}
    cb = "callbacks: { \"c\": { (\"q\"): { POST: { %s } } } }" % reqs
    out["shared"] = ("", "{ %s opg::describe_api! { paths: { (\"p\"): { GET: { %s, %s }, PUT: { %s } }, (\"r\"): { TRACE: { %s } } } } }" % (pre, reqs, cb, reqs, reqs),
                     base({"tok": {"type": "http", "scheme": "bearer", "description": "required"}},
                          paths={"/p": {"get": dict(op, callbacks={"c": {"/q": {"post": op}}}), "put": op}, "/r": {"trace": op}}))
    # a literal requirement registers nothing
    out["literal"] = ("", "opg::describe_api! { paths: { (\"p\"): { GET: { security: { \"nope\" } } } } }", base(None, paths={"/p": {"get": {"security": [{"nope": []}], "responses": {}}}}))
    many = ["q%02d" % i for i in range(40)]
    out["forty"] = ("", "{ %s opg::describe_api! { paths: { (\"p\"): { GET: { security: { %s } } } } } }" % (" ".join("let %s = HttpSecurityScheme::Basic { description: Some(\"%s\".to_string()) };" % (m, m) for m in many), ", ".join(many[::-1])),
                    base({m: {"type": "http", "scheme": "basic", "description": m} for m in many}, paths={"/p": {"get": {"security": [{m: []} for m in many[::-1]], "responses": {}}}}))
    return out

def main(ctx):
    run(ctx, opts, napis=(300, 1500), extra=extra,
        rule="random describe_api! programs dominated by security (inline and variable schemes of all kinds, requirements with &&, roles, alternatives, callbacks, sections in any order) and every combination of scheme attributes; the whole document is compared with the reference; distinct by document")
