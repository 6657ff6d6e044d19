"""Oracles over JSON: does a value validate against a schema, is a document well-formed OpenAPI 3.0.3, do references resolve."""
import re, datetime

PREFIX = "#/components/schemas/"
RANGES = {"int%d" % n: (-2 ** (n - 1), 2 ** (n - 1) - 1) for n in (8, 16, 32, 64)}
RANGES.update({"uint%d" % n: (0, 2 ** n - 1) for n in (8, 16, 32, 64)})
UUID_RE = re.compile(r"[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}\Z")
DATE_RE = re.compile(r"[-+]?\d{4,}-\d\d-\d\d\Z")
DT_RE = re.compile(r"[-+]?\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]\d\d:\d\d)?\Z")

def validate(v, s, comps, path="$", depth=0):
    """First reason why v does not match s, or None."""
    if depth > 200: return path + ": too deep"
    if not isinstance(s, dict): return "%s: schema is not an object: %r" % (path, s)
    if not s: return None
    if "$ref" in s:
        r = s["$ref"]
        if not r.startswith(PREFIX) or r[len(PREFIX):] not in comps: return "%s: unresolved %r" % (path, r)
        return validate(v, comps[r[len(PREFIX):]], comps, path, depth + 1)
    for key in ("oneOf", "anyOf"):
        if key in s:
            why = []
            for i, a in enumerate(s[key]):
                w = validate(v, a, comps, "%s(%s %d)" % (path, key, i), depth + 1)
                if w is None: return None
                why.append(w)
            return "%s: %r matches no alternative of %s: %s" % (path, v, key, "; ".join(why)[:600])
    if "allOf" in s:
        for i, a in enumerate(s["allOf"]):
            w = validate(v, a, comps, "%s(allOf %d)" % (path, i), depth + 1)
            if w: return w
        return None
    t = s.get("type")
    if t is None: return None if set(s) <= {"description"} else "%s: schema has no type: %r" % (path, s)
    if v is None: return None if s.get("nullable") else "%s: null is not allowed" % path
    if t == "string":
        if not isinstance(v, str): return "%s: %r is not a string" % (path, v)
        if "enum" in s and v not in s["enum"]: return "%s: %r not in enum %r" % (path, v, s["enum"])
        f = s.get("format")
        if f == "null": return "%s: %r is not null" % (path, v)
        if f == "uuid" and not UUID_RE.match(v): return "%s: %r is not a uuid" % (path, v)
        if f == "date" and not DATE_RE.match(v): return "%s: %r is not a date" % (path, v)
        if f == "date-time" and not DT_RE.match(v): return "%s: %r is not a date-time" % (path, v)
        if f == "char" and len(v) != 1: return "%s: %r is not one character" % (path, v)
        return None
    if t == "integer":
        if isinstance(v, bool) or not isinstance(v, int): return "%s: %r is not an integer" % (path, v)
        r = RANGES.get(s.get("format"))
        if r and not r[0] <= v <= r[1]: return "%s: %r is out of the range of %s" % (path, v, s["format"])
        return None
    if t == "number":
        return None if isinstance(v, (int, float)) and not isinstance(v, bool) else "%s: %r is not a number" % (path, v)
    if t == "boolean":
        return None if isinstance(v, bool) else "%s: %r is not a boolean" % (path, v)
    if t == "array":
        if not isinstance(v, list): return "%s: %r is not an array" % (path, v)
        if "items" not in s: return "%s: array without items" % path
        for i, x in enumerate(v):
            w = validate(x, s["items"], comps, "%s[%d]" % (path, i), depth + 1)
            if w: return w
        return None
    if t == "object":
        if not isinstance(v, dict): return "%s: %r is not an object" % (path, v)
        props = s.get("properties", {})
        for k in s.get("required", []):
            if k not in v: return "%s: required %r is missing from %r" % (path, k, v)
        for k, x in v.items():
            if k in props: w = validate(x, props[k], comps, "%s.%s" % (path, k), depth + 1)
            elif "additionalProperties" in s: w = validate(x, s["additionalProperties"], comps, "%s.%s" % (path, k), depth + 1)
            else: w = None
            if w: return w
        return None
    return "%s: unknown type %r" % (path, t)


def refs(x, path="$"):
    """Every ($ref value, path) in a document; keys of `properties` are names, not keywords."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref" and isinstance(v, str): yield v, path
            elif k in ("properties", "schemas", "securitySchemes", "callbacks", "paths") and isinstance(v, dict):
                for n, w in v.items(): yield from refs(w, "%s.%s.%s" % (path, k, n))
            elif k in ("example", "description", "enum", "required"): pass
            else: yield from refs(v, "%s.%s" % (path, k))
    elif isinstance(x, list):
        for i, v in enumerate(x): yield from refs(v, "%s[%d]" % (path, i))


# ---------------------------------------------------------------- structure of OpenAPI 3.0.3 documents
def _only(x, allowed, path, out):
    for k in x:
        if k not in allowed: out.append("%s: key %r is not allowed here" % (path, k))
    for k, v in x.items():
        if v is None: out.append("%s.%s is null" % (path, k))

def _str(x, k, path, out, need=False):
    if k in x:
        if not isinstance(x[k], str): out.append("%s.%s: not a string: %r" % (path, k, x[k]))
    elif need: out.append("%s.%s is missing" % (path, k))

def _true(x, k, path, out):
    if k in x and x[k] is not True: out.append("%s.%s: %r where only true may be written" % (path, k, x[k]))

def schema_wf(s, path="$", out=None):
    out = [] if out is None else out
    if not isinstance(s, dict): out.append("%s: schema is not an object: %r" % (path, s)); return out
    if "$ref" in s:
        if set(s) != {"$ref"}: out.append("%s: $ref with siblings %r" % (path, sorted(s)))
        if not (isinstance(s["$ref"], str) and s["$ref"].startswith(PREFIX)): out.append("%s: bad $ref %r" % (path, s["$ref"]))
        return out
    if not s: return out
    _str(s, "description", path, out)
    alts = [k for k in ("oneOf", "anyOf", "allOf") if k in s]
    if alts:
        _only(s, ("description", alts[0]), path, out)
        if not isinstance(s[alts[0]], list): out.append("%s.%s is not an array" % (path, alts[0])); return out
        for i, a in enumerate(s[alts[0]]): schema_wf(a, "%s.%s[%d]" % (path, alts[0], i), out)
        return out
    t = s.get("type")
    keys = {"string": ("enum", "format", "example"), "number": ("format", "example"), "integer": ("format", "example"), "boolean": (),
            "array": ("items",), "object": ("properties", "additionalProperties", "required")}.get(t)
    if keys is None: out.append("%s: type is %r" % (path, t)); return out
    _only(s, ("description", "nullable", "type") + keys, path, out)
    _true(s, "nullable", path, out)
    for k in ("format", "example"): _str(s, k, path, out)
    if "enum" in s and not (isinstance(s["enum"], list) and all(isinstance(x, str) for x in s["enum"])): out.append("%s.enum: %r" % (path, s["enum"]))
    if t == "array":
        if "items" not in s: out.append("%s: array without items" % path)
        else: schema_wf(s["items"], path + ".items", out)
    if t == "object":
        if "properties" in s:
            if not s["properties"]: out.append("%s.properties is empty" % path)
            for k, v in s["properties"].items(): schema_wf(v, "%s.properties.%s" % (path, k), out)
        if "additionalProperties" in s: schema_wf(s["additionalProperties"], path + ".additionalProperties", out)
        if "required" in s and not (isinstance(s["required"], list) and s["required"] and all(isinstance(x, str) for x in s["required"])): out.append("%s.required: %r" % (path, s["required"]))
    return out

METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]

def content_wf(c, path, out):
    if set(c) != {"application/json"} or set(c["application/json"]) != {"schema"}: out.append("%s: content is %r" % (path, c)); return
    schema_wf(c["application/json"]["schema"], path + ".schema", out)

def params_wf(ps, path, out):
    if not isinstance(ps, list) or not ps: out.append("%s: %r" % (path, ps)); return
    for i, p in enumerate(ps):
        q = "%s[%d]" % (path, i)
        _only(p, ("name", "description", "in", "required", "deprecated", "schema"), q, out)
        _str(p, "name", q, out, True); _str(p, "description", q, out)
        if p.get("in") not in ("query", "header", "path", "cookie"): out.append("%s.in: %r" % (q, p.get("in")))
        _true(p, "required", q, out); _true(p, "deprecated", q, out)
        if "schema" in p: schema_wf(p["schema"], q + ".schema", out)

def path_item_wf(it, path, out):
    _only(it, ("summary", "description", "parameters") + tuple(METHODS), path, out)
    _str(it, "summary", path, out); _str(it, "description", path, out)
    if "parameters" in it: params_wf(it["parameters"], path + ".parameters", out)
    for meth in METHODS:
        if meth not in it: continue
        op, q = it[meth], path + "." + meth
        _only(op, ("tags", "summary", "operationId", "description", "deprecated", "security", "requestBody", "responses", "parameters", "callbacks"), q, out)
        for k in ("summary", "operationId", "description"): _str(op, k, q, out)
        _true(op, "deprecated", q, out)
        if "tags" in op and not (isinstance(op["tags"], list) and op["tags"] and all(isinstance(x, str) for x in op["tags"])): out.append("%s.tags: %r" % (q, op["tags"]))
        if "security" in op:
            if not isinstance(op["security"], list) or not op["security"]: out.append("%s.security: %r" % (q, op["security"]))
            else:
                for a in op["security"]:
                    if not (isinstance(a, dict) and all(isinstance(v, list) and all(isinstance(x, str) for x in v) for v in a.values())): out.append("%s.security: %r" % (q, a))
        if "requestBody" in op:
            b = op["requestBody"]
            _only(b, ("required", "description", "content"), q + ".requestBody", out)
            _true(b, "required", q + ".requestBody", out); _str(b, "description", q + ".requestBody", out)
            if "content" not in b: out.append(q + ".requestBody.content is missing")
            else: content_wf(b["content"], q + ".requestBody", out)
        if not isinstance(op.get("responses"), dict): out.append(q + ".responses is missing")
        else:
            for code, r in op["responses"].items():
                w = "%s.responses.%s" % (q, code)
                if not code.isdigit(): out.append(w + ": not a status code")
                _only(r, ("description", "content"), w, out); _str(r, "description", w, out, True)
                if "content" in r: content_wf(r["content"], w, out)
        if "parameters" in op: params_wf(op["parameters"], q + ".parameters", out)
        if "callbacks" in op:
            if not op["callbacks"]: out.append(q + ".callbacks is empty")
            for n, cb in op["callbacks"].items():
                for u, it2 in cb.items(): path_item_wf(it2, "%s.callbacks.%s.%s" % (q, n, u), out)

def components_wf(c, path="$", out=None):
    out = [] if out is None else out
    _only(c, ("schemas", "securitySchemes"), path, out)
    for k in ("schemas", "securitySchemes"):
        if k in c and not c[k]: out.append("%s.%s is empty" % (path, k))
    for n, s in c.get("schemas", {}).items(): schema_wf(s, "%s.schemas.%s" % (path, n), out)
    for n, s in c.get("securitySchemes", {}).items():
        q = "%s.securitySchemes.%s" % (path, n)
        if s.get("type") == "http":
            if s.get("scheme") not in ("basic", "bearer"): out.append(q + ".scheme: %r" % s.get("scheme"))
            _only(s, ("type", "scheme", "description") + (("bearerFormat",) if s.get("scheme") == "bearer" else ()), q, out)
            _str(s, "bearerFormat", q, out)
        elif s.get("type") == "apiKey":
            _only(s, ("type", "in", "name", "description"), q, out)
            _str(s, "name", q, out, True)
            if s.get("in") not in ("query", "header", "cookie", "path"): out.append(q + ".in: %r" % s.get("in"))
        else: out.append(q + ".type: %r" % s.get("type"))
        _str(s, "description", q, out)
    return out

def doc_wf(d):
    out = []
    _only(d, ("openapi", "info", "tags", "servers", "paths", "components"), "$", out)
    if d.get("openapi") != "3.0.3": out.append("$.openapi: %r" % d.get("openapi"))
    info = d.get("info", {})
    _only(info, ("title", "description", "version"), "$.info", out)
    _str(info, "title", "$.info", out, True); _str(info, "version", "$.info", out, True); _str(info, "description", "$.info", out)
    for k in ("tags", "servers"):
        if k in d:
            if not isinstance(d[k], list) or not d[k]: out.append("$.%s: %r" % (k, d[k])); continue
            name = "name" if k == "tags" else "url"
            for i, t in enumerate(d[k]):
                _only(t, (name, "description"), "$.%s[%d]" % (k, i), out)
                _str(t, name, "$.%s[%d]" % (k, i), out, True); _str(t, "description", "$.%s[%d]" % (k, i), out)
    if "paths" not in d: out.append("$.paths is missing")
    else:
        if not isinstance(d["paths"], dict): out.append("$.paths: %r" % d["paths"]); return out
        for u, it in d["paths"].items():
            if not u.startswith("/"): out.append("$.paths.%s does not start with a slash" % u)
            path_item_wf(it, "$.paths." + u, out)
    if "components" not in d: out.append("$.components is missing")
    else: components_wf(d["components"], "$.components", out)
    return out
