"""C14: any document serializes to well-formed, loss-free OpenAPI 3.0.3."""
from driver import *
import schema as S

class Docs:
    def __init__(self, r, depth):
        self.r, self.g = r, Models(r, ["A", "B", "x/y", "é", ""], depth)
    def names(self, n): return self.g.names(n)
    def o(self, p=.45): return self.g.opt(p)
    def few(self, *c): return sized(self.r, c, (5, 24), .012)
    def parameter(self, n):
        r = self.r
        return {"name": n, "description": self.o(), "in": r.choice(["query", "header", "path", "cookie"]), "required": r.random() < .5, "deprecated": r.random() < .3, "schema": self.g.ref() if r.random() < .8 else None}
    def scheme(self):
        r = self.r
        t = r.choice(["basic", "bearer", "apiKey"])
        return {"t": t, "description": self.o(), "format": self.o(), "in": r.choice(["query", "header", "cookie"]), "name": self.g.text()}
    def operation(self, depth):
        r = self.r
        op = {"setters": r.random() < .5, "tags": [self.g.text() for _ in range(self.few(0, 0, 1, 3))], "summary": self.o(), "operation_id": self.o(), "description": self.o(), "deprecated": r.random() < .3}
        op["security"] = [[[n, [self.g.text() for _ in range(self.few(0, 0, 1, 3))]] for n in self.names(self.few(0, 1, 1, 2))] for _ in range(self.few(0, 0, 1, 2))]
        if r.random() < .5: op["body"] = {"description": self.o(), "required": r.random() < .6, "schema": self.g.ref()}
        op["responses"] = [[c, self.g.text(), self.g.ref() if r.random() < .7 else None] for c in r.sample([0, 1, 65535, 200, 201, 404, 500, 99, 1000] + list(range(100, 600, 7)), self.few(0, 1, 2, 4))]
        op["parameters"] = [self.parameter(n) for n in self.names(self.few(0, 0, 1, 3))]
        op["callbacks"] = [[n, self.paths(depth - 1, self.few(0, 1, 2))] for n in self.names(self.few(0, 1, 2))] if depth > 0 and r.random() < .3 else []
        return op
    def paths(self, depth, n):
        r, out, seen = self.r, [], set()
        for _ in range(n):
            segs = [["p" if r.random() < .4 else "s", self.g.text()] for _ in range(self.few(1, 2, 4))]
            if path_text(segs) in seen: continue
            seen.add(path_text(segs))
            out.append({"segments": segs, "summary": self.o(.3), "description": self.o(.3), "parameters": [self.parameter(n) for n in self.names(self.few(0, 0, 1, 2))],
                        "operations": [[m, self.operation(depth)] for m in r.sample(S.METHODS, min(8, self.few(0, 1, 1, 2, 8)))]})
        return out
    def doc(self):
        r = self.r
        return {"info": {"title": self.g.text(), "description": self.o(), "version": self.g.text()}, "tags": [[n, self.o()] for n in self.names(self.few(0, 1, 3))], "servers": [[self.g.text(), self.o()] for _ in range(self.few(0, 1, 3))],
                "paths": self.paths(min(7, self.few(0, 1, 2)), self.few(0, 1, 2, 4)), "schemas": [[n, self.g.model()] for n in self.names(self.few(0, 1, 3))], "schemes": [[n, self.scheme()] for n in self.names(self.few(0, 1, 3))]}

# ---- what the document has to be
def path_text(segs): return "".join("/{%s}" % t if k == "p" else "/" + t for k, t in segs)
def some(**k): return {a: v for a, v in k.items() if v not in (None, False)}
def listed(d, k, v):
    if v: d[k] = v
def content(ref): return {"application/json": {"schema": ref_json(ref)}}
def params_json(ps):
    out = []
    for p in sorted(ps, key=lambda p: p["name"].encode()):
        d = dict(name=p["name"], **some(description=p["description"]))
        d["in"] = p["in"]
        d.update(some(required=p["required"], deprecated=p["deprecated"]))
        if p["schema"] is not None: d["schema"] = ref_json(p["schema"])
        out.append(d)
    return out
def op_json(o):
    d = {}
    listed(d, "tags", o["tags"])
    d.update(some(summary=o["summary"], operationId=o["operation_id"], description=o["description"], deprecated=o["deprecated"]))
    listed(d, "security", [{k: v for k, v in a} for a in o["security"]])
    if o.get("body"):
        b = o["body"]
        d["requestBody"] = dict(some(required=b["required"], description=b["description"]), content=content(b["schema"]))
    d["responses"] = {str(c): dict({"description": t}, **({"content": content(s)} if s is not None else {})) for c, t, s in sorted(o["responses"], key=lambda x: x[0])}
    listed(d, "parameters", params_json(o["parameters"]))
    listed(d, "callbacks", {n: paths_json(p) for n, p in o["callbacks"]})
    return d
def paths_json(ps):
    out = {}
    for p in ps:
        d = some(summary=p["summary"], description=p["description"])
        for m in S.METHODS:
            for k, o in p["operations"]:
                if k == m: d[m] = op_json(o)
        listed(d, "parameters", params_json(p["parameters"]))
        out[path_text(p["segments"])] = d
    return out
def scheme_json(s):
    if s["t"] == "apiKey": return dict({"type": "apiKey", "in": s["in"], "name": s["name"]}, **some(description=s["description"]))
    return dict({"type": "http", "scheme": s["t"]}, **(some(bearerFormat=s["format"]) if s["t"] == "bearer" else {}), **some(description=s["description"]))
def doc_json(d):
    out = {"openapi": "3.0.3", "info": dict({"title": d["info"]["title"], "version": d["info"]["version"]}, **some(description=d["info"]["description"]))}
    listed(out, "tags", [dict(name=n, **some(description=t)) for n, t in sorted(d["tags"], key=lambda x: x[0].encode())])
    listed(out, "servers", [dict(url=u, **some(description=t)) for u, t in d["servers"]])
    out["paths"] = paths_json(d["paths"])
    c = {}
    listed(c, "schemas", {n: model_json(m) for n, m in d["schemas"]})
    listed(c, "securitySchemes", {n: scheme_json(s) for n, s in d["schemes"]})
    out["components"] = c
    return out

def main(ctx):
    r = ctx.rng
    progs, want = [], {}
    for i in range(ctx.n(7200, 60000)):
        if i % 3 == 0:
            m = Models(r, ["A", "x/y", "é", "", "a b"], r.choice([1, 2, 3, 4])).model()
            progs.append([{"op": "model_doc", "id": "m%d" % i, "model": m}]); want["m%d" % i] = (model_json(m), m)
        else:
            d = Docs(r, r.choice([0, 1, 2])).doc()
            progs.append([{"op": "doc", "id": "d%d" % i, "doc": d}]); want["d%d" % i] = (doc_json(d), d)
    # one attribute at a time, with every hostile string
    for k, t in enumerate(HOSTILE):
        d = {"info": {"title": t, "description": t, "version": t}, "tags": [[t, t]], "servers": [[t, t]], "schemas": [[t, {"t": "string", "description": t, "format": t, "example": t, "variants": [t, t]}], [t + "2", {"t": "object", "props": [[t, {"link": t}]], "required": [t]}]],
             "schemes": [[t, {"t": "bearer", "description": t, "format": t}], [t + "2", {"t": "apiKey", "in": "cookie", "name": t, "description": t, "format": None}]],
             "paths": [{"segments": [["s", t], ["p", t]], "summary": t, "description": t, "parameters": [{"name": t, "description": t, "in": "query", "required": True, "deprecated": True, "schema": {"link": t}}],
                        "operations": [["get", {"setters": k % 2 == 0, "tags": [t], "summary": t, "operation_id": t, "description": t, "deprecated": True, "security": [[[t, [t]]]], "body": {"description": t, "required": False, "schema": {"any": 1}},
                                                "responses": [[200, t, None]], "parameters": [{"name": t, "description": t, "in": "cookie", "required": False, "deprecated": False, "schema": None}], "callbacks": [[t, [{"segments": [["s", t]], "summary": None, "description": None, "parameters": [], "operations": []}]]]}]]}]}
        progs.append([{"op": "doc", "id": "h%d" % k, "doc": d}]); want["h%d" % k] = (doc_json(d), d)
    start(ctx)
    out, docs = interpret(ctx, progs)
    for prog, ev in zip(progs, out):
        if not ev or "panic" in ev[0]: ctx.violation("serializing a document crashed", program=prog, events=ev)
    for e in docs:
        w, src = want[e["id"]]
        j = e["json"]
        bad = list(find_dups(j)) + diff(w, j) + yaml_diff(ctx, w, e["yaml"])
        bad += S.schema_wf(j) if e["id"][0] == "m" else S.doc_wf(j)
        ctx.saw(json.dumps(w, sort_keys=True), trivial=len(json.dumps(w)) < 60)
        ctx.count("document_nodes", size(j))
        if bad: ctx.violation("a document is serialized wrongly", id=e["id"], problems=bad[:6], value=src)
        else: ctx.sample(dict(id=e["id"], keys=sorted(j), bytes=len(json.dumps(j))), 4)
    if len(docs) != len(progs) and not ctx.violations: raise Inconclusive("%d of %d documents were observed" % (len(docs), len(progs)))
    ctx.coverage["rule"] = "random documents built from the public types (all attributes, callbacks, hostile text in every position, setters and plain fields) and every hostile string in every position; JSON and re-read YAML are compared with a reference serialization, and the JSON with the structure of OpenAPI 3.0.3; distinct by document"

def size(x):
    if isinstance(x, dict): return 1 + sum(size(v) for v in x.values())
    if isinstance(x, list): return 1 + sum(size(v) for v in x)
    return 1
