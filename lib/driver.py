"""Operation streams for lib/driver.rs, random model values and their reference serialization."""
from common import *

def start(ctx):
    text = open(os.path.join(VERIF, "lib", "driver.rs")).read()
    bad = ctx.build({"driver": [Unit("d", text)]})
    if bad: raise Inconclusive("the driver does not compile:\n" + "\n".join(x for b, n, ds in bad for x in ds)[:4000])

def interpret(ctx, programs, timeout=None, jobs=8):
    """programs: [[op]] -> events grouped per program: [[event]], other events in order."""
    import concurrent.futures
    timeout = timeout or (240 if ctx.tier == "quick" else 1500)
    chunks = [list(range(i, len(programs), jobs)) for i in range(jobs)]
    chunks = [c for c in chunks if c]
    def go(idx):
        text = "\n".join(json.dumps(programs[i]) for i in idx) + "\n"
        return idx, ctx.run_bin("driver", stdin=text.encode(), timeout=timeout)
    out, other = [[] for _ in programs], []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for idx, (ev, rc, err) in ex.map(go, chunks):
            last = -1
            for e in ev:
                if e["ev"] == "step":
                    last = e["program"]
                    out[idx[last]].append(e)
                elif e["ev"] == "doc": other.append(e)
            if rc != 0:
                k = min(last + 1, len(idx) - 1) if last < 0 or len(out[idx[last]]) == len(programs[idx[last]]) else last
                if rc == HANG and ctx.run_bin("driver", stdin=(json.dumps(programs[idx[k]]) + "\n").encode(), timeout=120)[1] != HANG:
                    raise Inconclusive("an operation stream ran into its watchdog")
                ctx.violation("the process died while executing an operation stream", rc=rc, stderr=err[-600:], program=programs[idx[k]])
    return out, other

HOSTILE = ["", " ", "a", "null", "true", "1", "1e3", "0x10", "~", "a: b", "- x", "#c", "%s", "{brace}", "\"q\"", "'", "back\\slash", "line\nbreak", "tab\t", "cr\r\n", "é漢字🦀", "\u2028", "\x00\x01", "\ufeff", "\x7f\x85",
           "$ref", "#/components/schemas/X", "!tag", "&a", "*", "|", "> x", "[", "{", "2020-01-01", "12:30", " lead", "trail ", "---", "...", "=", "<<", "y", "No", ".inf", "x" * 300, "/", "/a", "a/", "\r", "\x00", "\x00x", "x\x00", "\u202e", "e\u0301", "}", "&amp;", "<b>"]

class Models:
    """Random models in the driver's encoding."""
    def __init__(self, rng, links=("A", "B", "C"), depth=3):
        self.r, self.links, self.maxd = rng, list(links), depth
    def text(self):
        t = self.r.choice(HOSTILE)
        if self.r.random() < .06: return wild(self.r)
        return t if self.r.random() < .6 else "t%d %s" % (self.r.randrange(10 ** 5), t)
    def opt(self, p=.4): return self.text() if self.r.random() < p else None
    def ref(self, d=0):
        x = self.r.random()
        if x < (.45 if d < self.maxd else .75): return {"link": self.r.choice(self.links)}
        if x < .92 or d < self.maxd and x < .95: return {"inline": self.model(d + 1)}
        return {"any": True}
    def names(self, n):
        pool = HOSTILE[2:] + ["p%d" % i for i in range(20)]
        return self.r.sample(pool, min(n, len(pool)))
    def model(self, d=0, kind=None):
        r = self.r
        leaf = ["string", "number", "integer", "boolean"]
        t = kind or (r.choice(leaf) if d >= self.maxd else r.choice(leaf + ["array", "array", "object", "object", "object", "oneOf", "allOf", "anyOf"]))
        m = {"t": t, "description": self.opt()}
        if t in ("oneOf", "allOf", "anyOf"):
            m["list"] = [self.ref(d + 1) for _ in range(sized(r, [0, 1, 2, 3, 5], (9, 40), .02 if d < 2 else 0))]
            return m
        m["nullable"] = r.random() < .3
        if t in ("string", "number", "integer"): m["format"], m["example"] = self.opt(), self.opt()
        if t == "string" and r.random() < .4: m["variants"] = [self.text() for _ in range(sized(r, [1, 2, 4], (9, 70), .03))]
        if t == "array": m["items"] = self.ref(d + 1)
        if t == "object":
            ns = self.names(sized(r, [0, 1, 2, 3, 6], (9, 45), .02 if d < 2 else 0))
            m["props"] = [[n, self.ref(d + 1)] for n in ns]
            m["required"] = r.sample(ns, r.randrange(len(ns) + 1)) if ns else []
            if r.random() < .3: m["add"] = self.ref(d + 1)
        return m
    def params(self):
        r = self.r
        p = {}
        for k in ("description", "format", "example"):
            if r.random() < .45: p[k] = self.text()
        if r.random() < .45: p["nullable"] = r.random() < .6
        if r.random() < .35: p["variants"] = [self.text() for _ in range(r.choice([0, 1, 3]))]
        return p

def ref_json(v):
    if "link" in v: return {"$ref": "#/components/schemas/" + v["link"]}
    if "inline" in v: return model_json(v["inline"])
    return {}

def model_json(m):
    """What the model has to look like in the document."""
    out = {}
    if m.get("description") is not None: out["description"] = m["description"]
    t = m["t"]
    if t in ("oneOf", "allOf", "anyOf"):
        out[t] = [ref_json(x) for x in m["list"]]
        return out
    if m.get("nullable"): out["nullable"] = True
    out["type"] = t
    if m.get("variants") is not None and t == "string": out["enum"] = list(m["variants"])
    for k in ("format", "example"):
        if m.get(k) is not None and t in ("string", "number", "integer"): out[k] = m[k]
    if t == "array": out["items"] = ref_json(m["items"])
    if t == "object":
        if m.get("props"): out["properties"] = {k: ref_json(v) for k, v in m["props"]}
        if m.get("add") is not None: out["additionalProperties"] = ref_json(m["add"])
        if m.get("required"): out["required"] = list(m["required"])
    return out

def links_of(m):
    """Names linked anywhere in a model."""
    out = []
    def ref(v):
        if "link" in v: out.append(v["link"])
        elif "inline" in v: go(v["inline"])
    def go(m):
        for x in m.get("list", []): ref(x)
        if "items" in m: ref(m["items"])
        for k, v in m.get("props", []): ref(v)
        if m.get("add") is not None: ref(m["add"])
    go(m)
    return out

def run_steps(ctx, programs, **k):
    """Executes and yields (program index, step index, op, event); a missing or panicked step is reported by the caller."""
    out, other = interpret(ctx, programs, **k)
    return out, other
