"""Random type graphs for the instrumented types of lib/driver.rs, and the reference of what mentioning them does."""
from typegen import *

VIAS = ["", "Option", "Box", "Vec", "Map", "Tup", "One", "Arr", "OptVec", "VecOpt", "MapOptBox", "OptOpt", "Rc", "Ref"]

def via(w, t):
    B = lambda k, x: Wrap(k, x)
    return {"": lambda: t, "Option": lambda: Opt(t), "Box": lambda: B("Box", t), "Vec": lambda: Seq("Vec", t), "Map": lambda: Map("BTreeMap", STRING, t), "Tup": lambda: Tup([t, STRING]),
            "One": lambda: Tup([t]), "Arr": lambda: Seq("array", t, 3), "OptVec": lambda: Opt(Seq("Vec", t)), "VecOpt": lambda: Seq("Vec", Opt(t)), "MapOptBox": lambda: Map("HashMap", STRING, Opt(B("Box", t))),
            "OptOpt": lambda: Opt(Opt(t)), "Rc": lambda: B("Rc", B("RefCell", t)), "Ref": lambda: B("&", t)}[w]()

class Node:
    """Same interface as a definition of typegen."""
    def __init__(self, k, name):
        self.k, self.name, self.ident = k, name, "P<%d>" % k
        self.edges, self.shape, self.desc, self.nullable, self.inplace = [], "object", None, False, False
    @property
    def inline(self): return self.name is None
    def schema(self, m):
        if self.inplace:
            e = self.edges[0]
            return apply(e.ty().schema(m), e.p)
        refs = [(e.field, e.ref(m)) for e in self.edges]
        out = {}
        if self.desc is not None: out["description"] = self.desc
        if self.shape in ("oneOf", "allOf", "anyOf"): out[self.shape] = [r for _, r in refs]; return out
        if self.nullable: out["nullable"] = True
        if self.shape != "object":
            out["type"] = self.shape
            if self.shape != "boolean": out["format"], out["example"] = "own format", "own example"
            if self.shape == "string": out["enum"] = ["own"]
            return out
        out["type"] = "object"
        if refs: out["properties"] = dict(refs); out["required"] = [f for f, _ in refs]
        return out
    def json(self):
        return {"name": self.name, "edges": [e.json() for e in self.edges], "shape": self.shape, "description": self.desc, "nullable": self.nullable, "inplace": self.inplace}

def params_json(p):
    return {k: v for k, v in (("description", p.description), ("nullable", p.nullable), ("format", p.format), ("example", p.example), ("variants", p.variants)) if v is not None}

class Edge:
    def __init__(self, to, w="", inline=False, p=NOP, field=None): self.to, self.w, self.inline, self.p, self.field = to, w, inline, p, field
    def ty(self): return via(self.w, DefT(self.to))
    def ref(self, m): return self.ty().ref(m, self.inline, self.p)
    def json(self): return {"to": self.to.k, "via": self.w, "inline": self.inline, "params": params_json(self.p), "field": self.field}
    def embeds(self):
        """Does this use build the target in place (directly or through transparent wrappers)?"""
        return self.to.inline or self.inline and self.w in ("", "Option", "Box", "OptOpt", "Rc", "Ref")

def rand_params(r, p=.3):
    if r.random() > p: return NOP
    pick = lambda v: v if r.random() < .5 else None
    return Params(pick("d%d" % r.randrange(99)), pick(r.random() < .5), pick("f"), pick("e"), pick(["v", "w"]))

def rand_graph(r, n, density=2.0, unnamed=.15, inline=.1, params=.2, oneof=.2, inplace=.1, hostile=True):
    names = ["N%d" % i for i in range(n)]
    if hostile and r.random() < .3: names = [x + r.choice(["", " x", "é", "/y", "$", ".z"]) for x in names]
    r.shuffle(names)
    nodes = [Node(k, names[k] if r.random() > unnamed else None) for k in range(n)]
    order = {nd: i for i, nd in enumerate(nodes)}
    for nd in nodes:
        if r.random() < .4: nd.desc = "about %d" % nd.k
        nd.nullable = r.random() < .2
        if r.random() < oneof: nd.shape = r.choice(["oneOf", "oneOf", "allOf", "anyOf"])
        elif r.random() < .15:
            nd.shape = r.choice(["string", "string", "integer", "number", "boolean"])
            continue
        later = nodes[nd.k + 1:]
        if later and r.random() < inplace:
            nd.inplace = True
            # what is built in place has to come later, so that the schema stays finite
            nd.edges = [Edge(r.choice(later), r.choice(VIAS), False, rand_params(r, params), "f0")]
            continue
        m = min(8, int(r.expovariate(1 / density)) if density else 0)
        for i in range(m):
            e = Edge(r.choice(nodes), r.choice(VIAS), r.random() < inline, rand_params(r, params), "f%d" % i)
            # building in place always moves forward: no infinite schema
            if e.embeds() or nd.inline:
                if nd.inline and not e.embeds():
                    pass
                elif not later: continue
                else: e.to = r.choice(later)
                if e.embeds() and order[e.to] <= order[nd]: continue
            nd.edges.append(e)
    return nodes

def simulate(nodes, start, registered):
    """Upper bound of builds per node when the edge `start` is mentioned with `registered` names present: {k: count}."""
    builds, have = {}, set(registered)
    def build(nd):
        builds[nd.k] = builds.get(nd.k, 0) + 1
        if sum(builds.values()) > 200000: raise OverflowError
        for e in nd.edges:
            if nd.inplace: schema(e.ty())
            else: ref(e.ty(), e.inline)
    def schema(t):
        if isinstance(t, DefT): build(t.d)
        elif isinstance(t, (Opt, Wrap)): schema(t.t)
        elif isinstance(t, (Seq, Map)): ref(t.t, False)
        elif isinstance(t, Tup):
            for x in t.ts: ref(x, False)
    def ref(t, inline):
        if isinstance(t, DefT):
            if inline or t.d.inline: build(t.d)
            elif t.d.name not in have:
                have.add(t.d.name); build(t.d)
        elif isinstance(t, (Opt, Wrap)): ref(t.t, inline)
        elif isinstance(t, (Seq, Map, Tup)): schema(t)
    ref(start.ty(), start.inline)
    return builds
