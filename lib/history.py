"""Histories of mentions in one set of components: derived types (generated programs) and the instrumented types of the driver."""
from conform import *
from defgen import *

def closure_in(start, have):
    """Components after mentioning the given definitions when `have` (name -> schema) is already registered."""
    out, todo = dict(have), list(start)
    while todo:
        d = todo.pop(0)
        if d.inline or d.name in out: continue
        m = []
        out[d.name] = d.schema(m)
        todo += m
    return out

class Hist:
    """One unit: a program of definitions and several histories over fresh components each."""
    def __init__(self, name, defs, runs, source, pre=""):
        self.name, self.defs, self.runs, self.source, self.pre = name, defs, runs, source, pre
    def unit(self):
        body = [self.source, self.pre, "\npub fn run() {\n"]
        for ri, run in enumerate(self.runs):
            body.append(" { let mut cx = opg::Components::new();\n")
            for k, op in enumerate(run):
                id = "%d.%d" % (ri, k)
                if op[0] == "mention": body.append("  rt::mention_in::<%s>(%s, %s, %s, %s, &mut cx);\n" % (op[1].rust, rs(self.name), rs(id), str(op[2]).lower(), params_rust(op[3])))
                elif op[0] == "schema": body.append("  rt::schema_in::<%s>(%s, %s, &mut cx);\n" % (op[1].rust, rs(self.name), rs(id)))
                elif op[0] == "add": body.append("  cx.add_model(%s, opg::describe_type!(string => { description: %s })); rt::dump(%s, %s, &cx);\n" % (rs(op[1]), rs(op[2]), rs(self.name), rs(id)))
            body.append(" }\n")
        return Unit(self.name, "".join(body) + "}\n")

def judge(ctx, hists, events, strict=True):
    """Online monitor: after every step the components are exactly the reference, and nothing seen before changed."""
    by = {}
    for e in events:
        if e["ev"] in ("mention", "schema", "dump") and "." in str(e.get("id")): by[e["case"], e["id"]] = e
    for h in hists:
        for ri, run in enumerate(h.runs):
            have, prev, seen_ref = {}, {}, {}
            for k, op in enumerate(run):
                e = by.get((h.name, "%d.%d" % (ri, k)))
                if e is None: break   # crashed or did not compile: reported elsewhere
                bad, m = [], []
                if op[0] == "add":
                    have.setdefault(op[1], {"type": "string", "description": op[2]})
                else:
                    want = op[1].ref(m, op[2], op[3]) if op[0] == "mention" else op[1].schema(m)
                    have = closure_in(m, have)
                    got = e["ref"] if op[0] == "mention" else e["schema"]
                    bad += diff(want, got, "result")
                    key = (op[0], op[1].rust, op[2] if op[0] == "mention" else None, repr(op[3].__dict__) if op[0] == "mention" else None)
                    if key in seen_ref and seen_ref[key] != got: bad.append("the same request gave two different results")
                    seen_ref[key] = got
                    if e["verify"] is not None: bad.append("verify_schemas: %r" % e["verify"])
                now = e["components"].get("schemas", {})
                for n, s in prev.items():
                    if n not in now: bad.append("component %r disappeared" % n)
                    elif now[n] != s: bad.append("component %r changed" % n)
                bad += diff(have, now, "components") + list(find_dups(e["components"]))
                prev = now
                ctx.saw((h.name, ri, k, json.dumps(now, sort_keys=True)), trivial=not now)
                ctx.count("history_steps"); ctx.count("components_checked", len(now))
                if bad:
                    ctx.violation("a history of mentions went wrong", case=h.name, step=(ri, k, op[0], getattr(op[1], "rust", op[1])), problems=bad[:5], source=h.source[:3000])
                    break
            else:
                ctx.sample(dict(history=[getattr(o[1], "rust", o[1]) for o in run][:8], components=sorted(prev)), 4)

def rand_use(g, d):
    """A use of the definition behind up to three layers."""
    r = g.rng
    t = DefT(d)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.choice(["Opt", "Box", "Vec", "Map", "Tup", "One", "Arr", "Rc", "&", "Deque"])
        t = {"Opt": lambda: Opt(t), "Box": lambda: Wrap("Box", t), "Vec": lambda: Seq("Vec", t), "Map": lambda: Map(r.choice(["BTreeMap", "HashMap"]), STRING, t), "Tup": lambda: Tup([t, g.ty(1)] if r.random() < .5 else [g.ty(1), t]),
             "One": lambda: Tup([t]), "Arr": lambda: Seq("array", t, 2), "Rc": lambda: Wrap("Rc", t), "&": lambda: Wrap("&", t), "Deque": lambda: Seq("LinkedList", t)}[k]()
    return t

def execute(ctx, hists, nbin=8, what="a program in the supported subset does not compile"):
    units = [h.unit() for h in hists]
    src = {u.name: u.body for u in units}
    bins = spread(units, nbin)
    for b, name, ds in ctx.build(bins):
        ctx.violation(what, unit=name, diagnostics=[x[:1500] for x in ds[:2]], source=src[name][:4000])
    events, crashes = ctx.run_all(list(bins))
    for b, name, rc, err in crashes: ctx.violation("mentioning a type crashed", unit=name, rc=rc, stderr=err[-800:], source=src[name][:4000])
    return events
