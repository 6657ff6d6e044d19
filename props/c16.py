"""C16: merging object schemas is a checked union that never overwrites."""
import itertools
from driver import *

def is_obj(m): return m["t"] == "object"

def props(j): return j.get("properties", {})

def judge_prop(before, op, e):
    after, name, bad = e["object"], op["name"], []
    want = json.loads(json.dumps(before))
    ok = name not in props(before)
    if ok:
        want.setdefault("properties", {})[name] = ref_json(op["ref"])
        if op["required"]: want.setdefault("required", []).append(name)
    if e.get("ok") != ok: bad.append("add_property(%r) %s, the name is %s" % (name, "succeeds" if e.get("ok") else "fails", "free" if ok else "taken"))
    return bad + diff(want, after)

def judge_merge(before, op, e):
    after, other, bad = e["object"], op["model"], []
    oj = model_json(other)
    plain = before.get("type") == "object" and is_obj(other)
    ok = plain and not (set(props(before)) & set(props(oj)))
    if e["ok"] != ok: bad.append("merge %s; plain objects: %s, common names: %r" % ("succeeds" if e["ok"] else "fails", plain, sorted(set(props(before)) & set(props(oj)))))
    if ok:
        want = json.loads(json.dumps(before))
        p = dict(props(before)); p.update(props(oj))
        if p: want["properties"] = p
        rq = before.get("required", []) + oj.get("required", [])
        if rq: want["required"] = rq
        return bad + diff(want, after, "merged")
    # a failure may leave some of the new properties behind, and nothing else
    rest = lambda j: {k: v for k, v in j.items() if k != "properties"}
    bad += diff(rest(before), rest(after), "after failure")
    for k, v in props(before).items():
        if k not in props(after): bad.append("a failed merge removed %r" % k)
        else: bad += diff(v, props(after)[k], "property %r after a failed merge" % k)
    for k, v in props(after).items():
        if k in props(before): continue
        if not plain or k not in props(oj): bad.append("a failed merge invented %r" % k)
        else: bad += diff(props(oj)[k], v, "property %r" % k)
    return bad

def main(ctx):
    r = ctx.rng
    g = Models(r, depth=2)
    NAMES = ["a", "b", "c", "d", "e", "f", "", "é", "a b", "type", "$ref", "A", "properties", "required", "a.b", "a/b", "0", "10", "2", " ", "B", "AA", "aa", "z"]
    def obj(names, g=g):
        ns = list(names)
        m = {"t": "object", "description": g.opt(), "nullable": r.random() < .3, "props": [[n, g.ref(1)] for n in ns], "required": r.sample(ns, r.randrange(len(ns) + 1)) if ns else []}
        if r.random() < .25: m["add"] = g.ref(1)
        if r.random() < .1: m["required"] = m["required"] + [r.choice(NAMES)]   # required names need not be properties
        return m
    progs = []
    # all pairs of kinds, for both entry points that take any model
    for a, b in itertools.product(["string", "number", "integer", "boolean", "array", "object", "oneOf", "allOf", "anyOf"], repeat=2):
        for _ in range(2):
            ma, mb = (obj(r.sample(NAMES[:6], 2)) if t == "object" else g.model(1, t) for t in (a, b))
            progs.append([{"op": "object", "model": ma}, {"op": "merge", "model": mb}])
    # every overlap pattern of small property sets
    S = ["a", "b", "c"]
    subs = [list(c) for n in range(4) for c in itertools.combinations(S, n)]
    for x, y in itertools.product(subs, subs):
        for v in ("model", "object"): progs.append([{"op": "object", "model": obj(x)}, {"op": "merge", "via": v, "model": obj(y)}, {"op": "merge", "via": v, "model": obj(["z"])}])
    # histories
    for _ in range(ctx.n(9000, 80000)):
        ops = [{"op": "object", "model": obj(r.sample(NAMES, sized(r, [0, 0, 1, 2, 4], (8, min(20, len(NAMES))), .04)))}]
        for _ in range(r.choice([2, 4, 8, 16])):
            if r.random() < .55: ops.append({"op": "prop", "name": r.choice(NAMES), "ref": g.ref(1), "required": r.random() < .5})
            else:
                o = obj(r.sample(NAMES, sized(r, [0, 1, 2, 3], (8, min(20, len(NAMES))), .04))) if r.random() < .85 else g.model(1)
                ops.append({"op": "merge", "via": r.choice(["model", "object"]) if is_obj(o) else "model", "model": o})
        progs.append(ops)
    # wide objects
    for n in (50, 400):
        for clash in (None, 0, n - 1):
            a = {"t": "object", "props": [["k%04d" % i, {"inline": {"t": "integer", "format": str(i)}}] for i in range(n)], "required": ["k%04d" % i for i in range(0, n, 3)]}
            b = {"t": "object", "props": [["m%04d" % i, {"link": "L%d" % i}] for i in range(n)], "required": ["m%04d" % i for i in range(n - 1, 0, -2)]}
            if clash is not None: b["props"][clash][0] = a["props"][clash][0]; b["required"] = []
            progs.append([{"op": "object", "model": a}, {"op": "merge", "model": b}])
    start(ctx)
    out, _ = interpret(ctx, progs)
    for prog, ev in zip(progs, out):
        if len(ev) < len(prog) or "panic" in ev[-1]: ctx.violation("a merge crashed", program=prog, events=ev[-1:]); continue
        bad = diff(model_json(prog[0]["model"]), ev[0]["object"])
        state = ev[0]["object"]
        for op, e in zip(prog[1:], ev[1:]):
            bad += judge_prop(state, op, e) if op["op"] == "prop" else judge_merge(state, op, e)
            ctx.count("%s_%s" % (op["op"], "ok" if e.get("ok") else "refused"))
            ctx.saw(json.dumps([state, op], sort_keys=True))
            state = e["object"]
            if bad: ctx.violation("an object was merged wrongly", problems=bad[:5], op=op, program=prog); break
        else: ctx.sample(dict(history=[o["op"] for o in prog], verdicts=[e.get("ok") for e in ev[1:]]), 4)
    ctx.coverage["rule"] = "merges of every pair of schema kinds, every overlap pattern of three names, histories of add_property and merge (both entry points) over hostile names, and wide objects; every verdict and the object after every step are compared with the reference union; distinct by state and operation"
