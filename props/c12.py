"""C12: path templates and path parameters agree."""
import c11
from c11 import *

LONG = ["a%d" % i for i in range(30)]

def opts(r):
    return O(npaths=(2, 4, 6), nops=(0, 1, 2), segs=r.choice([(1, 2, 3), (4, 6, 8), (10, 14)]), params=.8, callbacks=.5, security=0, schemes=0, body=.1, sections=.3 if r.random() < .1 else 1,
             depth=r.choice([0, 1, 2]), unnamed=r.choice([.1, .3, .5]), pnames=LONG if r.random() < .5 else None)

def agree(doc, src):
    """Placeholders and path parameters of every path item, including callbacks."""
    out = []
    def item(url, it):
        names = [p["name"] for p in it.get("parameters", [])]
        inpath = [p for p in it.get("parameters", []) if p["in"] == "path"]
        for p in inpath:
            if p.get("required") is not True: out.append("%s: path parameter %r is not required" % (url, p["name"]))
            if "/{%s}" % p["name"] not in url: out.append("%s: path parameter %r is not in the template" % (url, p["name"]))
        if len(set(names)) != len(names): out.append("%s: repeated parameter %r" % (url, names))
        for m, op in it.items():
            if not isinstance(op, dict): continue
            for p in op.get("parameters", []):
                if p["in"] == "path": out.append("%s %s: operation-level path parameter %r" % (url, m, p["name"]))
            for cb in op.get("callbacks", {}).values():
                for u, i in cb.items(): item(u, i)
    for u, i in doc.get("paths", {}).items(): item(u, i)
    return out

def extra(ctx):
    out = {}
    base = lambda paths, **k: dict({"openapi": "3.0.3", "info": {"title": "", "version": ""}}, paths=paths, **dict({"components": {}}, **k))
    pp = lambda n, s: {"name": n, "in": "path", "required": True, "schema": s}
    st = STRING.ref([]); u64 = BYNAME["u64"].ref([])
    # placeholders only, literals only, placeholder between literals, the same type twice under two names
    out["only"] = ("", "opg::describe_api! { paths: { (String): {}, ({x: u64} / {y: u64}): {}, (\"a\" / {x: u64} / \"b\"): {}, (\"a\" / \"b\" / \"c\"): {} } }",
                   base({"/{string}": {"parameters": [pp("string", st)]}, "/{x}/{y}": {"parameters": [pp("x", u64), pp("y", u64)]}, "/a/{x}/b": {"parameters": [pp("x", u64)]}, "/a/b/c": {}}))
    # the same placeholder name on two paths with different types, and on a callback
    out["isolated"] = ("", "opg::describe_api! { paths: { (\"a\" / {x: u64}): { GET: { callbacks: { cb: { (\"b\" / {x: String}): {} } } } }, (\"c\" / {x: bool}): {} } }",
                       base({"/a/{x}": {"get": {"responses": {}, "callbacks": {"cb": {"/b/{x}": {"parameters": [pp("x", st)]}}}}, "parameters": [pp("x", u64)]}, "/c/{x}": {"parameters": [pp("x", BOOL.ref([]))]}}))
    n = 40
    segs = " / ".join("{p%02d: u64}" % i for i in range(n))
    out["many"] = ("", "opg::describe_api! { paths: { (%s): {} } }" % segs, base({"".join("/{p%02d}" % i for i in range(n)): {"parameters": [pp("p%02d" % i, u64) for i in range(n)]}}))
    out["modules"] = ("pub mod deep { pub mod er { #[derive(serde::Serialize, opg::OpgModel)] pub struct MyKey(pub u64); } }\n",
                      "opg::describe_api! { paths: { (\"k\" / deep::er::MyKey): {}, (\"l\" / self::deep::er::MyKey / std::string::String): {} } }",
                      base({"/k/{myKey}": {"parameters": [pp("myKey", {"$ref": "#/components/schemas/MyKey"})]}, "/l/{myKey}/{string}": {"parameters": [pp("myKey", {"$ref": "#/components/schemas/MyKey"}), pp("string", st)]}},
                           components={"schemas": {"MyKey": BYNAME["u64"].ref([])}}))
    return out

def main(ctx):
    run(ctx, opts, napis=(270, 1400), extra=extra, also=agree,
        rule="random describe_api! programs dominated by paths (up to 14 segments, literal, named and unnamed placeholders of random types, path- and operation-level header and query parameters, callbacks); the whole document is compared with the reference, and template/parameter agreement is checked on every path item; distinct by document")
