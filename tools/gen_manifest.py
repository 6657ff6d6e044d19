#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property that has a check in props/, the others under not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitor: serde output of generated types validated online against the derived schema",
 "C02": "runtime differential monitor: schema names vs names serde emits, over generated types",
 "C03": "runtime monitor of generated types against a reference model and serde's emitted keys",
 "C04": "runtime monitor of generated annotated types against a reference model",
 "C05": "runtime monitor of generated enums against a reference model and serde's output",
 "C06": "runtime monitor of type compositions against a reference model, over cargo feature sets",
 "C07": "trace monitor over mention histories: reference resolution and component completeness",
 "C08": "trace monitor over permuted and repeated registration histories (order, idempotence, no overwrite)",
 "C09": "instrumented schema builders: online call-count and depth monitor over random type graphs",
 "C10": "runtime monitor of verify_schemas against a link-walking oracle on generated components",
 "C11": "runtime monitor of generated describe_api programs against the declared document",
 "C12": "runtime monitor of generated path declarations: template/parameter agreement",
 "C13": "runtime monitor of generated security declarations against the declared document",
 "C14": "runtime monitor of serialized documents: structure checker plus loss-free round trip",
 "C15": "runtime monitor of apply_params and mention histories against a reference model",
 "C16": "trace monitor of add_property/merge histories against a reference model",
 "C17": "runtime monitor of generated describe_type programs against the described model",
 "C18": "differential monitor of the derive's verdict on misuse programs and their valid twins",
 "C19": "runtime monitor of inlined and linked uses against a reference model",
 "C20": "byte-identity and order monitor over threads, processes and fresh compilations",
 "C21": "runtime monitor of generic types against their hand-written instantiations",
}
NOTE = ("Real code compiled from /repo's working tree and observed through its public API; silence means no violation in the executions "
        "described in the evidence file, not a proof. Trusts rustc, serde/serde_json/serde_yaml as the definition of the wire format, and the reference model in /verif/lib.")
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                               evidence_file="evidence/%s.json" % i, technique=TECH[i], level="exploration", level_note=NOTE))
        else: na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: everything observed is reachable through the public API and the derive macro. Commits in /repo are repairs (fix:) only; see known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
