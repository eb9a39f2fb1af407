#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one table below"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
H = "src/jstd/hashmap/"
G15, G16, T15, T16, RB = H + "group15_flat_map.hpp", H + "group16_flat_map.hpp", H + "group15_flat_table.hpp", H + "group16_flat_table.hpp", H + "robin_hash_map.h"
TBL = [T15, T16]
def mech(*a): return [dict(name=n, where=w) for n, w in a]
P = []
def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mechanism)), **kw))
HOW = "symbolic execution of the compiled code (LLVM bitcode) with z3; counterexamples replayed natively"
NOTE = "Every path within the listed bounds is decided by the solver; nothing is claimed beyond the bounds (history lengths, number of keys with free hashes, table sizes, element types). Trusts clang's IR, the symx executor, z3; sampled paths are re-run natively under AddressSanitizer as a cross-check."
exec(open(os.path.join(V, "proptable.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["d"]["id"]
        if p.get("na"): na.append(dict(property=i, reason=p["na"])); continue
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=p.get("how", HOW), level="model_checking", level_note=p.get("note", NOTE)))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
                   notes="One engine (symx/), harnesses (harness/), job tables (jobs.py), one driver (check.py). See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
