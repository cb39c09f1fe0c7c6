#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REC = "gearley-recognizer/src/recognizer.rs"
HEAP = "gearley-recognizer/src/binary_heap.rs"
EV = "gearley-recognizer/src/event.rs"
LA = "gearley-recognizer/src/lookahead.rs"
PRED = "gearley-recognizer/src/predict.rs"
HINT = "gearley-recognizer/src/perf_hint.rs"
DG = "gearley-default-grammar/src/lib.rs"
GR = "gearley-grammar/src/lib.rs"
V2 = "gearley-vec2d/src/lib.rs"
CP = "gearley-utils/src/cartesian_product.rs"
PA = "gearley-utils/src/parse.rs"
SB, ST = "simple-bocage/src/bocage.rs", "simple-bocage/src/traverse.rs"
CB, CT, CG = "compact-bocage/src/bocage.rs", "compact-bocage/src/traverse.rs", "compact-bocage/src/graph.rs"
IT = "gearley-forest/src/item.rs"
EX1, EX2 = "gearley-example-grammars/src/precedenced_math/mod.rs", "gearley-example-grammars/src/ambiguous_math/mod.rs"
P = []
# Properties whose check is built.
BUILT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33".split()

def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier={"over": over, "text": text}, why_tests_cant=tests, anchors=a),
              technique, note, na))

exec(open(os.path.join(HOME, "tools", "property_list.py")).read())

with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, technique, note, reason in P:
    if technique and p["id"] in BUILT:
        checks.append(dict(property=p["id"],
                           quick_cmd="./run.sh check %s quick" % p["id"],
                           thorough_cmd="./run.sh check %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=technique, level="exploration", level_note=note))
    else:
        na.append(dict(property=p["id"], reason=reason or "the check is not built yet"))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: every check drives public interfaces. Crates that are "
               "missing offline are replaced by stand-ins under rust/stubs (see DESIGN.md).")
json.dump(m, open(os.path.join(HOME, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
