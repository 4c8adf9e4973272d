#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/spec.py and props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, "tools")]
import props, spec
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for k, p in spec.S.items():
        assert len(p["title"]) <= 80, k
        f.write(json.dumps({a: b for a, b in p.items() if not a.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="V_NATIVE", enable="no hooks in /repo: harnesses include /repo's sources unchanged; V_NATIVE only selects the native replay build of /verif/harness", source_commits=[]),
         checks=[], not_applicable=[],
         notes="check.py <ID> compiles the harness together with /repo's real sources to LLVM IR, generates verification conditions and discharges them with z3/cvc5 on every run; see DESIGN.md.")
for k, p in spec.S.items():
    if k in props.PROPS:
        q = props.PROPS[k]
        m["checks"].append(dict(property=k, quick_cmd="./check.py %s --tier quick" % k, thorough_cmd="./check.py %s --tier thorough" % k,
                                technique=q.technique, level=q.level, level_note=q.note or "Unbounded proof of the compiled real code against the stated contracts; trusts clang's front end and normalisation passes, llvc's IR semantics, and the solvers."))
    else:
        assert p["_na"], k
        m["not_applicable"].append(dict(property=k, reason=p["_na"]))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
