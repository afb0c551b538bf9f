#!/usr/bin/python3
"""Write MANIFEST.json from harness/spec.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V + "/harness")
sys.dont_write_bytecode = True
import spec  # noqa: E402

props = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/check setup", "checks": [], "not_applicable": [],
     "notes": "Symbolic execution of the LLVM IR of /repo's sources with Z3; see DESIGN.md. No hooks are needed in /repo."}
for p in props:
    if p in spec.CHECKS:
        c = spec.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": spec.TECHNIQUE, "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": spec.NOT_APPLICABLE.get(p, "no check has been built for this property yet")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
