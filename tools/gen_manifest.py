#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = "/verif"
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.NOT_APPLICABLE:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
        continue
    proof = bool(props.UNITS.get(i))
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": props.TECH.get(i) or ("contract-based deductive verification (Verus) of functions extracted from /repo on every run; concrete replay harness" if proof
                      else "bounded concrete-execution stand-in for the contracts (labelled bounded, not proved)"),
        "level": props.LEVEL.get(i, "proof" if proof else "exploration"),
        "level_note": props.NOTE.get(i, "see DESIGN.md"),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "--cfg zksql_verif", "enable": "RUSTFLAGS=--cfg zksql_verif (tools/hbuild.sh); the deductive part reads the source as built with the guard off",
               "source_commits": ["10320ca"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks", len(na), "not applicable")
