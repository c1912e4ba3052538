#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
from props import P
import props as S
have = {f.split("_")[0].upper() for f in os.listdir(V + "/harness/props") if f.endswith((".cc", ".py"))}
have.add("C44")  # runs the other harnesses with --leaks (tools/check.py)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        an = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            an["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": an}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in have and p["claimed"]:
        checks.append({"property": p["id"],
                       "quick_cmd": "python3 tools/check.py %s" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["tech"] or "property-based testing: generated cases against a reference model, ASan/UBSan build, shrinking",
                       "level": "exploration",
                       "level_note": p["note"] or "Holds on every generated case of this run (counts in the evidence file); not a proof. Trusts the reference model in harness/props and the compiler's sanitizers."})
    else:
        na.append({"property": p["id"], "reason": "not claimed yet: its check is not built"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py --all", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
