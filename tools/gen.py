#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py. A property is claimed when checks/<id>.py or harness/<id>.cpp exists."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec
claimed, na = [], []
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in spec.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"] or ["public API results"], hook_needed=None))) + "\n")
        if os.path.exists(f"{ROOT}/harness/{p['id']}.cpp") or os.path.exists(f"{ROOT}/py/{p['id']}.py"):
            claimed.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} quick",
                                thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
                                technique=p["technique"], level="exploration",
                                level_note="Held on the executions explored (no proof). " + p["note"] + "."))
        else:
            na.append(dict(property=p["id"], reason=getattr(spec, "NA", {}).get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=claimed, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the public API. See DESIGN.md; known_findings.txt lists repaired and open findings.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1); open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(claimed), "claimed;", len(na), "not claimed")
