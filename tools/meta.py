#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing it)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
TECH = "bounded exhaustive enumeration against a reference model (explicit-state model checking on the real code)"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=TECH, note="", level="model_checking", claimed=True, reason="", **anchors):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **anchors},
        "_": (technique, note, level, claimed, reason),
    })


exec((ROOT / "tools" / "props.py").read_text())

P.sort(key=lambda p: p["id"])
with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_"}, ensure_ascii=False) + "\n")
checks = []
for p in P:
    technique, note, level, claimed, reason = p["_"]
    if not claimed:
        NA.append({"property": p["id"], "reason": reason})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 -B checks/run.py {p['id']} quick",
        "thorough_cmd": f"python3 -B checks/run.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": technique, "level": level, "level_note": note,
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/spl-venv/bin/python -B lib/vf/build.py",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo. Every check builds the extension module from /repo's working tree into /verif/.build. known_findings.json lists recorded genuine defects.",
}, open(ROOT / "MANIFEST.json", "w"), indent=1, ensure_ascii=False)
assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate({k: v for k, v in p.items() if k != "_"}, s)
    jsonschema.validate(json.load(open(ROOT / "MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    pass
print(len(P), "properties,", len(checks), "claimed")
