#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, properties.jsonl, the checks, known_findings.json and seeded/ (run by hand)."""
import importlib.util
import json
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
sys.path[:0] = [str(ROOT / "checks"), str(ROOT / "lib"), str(ROOT / "lib/fakespark")]
sys.path.insert(0, os.environ["VF_PKG"])
T = ROOT / "tools"
props = [json.loads(x) for x in open(ROOT / "properties.jsonl")]
man = {c["property"]: c for c in json.load(open(ROOT / "MANIFEST.json"))["checks"]}
out = [(T / "design_head.md").read_text()]
for p in sorted(props, key=lambda p: p["id"]):
    i = p["id"]
    spec = importlib.util.spec_from_file_location(i, ROOT / f"checks/{i.lower()}.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    c = man[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"{p['statement']}\n")
    out.append(f"* **Decided by**: {c['technique']}.")
    out.append(f"* **Explored (quick)**: {m.bounds('quick')}.")
    if m.bounds("thorough") != m.bounds("quick"):
        out.append(f"* **Explored (thorough)**: {m.bounds('thorough')}.")
    for k in ("why_tests_cant",):
        if k in p:
            out.append(f"* **Beyond the tests**: {p[k]}.")
    for a in m.ASSUMPTIONS:
        out.append(f"* Assumes: {a}.")
    out.append(f"* {c['level_note']}")
    f = ROOT / f"evidence/{i}.json"
    out.append("")
tail = (T / "design_tail.md").read_text()
kf = json.load(open(ROOT / "known_findings.json"))
tail = tail.replace("FINDINGS", "\n".join(f"* **{f['property']}** `{f['key']}`: {f['what']}." for f in kf["findings"]))
rows = ["| planted bug | property | what it needs | what it breaks | result |", "|---|---|---|---|---|"]
res = json.load(open(T / "seed_results.json")) if (T / "seed_results.json").exists() else {}
for d in sorted((ROOT / "seeded").iterdir()):
    me = json.load(open(d / "meta.json"))
    clean = lambda s: str(s).replace("|", "\\|").replace("\n", " ")  # noqa: E731
    rows.append(f"| {d.name} | {me['property']} | {clean(me['needs'])} | {clean(me['what_it_breaks'])} | {clean(res.get(d.name, 'caught by ' + me['property']))} |")
out.append(tail.replace("SEEDS", "\n".join(rows)))
g = ROOT / "corpus/golden.jsonl"
n = sum('"code"' in x for x in open(g)) if g.exists() else 0
text = "\n".join(out).replace("GOLDEN_NUMBERS", f"{n:,} answers of real Spark are recorded." if n else "")
(ROOT / "DESIGN.md").write_text(text)
print(len(text), "characters")
