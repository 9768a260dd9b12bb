"""Rewrite the list "fixed" of known_findings.json from the fix commits of /repo (run by hand; no check runs it)."""
import json
import subprocess

P = """5034b65 P03|1948b3a P03|0e7530d P06|2dd3966 P05|5f3a583 P05|166999f P04|5730016 P05|f3ab35e P01|ff1358d P08|8e22bcf P07|8bd57be P06|05a2c7a P14|863842f P10|adb2cd2 P14|8767085 P14|c8e1d89 P07|5a7d279 P07|b299b75 P14|3adb0c5 P07|701de3e P06
3cd6595 P14|830f93a P14|21e5c7e P14|f17faf5 P10|a6d87bc P10|8fb070e P10|0003374 P10|e338b8d P10|a1e35da P12|801ac6f P12|e216907 P11|639d2c1 P11|021abaf P11|36efbca P09|692d9df P12|0a1c6a3 P12|e022424 P12|3550889 P12|2f71dca P12|685a02a P11
61c2bfd P13|91f000e P13|d430960 P13|74d5a5a P13|2f262b0 P10|5021d5b P20|58b71da P16|46a2121 P16|196cef2 P16|e51d1b7 P17|fa359ae P17|80cad35 P17|45518d9 P24|7b3ab06 P24|206c0c1 P04|404cdda P04|828dde1 P22|8ce41b1 P22|6bd5264 P22|bce5028 P22|dcd8b21 P19|1afcb33 P02|c969b3e P01|9198c04 P14|f051f56 P04|b384c7b P26|e5d873d P27|d9e09c6 P28|75d70e9 P28|59df9ad P29|37fb049 P21"""
P = dict(x.split() for line in P.splitlines() for x in line.split("|"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "98a621c..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        if h not in P:
            print("no property for", line)
        out.append(f"fixed: property={P.get(h, 'P05')} {h} {s[5:]}")
f = "/verif/known_findings.json"
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
