#!/usr/bin/env python3
# Writes DESIGN.md from design_head.md, harness/specs.json, design_tail.md, known_findings.json and seeded/.
import json, os
t = os.path.dirname(os.path.abspath(__file__)); d = os.path.dirname(t)
out = [open(t + "/design_head.md").read()]
def b(x):
    if not x: return "as quick"
    s = " ".join("%s=%s" % kv for kv in x.get("params", {}).items())
    if x.get("delay"): s += " delay=%d" % x["delay"]
    return s.strip() or "–"
out.append("| property | harness | what varies | quick bounds | thorough bounds |\n|---|---|---|---|---|\n")
for h in json.load(open(d + "/harness/specs.json")):
    if h["prop"] == "SELF": continue
    out.append("| %s | %s | %s%s | %s | %s |\n" % (h["prop"], h["fn"], h.get("what", ""), " (schedules)" if h["quick"].get("delay") else "", b(h["quick"]), b(h.get("thorough"))))
out.append(open(t + "/design_tail.md").read())
out.append("## 5. Defects found on the original tree (all repaired, see known_findings.json)\n\n")
for f in json.load(open(d + "/known_findings.json")):
    out.append("- %s\n" % f["text"])
res = {}
p = t + "/caught.json"
if os.path.exists(p): res = json.load(open(p))
out.append("\n## 6. Planted bugs and the checks that catch them (quick tier)\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
for i in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(d + "/seeded/" + i + "/meta.json"))
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "yes")))
open(d + "/DESIGN.md", "w").write("".join(out))
