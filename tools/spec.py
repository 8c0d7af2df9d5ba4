#!/usr/bin/env python3
# Adds or replaces one harness entry: spec.py PROP FN files(comma) 'what' quick-json [thorough-json] [con-yields]
import json, sys
a = sys.argv[1:]
f = __file__.rsplit("/", 2)[0] + "/harness/specs.json"
s = json.load(open(f))
d = dict(prop=a[0], fn=a[1], files=a[2].split(","), what=a[3], quick=json.loads(a[4]))
if len(a) > 5 and a[5]: d["thorough"] = json.loads(a[5])
if len(a) > 6 and a[6] != "seq": d["con"] = True; d["yields"] = a[6]
old = [i for i, h in enumerate(s) if h["fn"] == a[1]]
if old: s[old[0]] = d
else:
    k = [i for i, h in enumerate(s) if h["prop"] <= a[0]]
    s.insert(k[-1] + 1 if k else 0, d)
open(f, "w").write("[\n" + ",\n".join(json.dumps(h) for h in s) + "\n]\n")
