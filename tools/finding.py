#!/usr/bin/env python3
# finding.py PROP COMMIT text : records a repaired defect
import json, sys
f = __file__.rsplit("/", 2)[0] + "/known_findings.json"
s = json.load(open(f))
p, c, t = sys.argv[1:4]
s.append(dict(property=p, status="fixed", text="fixed: property=%s %s %s" % (p, c, t)))
open(f, "w").write("[\n" + ",\n".join(json.dumps(x) for x in s) + "\n]\n")
