#!/usr/bin/env python3
# Writes MANIFEST.json for the properties that have harnesses in harness/specs.json.
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
specs = json.load(open(d + "/harness/specs.json"))
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
have = {}
for h in specs:
    have.setdefault(h["prop"], []).append(h)
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "no harness yet"})
        continue
    con = any(h.get("con") for h in have[i])
    bounds = "; ".join("%s %s%s" % (h["fn"], json.dumps(h["quick"].get("params", {}), sort_keys=True).replace('"', ''),
              ", up to %d scheduling delays" % h["quick"].get("delay", 0) if h.get("con") else "") for h in have[i])
    note = ("Bounded symbolic execution of the real functions' SSA: every value of every symbolic input"
            + (" and every schedule within the delay bound" if con else "")
            + " is covered within the bounds of each harness (quick tier: " + bounds + "); each path's assertions are decided by cvc5 (z3 as second solver). "
            "A violation is reported only after the solver's counterexample has reproduced in a native run of the real code. "
            "Trusted: the executor's Go semantics (validated by replays), the contracts in harness/models.go and the shims; outside the bounds nothing is claimed.")
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
        "technique": "bounded symbolic execution of the Go SSA with SMT (cvc5/z3), native replay of counterexamples" + ("; symbolic scheduling choices (delay-bounded)" if con else ""),
        "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: scheduling points and shims are added to an in-memory overlay of the current sources at check time."}
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
