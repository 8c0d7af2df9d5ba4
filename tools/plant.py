#!/usr/bin/env python3
"""Plant bugs: plant.py FILE.py [ID...]  FILE.py defines BUGS, a list of dicts
id, prop, edits [(file, old, new)], needs, breaks, imports, demo (body of the
test, plus optional 'decls'). Each one is confirmed in a scratch copy of /repo
(builds, stable tests pass, demo passes without and fails with it) and kept in
/verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile, runpy
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
BASE = "f59a643"
# PLANT_DIR=... keeps them elsewhere, also those that only add lines
KEEP = "PLANT_DIR" not in os.environ
DIR = os.environ.get("PLANT_DIR", "/verif/seeded")
DEMO = '''#!/bin/bash
# exit 0 on a correct tree, nonzero where the property is broken; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -overlay "$t/overlay.json" -run 'TestZZDemo$' -timeout 120s .
'''
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
for b in bugs:
    if only and b["id"] not in only: continue
    t = tempfile.mkdtemp(prefix="plant")
    try:
        w = t + "/repo"
        sh(f"git -C /repo worktree prune; cp -a /repo {w}", "/")
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{w}/{f}").read()
            if s.count(old) != 1:
                print(b["id"], "EDIT: found", s.count(old), "times:", old[:60]); ok = False; break
            open(f"{w}/{f}", "w").write(s.replace(old, new))
        if not ok: continue
        diff = sh("git diff", w).stdout
        # which removed lines are original?
        orig = 0; mine = 0
        for f in {e[0] for e in b["edits"]}:
            base = set(l.strip() for l in sh(f"git show {BASE}:{f}", w).stdout.splitlines())
            cur = None
            for l in sh(f"git diff -U0 {f}", w).stdout.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    if l[1:].strip() in base: orig += 1
                    else: mine += 1
        d = f"{t}/demo"; os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        src = "package ustack\n\nimport (\n\t\"testing\"\n" + "".join(f'\t"{i}"\n' for i in b.get("imports", [])) + ")\n\n" + b.get("decls", "") + "\nfunc TestZZDemo(t *testing.T) {\n" + b["demo"].strip("\n") + "\n}\n"
        open(d + "/demo_test.go.txt", "w").write(src)
        r = sh("go build ./... && go vet . ; go test -count=1 . ", w)
        bld = sh("go build ./...", w)
        tst = sh("go test -count=1 -run 'UBuf|.' .", w)
        bad = sh(f"bash {d}/demo.sh", w, 200)
        good = sh(f"bash {d}/demo.sh", "/repo", 200)
        st = (bld.returncode, tst.returncode, bad.returncode, good.returncode)
        verdict = "OK" if st[0] == 0 and st[1] == 0 and st[2] != 0 and st[3] == 0 and (orig > 0 or not KEEP) else "BAD"
        print(b["id"], verdict, "build/test/demo-patched/demo-clean", st, "orig lines removed", orig, "mine", mine)
        if verdict == "BAD":
            if st[1]: print(tst.stdout[-600:])
            print("PATCHED:", bad.stdout[-500:], "\nCLEAN:", good.stdout[-1200:])
            continue
        out = f"{DIR}/{b['id']}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", out); shutil.copy(d + "/demo_test.go.txt", out)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(t, ignore_errors=True)
