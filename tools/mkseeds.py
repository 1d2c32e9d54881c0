#!/usr/bin/env python3
"""mkseeds.py [id...]: writes /verif/seeded/<id>/ from tools/seeds/<id>.py and validates each seed against /repo
(applies, builds, stable tests pass, demo 0 without / non-zero with). With -c also runs the property's check."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
DEMO = '''#!/bin/bash
# exit 0 if the code behaves, 1 if not
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
echo '{"Replace":{"/repo/%(pkg)s/seed_demo_test.go":"'"$D"'/demo_test.go"}}' > "$T/overlay.json"
cd /repo && go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run '^TestSeedDemo$' ./%(pkg)s
rc=$?
rm -rf "$T"
exit $rc
'''
check = "-c" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-c"] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "tools/seeds/*.py")))
base = set(json.load(open("/opt/vp/BASELINE.json"))) if False else None
assert sh("git -C /repo status --porcelain").stdout == b"", "repo not clean"
for i in ids:
    ns = {}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), ns)
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo_test.go", "w").write(ns["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": ns["pkg"]})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d)
    msgs = []
    if r.returncode != 0: msgs.append("DEMO FAILS UNCHANGED " + r.stdout.decode()[-800:])
    try:
        for f, old, new in ns["edits"]:
            s = open(os.path.join(R, f)).read()
            if s.count(old) != 1: raise Exception("%s: %d matches of %r" % (f, s.count(old), old))
            open(os.path.join(R, f), "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0: msgs.append("BUILD " + r.stdout.decode()[-500:])
        r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/seedtest.json"))
        def passed(x):
            if isinstance(x, dict) and "stable" in x: return set(x["stable"])
            if isinstance(x, dict) and "passed" in x: return set(x["passed"])
            if isinstance(x, dict) and "tests" in x:
                x = x["tests"]
            if isinstance(x, dict): return set(k for k, v in x.items() if v in ("pass", "passed", True))
            return set(x)
        lost = passed(b) - passed(t)
        if lost or not passed(b): msgs.append("TESTS LOST %s" % sorted(lost)[:5])
        r = sh("bash %s/demo.sh" % d)
        if r.returncode == 0: msgs.append("DEMO PASSES WITH PATCH")
        if check:
            r = sh("python3 %s/check.py %s" % (V, ns["prop"]))
            o = r.stdout.decode()
            msgs.append("check rc=%d %s" % (r.returncode, " | ".join(l[:200] for l in o.splitlines() if "VPFAIL" in l or "VIOLATION" in l or l.startswith("FAIL") or "holds" in l or "harness" in l)[:900]))
    except Exception as e:
        msgs.append("ERR %s" % e)
    finally:
        sh("git -C /repo checkout -- .")
    print(i, ns["prop"], "; ".join(msgs) or "ok", flush=True)
