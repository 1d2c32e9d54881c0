#!/usr/bin/env python3
"""check.py <property>: proves the property's obligations from /repo's current source with gover.
When an obligation fails, looks for a concrete failing input by running the real code
(harness/<package>/<id>_verif_test.go, put in with go test -overlay) and reports the violation."""
import json, os, re, subprocess, sys, time, glob

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")

def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e

def build():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["go", "build", "-o", os.path.join(BUILD, "gover"), "."], cwd=os.path.join(V, "gover"), env=env())
    if r.returncode != 0:
        print("cannot build the verifier")
        sys.exit(2)

def harness_files(prop):
    return sorted(glob.glob(os.path.join(V, "harness", "*", prop.lower() + "_verif_test.go")))

def always(f):
    with open(f) as h:
        return "vp:always" in h.read(400)

def run_harness(prop, f, secs, replay):
    """Runs one harness on the real code. Returns (status, text): fail, pass or error."""
    d = os.path.dirname(f)
    pkg = os.path.basename(d).replace("__", "/")
    rep = {}
    for src in [f] + sorted(glob.glob(os.path.join(d, "util*_verif_test.go"))):
        rep[os.path.join(REPO, pkg, os.path.basename(src))] = src
    ov = os.path.join(BUILD, "overlay_%s_%s.json" % (prop, os.path.basename(d)))
    with open(ov, "w") as h:
        json.dump({"Replace": rep}, h)
    e = env()
    e["VP_REPLAY"] = replay
    e["VP_SECS"] = str(secs)
    e.setdefault("VERIF_SEED", "1")
    cmd = ["go", "test", "-v", "-vet=off", "-count=1", "-overlay", ov, "-run", "^TestVP_%s" % prop, "-timeout", "%ds" % (secs * 4 + 60), "./" + pkg]
    try:
        r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 4 + 150)
    except subprocess.TimeoutExpired:
        return "error", "harness timed out", 0
    out = r.stdout.decode("utf-8", "replace")
    n = sum(int(x) for x in re.findall(r"VPCASES (\d+)", out))
    if "VPFAIL" in out:
        return "fail", out, n
    if re.search(r"^panic: ", out, re.M) and "test timed out" not in out and "VPPANICOK" not in out:
        return "fail", out, n
    if r.returncode == 0:
        return "pass", out, n
    return "error", out, n

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    build()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    failed = os.path.join(BUILD, prop + ".failed")
    replay = os.path.join(BUILD, prop + ".replay.txt")
    for f in (failed, replay, ev):
        if os.path.exists(f):
            os.remove(f)
    cmd = [os.path.join(BUILD, "gover"), "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-prop", prop,
           "-evidence", ev, "-out", failed, "-t", "60" if tier == "thorough" else "20",
           "-budget", "1500" if tier == "thorough" else "480"]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sys.stdout.write(p.stdout.decode("utf-8", "replace"))
    if p.returncode not in (0, 1) or not os.path.exists(ev):
        print("the verifier itself failed")
        # the source does not load or the verifier crashed: look at the code by running it
        with open(failed, "w") as h:
            h.write("verifier: " + p.stdout.decode("utf-8", "replace")[-4000:])
        p.returncode = 1
    bad = p.returncode == 1
    notes = []
    found = None
    for f in harness_files(prop):
        if not (bad or tier == "thorough" or always(f)):
            continue
        secs = 30 if tier == "thorough" else (20 if bad else 8)
        st, out, n = run_harness(prop, f, secs, replay)
        notes.append({"harness": os.path.relpath(f, V), "result": st, "cases": n})
        print("harness %s: %s, %d cases" % (os.path.relpath(f, V), st, n))
        if st == "fail":
            found = (f, out)
            break
        if st == "error":
            print(out[-1500:])
    if os.path.exists(ev) and notes:
        d = json.load(open(ev))
        d["coverage"]["bounded_runs_not_counted_as_proof"] = notes
        if found:
            d["violations"] = d.get("violations", 0) + 1
        json.dump(d, open(ev, "w"), indent=1)
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    if not bad and not found:
        print("%s holds (%.1f s)" % (prop, time.time() - t0))
        sys.exit(0)
    with open(replay, "a") as h:
        if found:
            h.write("\nFailing input found by %s (seed %s):\n%s\n" % (found[0], os.environ.get("VERIF_SEED", "1"), found[1][-20000:]))
            h.write("Replay: VERIF_SEED=%s python3 %s %s\n" % (os.environ.get("VERIF_SEED", "1"), os.path.join(V, "check.py"), prop))
        if os.path.exists(failed):
            h.write("\nObligations the verifier could not discharge:\n" + open(failed).read())
    if found:
        m = re.search(r"VPFAIL.*", found[1])
        if m: print(m.group(0)[:600])
    print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
    sys.exit(1)

main()
