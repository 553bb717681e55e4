#!/usr/bin/env python3
"""seed.py new ID PROPERTY 'needs' 'breaks' < demo.rs : makes seeded/ID from the edits in /tmp/sw (a worktree of /repo), then resets it.
seed.py try ID [--check]: applies the patch to /repo, builds, runs tests, demo and (with --check) the property's check; undoes it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def new(i, prop, needs, breaks):
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {SW} diff").stdout
    assert diff.strip(), "no edit"
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(sys.stdin.read())
    shutil.copy(V + "/tools/seedkit/demo.sh", d + "/demo.sh")
    if "mod kit" in open(d + "/demo.rs").read(): shutil.copy(V + "/tools/seedkit/kit.rs", d + "/kit.rs")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh(f"git -C {SW} checkout -- .")
def demo(i):
    r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo")
    return r.returncode, (r.stdout + r.stderr)[-600:]
def tryit(i, check):
    out = {"id": i}
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0
    out["demo_clean"] = demo(i)[0]
    r = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        r = sh("bash /opt/vp/build.sh"); out["build"] = r.returncode
        if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:])
        r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        t = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        out["failed_tests"] = failed(t, base)
        rc, o = demo(i); out["demo_patched"] = rc; out["demo_out"] = o[-200:]
        if check:
            r = sh(f"python3 {V}/tools/vrun.py {prop}", cwd=V); out["check"] = r.returncode; out["line"] = r.stdout.strip()[-200:]
            if r.returncode != 1: print(r.stderr[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(json.dumps(out))
def failed(t, base):
    return sorted(set(base["stable"]) - set(t["passed"]))[:5]
if sys.argv[1] == "new": new(*sys.argv[2:6])
else:
    for i in [a for a in sys.argv[2:] if not a.startswith("--")]: tryit(i, "--check" in sys.argv)
