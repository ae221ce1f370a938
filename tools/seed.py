#!/usr/bin/env python3
"""tools/seed.py SPEC.py [--nocheck]: makes seeded/<ID>/ from a spec and validates it
in a scratch copy.  The spec sets ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)],
FILES {relative: text}; with PROG text for an instrumented program or DEMO
(the text of demo.sh)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
D = os.path.join(V, "seeded", ID)


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


head = sh(["git", "rev-parse", "HEAD"], cwd="/repo").stdout.strip()
if not os.path.exists(W) or sh(["git", "rev-parse", "HEAD"]).stdout.strip() != head:
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
sh(["git", "checkout", "-q", "--", "."])
sh(["git", "clean", "-qfd"])
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
for f, old, new in spec["EDITS"]:
    p = os.path.join(W, f)
    s = open(p).read()
    n = s.count(old)
    assert n == 1, "%s: %d matches" % (f, n)
    open(p, "w").write(s.replace(old, new))
open(os.path.join(D, "patch.diff"), "w").write(sh(["git", "diff"]).stdout)
sh(["git", "checkout", "-q", "--", "."])
files = dict(spec.get("FILES", {}))
if "PROG" in spec:
    files["prog/main.go"] = spec["PROG"]
    lib = open(os.path.join(V, "tools/demolib.py")).read()
    files["demolib.py"] = lib.replace("@TABLES@", open(os.path.join(V, "lib/tables.go.txt")).read())
    files["demo.sh"] = '#!/bin/bash\nexec python3 "$(dirname "$0")/demolib.py" %s\n' % spec.get("FLAGS", "")
if "DEMO" in spec:
    files["demo.sh"] = spec["DEMO"]
for k, v in files.items():
    p = os.path.join(D, k)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(v)
os.chmod(os.path.join(D, "demo.sh"), 0o755)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)


def demo(what):
    t = "/tmp/seeddemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(D, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(["bash", t + "/demo.sh"])
    shutil.rmtree(t)
    print(ID, "demo", what, "rc", r.returncode, "" if (r.returncode == 0) == (what == "clean") else r.stdout[-2500:])
    return r


r0 = demo("clean")
r = sh(["git", "apply", os.path.join(D, "patch.diff")])
assert r.returncode == 0, r.stdout
r1 = demo("patched")
print(r1.stdout[-700:])
# stable tests: overlay the scratch copy where /repo is expected
env = open("/opt/vp/env.sh").read().replace("cd /repo", "cd " + W)
test = open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", ". /tmp/seedenv.sh").replace("cd /repo", "cd " + W)
open("/tmp/seedenv.sh", "w").write(env)
open("/tmp/seedtest.sh", "w").write(test)
r = sh(["bash", "/tmp/seedtest.sh", "/tmp/seedtest.json"])
res = json.load(open("/tmp/seedtest.json"))
base = json.load(open("/opt/vp/BASELINE.json"))
print("tests: passed %d failed %s" % (len(res["passed"]), res["failed"]))
if "--nocheck" not in sys.argv:
    e = dict(os.environ, VP_REPO=W, VP_CACHE="/root/vpcache")
    r = sh([sys.executable, os.path.join(V, "bin/check.py"), spec["PROP"]], cwd=V, env=e)
    print("check rc", r.returncode, "\n", "\n".join(l[:300] for l in r.stdout.splitlines() if not l.startswith("["))[-1500:])
sh(["git", "checkout", "-q", "--", "."])
