#!/usr/bin/env python3
"""seed.py SPECS.py [ID...]: (development) makes /verif/seeded/<id> from a spec and tries it: build, tests, demo, check.
A spec is dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=python text, files={name: text})."""
import json, os, shutil, subprocess, sys
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
assert not sh("git -C /repo status --short").stdout.strip()
todo = [s for s in ns["SPECS"] if not want or s["id"] in want]
res = {}
for s in todo:
    d = "%s/seeded/%s" % (V, s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        for n in ("kit.py", "demo.sh"):
            shutil.copy(V + "/tools/seedkit/" + n, d)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("from kit import *\n" + s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            res[s["id"]] = "BUILD FAILS\n" + b.stdout[-1500:]
            continue
        sh("bash /opt/vp/test.sh /tmp/sg/t.json")
        ps = set(json.load(open("/tmp/sg/t.json"))["passed"])
        miss = [t for t in base if t not in ps]
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        out = []
        for q in [s["prop"]] + s.get("also", []):
            c = sh("python3-vt check.py " + q, cwd=V, env=dict(os.environ, VERIF_SEED="1"))
            out.append("%s rc=%d %s" % (q, c.returncode, " | ".join(l.strip()[:160] for l in c.stdout.splitlines() if l.startswith("  ["))[:200]))
        res[s["id"]] = "tests_missing=%s demo=%d(%s) check %s" % (miss, dm.returncode, dm.stdout.strip()[-120:], out)
    finally:
        sh("git -C /repo checkout -- .")
b = sh("bash /opt/vp/build.sh")
for s in todo:
    dm = sh("bash %s/seeded/%s/demo.sh" % (V, s["id"]), cwd="/repo")
    print("==", s["id"], "clean_demo=%d %s" % (dm.returncode, dm.stdout.strip()[-300:] if dm.returncode else ""))
    print("  ", res.get(s["id"]))
