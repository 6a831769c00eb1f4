#!/usr/bin/env python3
"""mut.py MUTANTS.py [ID...]: (development) applies each mutant to a scratch copy of /repo, runs the checks named from
a scratch copy of /verif, reports. A mutant is (id, "PROP PROP", [(file, old, new)...]). WORKERS=n (default 3)."""
import os, queue, shutil, subprocess, sys, tempfile, threading
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


base = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
jobs = queue.Queue()
for m in ns["M"]:
    if not want or m[0] in want:
        jobs.put(m)


def work(n):
    d = "%s/%d" % (base, n)
    os.makedirs(d)
    sh("cp -a /repo %s/repo; git -C %s/repo checkout -q -- .; cp -a /verif %s/verif; rm -rf %s/verif/seeded" % (d, d, d, d))
    while True:
        try:
            i, props, edits = jobs.get_nowait()
        except queue.Empty:
            return
        for f, old, new in edits:
            p = d + "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print("==", i, "old occurs", t.count(old), f, flush=True)
                break
            open(p, "w").write(t.replace(old, new))
        else:
            out = []
            for q in props.split():
                c = sh("python3-vt check.py " + q, cwd=d + "/verif",
                       env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                out.append("%s rc=%d %s" % (q, c.returncode, (c.stdout[-300:] if c.returncode > 1 else
                           [l.strip()[:110] for l in c.stdout.splitlines() if l.startswith("  [")][:1])))
            print("==", i, " || ".join(out), flush=True)
        sh("git -C %s/repo checkout -- ." % d)


ts = [threading.Thread(target=work, args=(n,)) for n in range(int(os.environ.get("WORKERS", "3")))]
for t in ts:
    t.start()
for t in ts:
    t.join()
shutil.rmtree(base)
