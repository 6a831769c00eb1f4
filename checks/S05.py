"""Failures are reported: exit status, nothing made from bad input, full disk, sources never touched."""
import hashlib, os
import numpy as np
from vf import entries, fits
LEVEL = "exploration"
MIN = 200
SYNTAX = ["SAMPLES: 0\n", "FOO\n", "MAP: \n", "@\n", "MAP: zz.fits\nBODY: X\n", "PLANE:\n LATITUDE:\n", "\0\0\0\n", "MAP: zz.fits\nBODY: X\nEQ_RAD: -1\n"]


def snap(d):
    s = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            s[os.path.relpath(p, d)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return s


def run(ctx):
    r = ctx.rng
    exe = ctx.build.marc()
    ctx.rule = ("one case = one program run whose outcome is known: success (exactly the named files appear, sources untouched, status 0), an error in "
                "one of several inputs (status not 0, nothing created or changed), an output that cannot be created, or a disk that fills up after a "
                "given number of bytes (status not 0 whenever the file is incomplete); distinct by run")
    # ---- success and bad input
    jobs = []
    for c in range(ctx.n(200, 4000)):
        d = ctx.newdir()
        k = r.choice([1, 2, 3])
        ms = [entries.entry(r, d, "o%d" % i, mx=10) for i in range(k)]
        args = []
        for i, m in enumerate(ms):
            open(d + "/m%d.marc" % i, "w").write(m.text())
            args.append("m%d.marc" % i)
        for i in range(k):
            if r.random() < 0.3:
                open(d + "/o%d.fits" % i, "w").write("old contents %d" % c)
        how = r.choice(["ok", "ok", "missing", "syntax", "append", "directory", "cut", "nodir", "isdir", "nosource", "badsource", "badsource",
                        "option", "version", "dashdash"])
        at = r.randint(0, k)
        if how == "missing":
            args.insert(at, "nothere.marc")
        elif how == "syntax":
            open(d + "/bad.marc", "w").write(r.choice(SYNTAX))
            args.insert(at, "bad.marc")
        elif how == "append":
            i = r.randrange(k)
            open(d + "/m%d.marc" % i, "a").write(r.choice([s for s in SYNTAX if "PLANE" not in s]))
        elif how == "directory":
            os.mkdir(d + "/dir")
            args.insert(at, "dir")
        elif how == "cut":
            # an entry that ends before its planes
            i = r.randrange(k)
            t = ms[i].text()
            open(d + "/m%d.marc" % i, "w").write(t[:t.index(" PLANE:")])
        elif how == "nodir":
            i = r.randrange(k)
            open(d + "/m%d.marc" % i, "w").write(ms[i].text().replace("MAP: o%d.fits" % i, "MAP: no/such/o.fits"))
        elif how == "isdir":
            i = r.randrange(k)
            try:
                os.unlink(d + "/o%d.fits" % i)
            except OSError:
                pass
            os.mkdir(d + "/o%d.fits" % i)
        elif how in ("nosource", "badsource"):
            srcs = [im.fname for m in ms for q in m.planes if q.kind == "IMAGE" for im in q.imgs]
            srcs += [im.flat[0] for m in ms for q in m.planes if q.kind == "IMAGE" for im in q.imgs if getattr(im, "flat", None)]
            if not srcs:
                how = "ok"
            else:
                f = d + "/" + r.choice(srcs)
                raw = open(f, "rb").read()
                os.unlink(f)
                q = r.random()
                if how == "nosource":
                    if q < 0.3:
                        os.mkdir(f)
                elif q < 0.25:
                    open(f, "wb").write(raw[:r.choice([0, 1, 79, 80, 1000, 2879])])
                elif q < 0.5:
                    open(f, "wb").write(bytes(r.randrange(256) for _ in range(3000)))
                elif q < 0.75:              # the data are cut off
                    open(f, "wb").write(raw[:2880 + r.randint(0, 2)])
                else:
                    fits.write(f, np.zeros(r.choice([(1, 5), (5, 1), (1, 1), (7,)])), r.choice([8, -32]))
        elif how == "option":
            args.insert(at, r.choice(["--bogus", "-x", "--output=o.fits", "-0"]))
        elif how == "version":
            args.insert(at, r.choice(["--version", "-V", "--help", "-?", "--usage"]))
        elif how == "dashdash":
            for i in range(k):
                if r.random() < 0.6:
                    n = "-%d.marc" % i
                    os.rename(d + "/m%d.marc" % i, d + "/" + n)
                    args[i] = n
            args.insert(0, "--")
            how = "ok"
            ctx.saw("files_named_like_options")
        jobs.append((d, ms, args, how))

    def go(j):
        d, ms, args, how = j
        a = snap(d)
        x = ctx.marc(d, args)
        return j, a, snap(d), x

    for (d, ms, args, how), a, b, x in ctx.pmap(go, jobs):
        ctx.case(how + str(args) + ms[0].text())
        ctx.saw("outcome_" + how)
        outs = {m.fname for m in ms}
        if x.crashed():
            ctx.violation("crash", "%s: %s" % (how, x.crashed()), files=[d])
            continue
        src = {f: h for f, h in a.items() if f not in outs}
        for f, h in src.items():
            if b.get(f) != h:
                ctx.violation("source", "%s: the program %s %s" % (how, "changed" if f in b else "removed", f), files=[d])
        extra = set(b) - set(a) - outs
        if extra:
            ctx.violation("stray", "%s: files appeared that nobody asked for: %s" % (how, sorted(extra)), files=[d])
        if how == "ok":
            if x.rc != 0:
                ctx.violation("status", "status %d for valid input: %s" % (x.rc, x.err[-300:]), files=[d])
            for m in ms:
                try:
                    h = fits.read(d + "/" + m.fname)[0]
                    n = len(m.planes)
                    if h.axes != [m.S, m.N] + ([n] if n > 1 else []):
                        ctx.violation("file", "%s: axes %s" % (m.fname, h.axes), files=[d])
                except (OSError, fits.FitsError) as e:
                    ctx.violation("file", "status 0 but %s: %s" % (m.fname, e), files=[d])
        else:
            if how == "version":
                if x.rc != 0:
                    ctx.violation("status", "%s: exit status %d" % (args, x.rc), files=[d])
            elif x.rc == 0:
                ctx.violation("status", "%s (%s): exit status 0" % (how, args), files=[d])
            if not (x.err + x.out).strip():
                ctx.violation("silent", "%s: failed without a message" % how, files=[d])
            if how not in ("nodir", "isdir", "nosource", "badsource"):
                ch = [f for f in outs if a.get(f) != b.get(f)]
                if ch:
                    ctx.violation("partial", "%s: input refused, yet %s was created or changed" % (how, ch), files=[d])
    # ---- usage
    d = ctx.newdir()
    x = ctx.marc(d, [])
    ctx.case("usage")
    if x.crashed() or x.rc == 0 or os.listdir(d):
        ctx.violation("usage", "no arguments: status %d %s" % (x.rc, os.listdir(d)))
    # ---- full disk
    jobs = []
    for c in range(ctx.n(60, 1200)):
        d = ctx.newdir()
        m = entries.entry(r, d, "o", mx=r.choice([10, 40, 90]))
        open(d + "/m.marc", "w").write(m.text())
        jobs.append((d, m, [r.random() for _ in range(5)]))

    def full(j):
        d, m, us = j
        x = ctx.marc(d, ["m.marc"])
        res = []
        if x.rc != 0:
            return j, x, None, res
        size = os.path.getsize(d + "/o.fits")
        want = entries.essence(d + "/o.fits")
        for lim in sorted({int(u * size) for u in us} | {0, size - 1, size - 2880, size, size + 1}):
            try:
                os.unlink(d + "/o.fits")
            except OSError:
                pass
            y = ctx.exec(["env", "--ignore-signal=XFSZ", "prlimit", "--fsize=%d" % lim, exe, "m.marc"], d)
            e = entries.essence(d + "/o.fits")
            res.append((lim, size, y, e == want))
        return j, x, size, res

    for (d, m, us), x, size, res in ctx.pmap(full, jobs):
        if size is None:
            ctx.violation("crash" if x.crashed() else "status", x.crashed() or "status %d for valid input: %s" % (x.rc, x.err[-300:]), files=[d])
        for lim, size, y, same in res:
            ctx.case("full %d %d %s" % (lim, size, m.text()))
            ctx.saw("disk_filled" if lim < size else "disk_sufficed")
            if y.crashed():
                ctx.violation("crash", "disk full after %d of %d bytes: %s" % (lim, size, y.crashed()), files=[d])
            elif y.rc == 0 and not same:
                ctx.violation("diskfull", "disk full after %d of %d bytes: incomplete file, exit status 0" % (lim, size), files=[d])
            elif y.rc != 0 and lim >= size:
                ctx.violation("status", "status %d with enough space (%d of %d): %s" % (y.rc, lim, size, y.err[-200:]), files=[d])
        ctx.sample({"size": size, "limits": [q[0] for q in res], "status": [q[2].rc for q in res]}, 2)
