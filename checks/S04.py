"""User configuration: defaults apply exactly where the map entry says nothing."""
import copy, os
from vf import entries, fits, gen, model
LEVEL = "exploration"
MIN = 150
BROKEN = ["GRID_INTERVAL: 0\n", "GRID_INTERVAL: -10\n", "GRID_INTERVAL: 10\nDATA_MIN: 5\nDATA_MAX: 4\n", "GRID_INTERVAL: 10\nNIBBLE: -1\n", "nonsense\n",
          "GRID_INTERVAL:\n", "LAT_GRID_INTERVAL: 10\nLON_GRID_INTERVAL: 0\n", "GRID_INTERVAL: 10\nNIBBLE_LEFT: -2\n", "GRID_INTERVAL: 10 10\n",
          "GRID_INTERVAL: 5\nDATA_MIN: 1 / 0\n"]


def config(r):
    c = dict(lat=10.0, lon=10.0, dmin=None, dmax=None, nib={})
    t = []
    q = r.random()
    if q < 0.4:
        c["lat"] = c["lon"] = float(r.choice([5, 12, 15, 20, 30, 45]))
        t.append("GRID_INTERVAL: %s" % model.num(c["lat"]))
    elif q < 0.6:
        c["lat"] = float(r.choice([5, 15, 30]))
        t.append("LAT_GRID_INTERVAL: %s" % model.num(c["lat"]))
    elif q < 0.8:
        c["lon"] = float(r.choice([5, 15, 30]))
        t.append("LON_GRID_INTERVAL: %s" % model.num(c["lon"]))
    else:
        c["lat"], c["lon"] = float(r.choice([6, 18, 45])), float(r.choice([8, 24, 60]))
        ls = ["LAT_GRID_INTERVAL: %s" % model.num(c["lat"]), "LON_GRID_INTERVAL: %s" % model.num(c["lon"])]
        t += ls if r.random() < 0.7 else ls[::-1]
    if r.random() < 0.5:
        q = r.random()
        if q < 0.7:
            c["dmin"] = r.choice([-300.0, -0.5, 0.1])
            t.append("DATA_MIN: " + model.num(c["dmin"]))
        if q > 0.35:
            c["dmax"] = r.choice([0.4, 250.0])
            t.append("DATA_MAX: " + model.num(c["dmax"]))
    if r.random() < 0.6:
        if r.random() < 0.4:
            n = r.randint(0, 2)
            c["nib"] = dict(left=n, right=n, top=n, bottom=n)
            t.append("NIBBLE: %d" % n)
        else:
            for k in ("left", "right", "top", "bottom"):
                if r.random() < 0.6:
                    c["nib"][k] = r.randint(0, 2)
                    t.append("NIBBLE_%s: %d" % (k.upper(), c["nib"][k]))
    return c, "\n".join(t) + "\n"


def explicit(m, c):
    """the same entry with the defaults written out"""
    e = copy.deepcopy(m)
    if e.grid is True:
        e.grid = (c["lat"], c["lon"])
    elif e.grid not in (None, False):
        e.grid = (c["lat"] if e.grid[0] is None else e.grid[0], c["lon"] if e.grid[1] is None else e.grid[1])
    for p in e.planes:
        if p.dmin is None:
            p.dmin = c["dmin"]
        if p.dmax is None:
            p.dmax = c["dmax"]
        n = c["nib"]
        for im in p.imgs:
            im.def_nib = tuple(n.get(k, 0) for k in ("left", "right", "top", "bottom"))
            l, rr, t, b = im.nibbles()
            im.nib = dict(left=l, right=rr, top=t, bottom=b)
    return e


def run(ctx):
    r = ctx.rng
    ctx.build.marc()
    jobs = []
    for k in range(ctx.n(350, 6000)):
        d = ctx.newdir()
        c, t = config(r)
        m = entries.entry(r, d, "o", mx=30)
        while m.dtype not in ("FLOAT", "DOUBLE") or any(min(i.S, i.N) < 8 for p in m.planes for i in p.imgs):
            m = entries.entry(r, d, "o", mx=30)
        if r.random() < 0.6:
            m.grid = r.choice([True, True, (20.0, None), (None, 25.0), (15.0, 15.0)])
        e = explicit(m, c)
        if any(p.dmin is not None and p.dmax is not None and p.dmin >= p.dmax for p in e.planes):
            continue
        e.fname = "e.fits"
        how = r.choice(["xdg", "home", "both", "none"])
        good, other = d + "/good", d + "/other"
        os.makedirs(good + "/.config")
        os.makedirs(other + "/.config")
        os.makedirs(d + "/empty")
        env = {"HOME": d + "/empty"}
        if how == "xdg":
            open(good + "/marc", "w").write(t)
            env["XDG_CONFIG_HOME"] = good
        elif how == "home":
            open(good + "/.config/marc", "w").write(t)
            env["HOME"] = good
        elif how == "both":
            # $XDG_CONFIG_HOME comes first
            open(good + "/marc", "w").write(t)
            open(other + "/.config/marc", "w").write("GRID_INTERVAL: 7\nDATA_MIN: 0.2\nDATA_MAX: 0.25\nNIBBLE: 3\n")
            env["XDG_CONFIG_HOME"], env["HOME"] = good, other
        else:
            c = dict(lat=10.0, lon=10.0, dmin=None, dmax=None, nib={})
            e = explicit(m, c)
            e.fname = "e.fits"
            if r.random() < 0.5:
                env["XDG_CONFIG_HOME"] = d + "/empty"
        open(d + "/m.marc", "w").write(m.text())
        open(d + "/e.marc", "w").write(e.text())
        jobs.append((d, m, e, c, t, how, env))

    def go(j):
        d, m, e, c, t, how, env = j
        x = ctx.marc(d, ["m.marc"], env=env)
        y = ctx.marc(d, ["e.marc"], env={"HOME": d + "/empty"})
        return j, x, y

    ctx.rule = ("one case = one user configuration (where it lies, grid intervals, data range, nibbles) and one map entry: the map made with the "
                "configuration must equal the map made without one from the entry with the defaults written out; or a broken configuration")
    for (d, m, e, c, t, how, env), x, y in ctx.pmap(go, jobs):
        ctx.case(t + m.text())
        ctx.saw("config_" + how)
        for k in ("dmin", "dmax"):
            if c[k] is not None:
                ctx.saw("default_" + k)
        if c["nib"]:
            ctx.saw("default_nibble")
        if m.grid not in (None, False):
            ctx.saw("grids")
        ctx.sample({"config": t, "entry": m.text()[:500]}, 2)
        if x.crashed() or y.crashed():
            ctx.violation("crash", str(x.crashed() or y.crashed()), files=[d])
        elif x.rc or y.rc:
            ctx.violation("refused", "exit status %d with the configuration, %d without: %s %s" % (x.rc, y.rc, x.err[-300:], y.err[-300:]), files=[d])
        else:
            w = entries.differ(entries.essence(d + "/o.fits"), entries.essence(d + "/e.fits"))
            if w:
                ctx.violation("default", "configuration %r (%s): %s" % (t, how, w), files=[d])
    # broken configurations
    def bad(t):
        d = ctx.newdir()
        open(d + "/marc", "w").write(t)
        open(d + "/m.marc", "w").write(
                                       "MAP: o.fits\nBODY: B\nEQ_RAD: 2\nPOL_RAD: 1\nROTATION: PROGRADE\nDATA_TYPE: FLOAT\nTYPE: SIMPLE_C\n"
                                       "SAMPLES: 3\nLINES: 3\n PLANE:\n LATITUDE:\n")
        x = ctx.marc(d, ["m.marc"], env={"XDG_CONFIG_HOME": d})
        return t, d, x
    for t, d, x in ctx.pmap(bad, BROKEN):
        ctx.case("broken " + t)
        ctx.saw("broken_configurations")
        if x.crashed():
            ctx.violation("crash", x.crashed(), files=[d])
        elif x.rc == 0 or os.path.exists(d + "/o.fits"):
            ctx.violation("broken", "broken configuration %r: exit status %d, output %s" % (t, x.rc, os.path.exists(d + "/o.fits")), files=[d])
