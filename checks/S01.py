"""Numeric expressions of the input language evaluate as mathematics says."""
import math, os
from vf import fits
LEVEL = "exploration"
MIN = 500
FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
      "ln": math.log, "exp": math.exp, "sqrt": math.sqrt}


def number(r):
    q = r.random()
    if q < 0.3:
        return str(r.randint(0, 12))
    if q < 0.55:
        return "%.*f" % (r.randint(1, 8), r.uniform(0, 20))
    if q < 0.65:
        return ".%d" % r.randint(1, 999)
    if q < 0.72:
        return "%d." % r.randint(0, 99)
    if q < 0.74:
        k = r.randint(100, 290)         # harmless large and tiny numbers
        return "%.1fE%+d" % (r.uniform(1, 9), -k)
    return "%.*f%s%s%d" % (r.randint(0, 3), r.uniform(1, 9.99), r.choice("eE"), r.choice(["", "+", "-"]), r.randint(0, 6))


def tree(r, depth):
    """(kind, ...) expression tree"""
    if depth <= 0 or r.random() < 0.1:
        return ("num", number(r))
    q = r.random()
    if q < 0.55:
        return ("bin", r.choice("++--**//^"), tree(r, depth - 1), tree(r, depth - 1))
    if q < 0.7:
        return ("neg", tree(r, depth - 1))
    if q < 0.85:
        return ("fn", r.choice(list(FN)), tree(r, depth - 1))
    return ("par", tree(r, depth - 1))


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 4}


def render(t, r):
    """text with only the parentheses the rules of precedence require"""
    sp = lambda: r.choice(["", "", "", " ", " ", " ", "  ", "\t"])
    k = t[0]
    if k == "num":
        if r.random() < 0.03:
            return "+" + t[1], 3
        return t[1], 9
    if k == "par":
        return "(" + r.choice(["", " "]) + render(t[1], r)[0] + r.choice(["", " "]) + ")", 9
    if k == "fn":
        return t[1] + r.choice(["", " "]) + "(" + render(t[2], r)[0] + ")", 9
    if k == "neg":
        s, p = render(t[1], r)
        # -a*b negates a, so only powers and atoms go bare
        if p < 3:
            s = "(" + s + ")"
        return "-" + sp() + s, 3
    op = t[1]
    a, pa = render(t[2], r)
    b, pb = render(t[3], r)
    p = PREC[op]
    if op == "^":
        if pa <= p:
            a = "(" + a + ")"
        if pb < 3:
            b = "(" + b + ")"
    else:
        if pa < p:
            a = "(" + a + ")"
        if pb <= p:
            b = "(" + b + ")"
    return a + sp() + op + sp() + b, p


class Bad(Exception):
    pass


def value(t):
    """(value, relative condition bound)"""
    k = t[0]
    if k == "num":
        return float(t[1])
    if k == "par":
        return value(t[1])
    if k == "neg":
        return -value(t[1])
    try:
        if k == "fn":
            v = FN[t[1]](value(t[2]))
        else:
            a, b = value(t[2]), value(t[3])
            v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                 "^": lambda: math.pow(a, b)}[t[1]]()
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Bad
    if not math.isfinite(v):
        raise Bad
    return v


def perturbed(t, eps, r):
    """value with every intermediate result disturbed: measures conditioning"""
    k = t[0]
    e = lambda v: v * (1 + eps * r.choice((-1, 1)))
    if k == "num":
        return float(t[1])
    if k == "par":
        return perturbed(t[1], eps, r)
    if k == "neg":
        return -perturbed(t[1], eps, r)
    try:
        if k == "fn":
            return e(FN[t[1]](perturbed(t[2], eps, r)))
        a, b = perturbed(t[2], eps, r), perturbed(t[3], eps, r)
        return e({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                  "^": lambda: math.pow(a, b)}[t[1]]())
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Bad


HEAD = "MAP: o%d.fits\nBODY: B\nEQ_RAD: 10\nPOL_RAD: 9\nROTATION: PROGRADE\nDATA_TYPE: DOUBLE\nTYPE: SIMPLE_C\nOPTIONS:\n"
TAIL = "SAMPLES: 1\nLINES: 1\n PLANE:\n  LATITUDE:\n"
INVALID = ["", "1 +", "* 2", "( 1", "1 )", "2 3", "sin 1", "sin()", "foo(1)", "x", "1 / 0", "1 / (2 - 2)", "3 / 0.0", "()", "2 ** 3", "1 , 2",
           "sin(1", "pi", "1 % 2", "2 ^", "x = 3", "--", "1..2", "1.2.3", "0x10", "1 + + + ", "(1 + 2)) * 3", "ln", "1 = 1", "log(3)", "1e", "1 & 2", "$1",
           "'5'", "1 // 2", "/ 2", "(1)(2)", "5 !", "1;2", "ln(-1)", "sqrt(-1)", "asin(2)", "acos(-1.5)", "1E308 * 10", "2 ^ 1024", "exp(1000)", "(0 - 2) ^ 0.5", "1E308 + 1E308", "1E300 / 1E-300",
           "-1E308 - 1E308", "0 / 0", "0 / (1 - 1)", "0.0 / 0.0", "(1-1)/(2-2)", "1E308*-10", "ln(0)", "1E999", "tan(0)/0", "0 ^ -1"]


def run(ctx):
    r = ctx.rng
    ctx.build.marc()
    want = ctx.n(2400, 40000)
    items = []
    while len(items) < want:
        t = tree(r, r.choice([1, 2, 2, 3, 3, 4, 5]))
        try:
            v = value(t)
            ps = [perturbed(t, 1e-13, r) for _ in range(4)]
        except Bad:
            continue
        if abs(v) > 1e12 or any(abs(p - v) > 1e-10 * max(1, abs(v)) for p in ps):
            continue
        s = render(t, r)[0]
        if len(s) > 300:
            continue
        if -89.5 < v < 89.5:
            items.append((s, v, s, v))
        else:
            items.append(("atan(" + s + ") * 50", math.atan(v) * 50, s, v))
    batches = [items[i:i + 40] for i in range(0, len(items), 40)]

    def go(b):
        d = ctx.newdir()
        with open(d + "/m.marc", "w") as f:
            for j, it in enumerate(b):
                f.write(HEAD % j + "  LO_LAT: " + it[0] + "\n  HI_LAT: 90\n" + TAIL)
        x = ctx.marc(d, ["m.marc"])
        got = []
        for j in range(len(b)):
            try:
                got.append(float(fits.read("%s/o%d.fits" % (d, j))[0].data.reshape(-1)[0]))
            except (OSError, fits.FitsError):
                got.append(None)
        return b, d, x, got

    ctx.rule = ("one case = one generated expression (random tree, only the parentheses precedence requires) given as a map's lowest latitude and "
                "read back from the map, or one ill-formed expression that must be refused; distinct by expression text")
    redo = []
    for b, d, x, got in ctx.pmap(go, batches):
        if x.crashed():
            ctx.violation("crash", x.crashed() + x.err[-800:], files=[d])
            continue
        if x.rc != 0:
            redo += [[it] for it in b]      # find the culprit
            continue
        judge(ctx, b, d, x, got)
    for b, d, x, got in ctx.pmap(go, redo[:400]):
        if x.crashed():
            ctx.violation("crash", x.crashed() + x.err[-800:], files=[d])
        elif x.rc != 0:
            ctx.violation("refused", "valid expression refused: %s (= %r): %s" % (b[0][0], b[0][1], x.err[-300:]), files=[d])
        else:
            judge(ctx, b, d, x, got)

    def bad(e):
        d = ctx.newdir()
        with open(d + "/m.marc", "w") as f:
            f.write(HEAD % 0 + "  LO_LAT: " + e + "\n  HI_LAT: 90\n" + TAIL)
        return e, d, ctx.marc(d, ["m.marc"])
    # infinite on the way to a finite result
    invs = list(INVALID) + [o % e for o in ("atan(%s)", "1 / (%s)") for e in
                            ("-1E308 - 1E308", "1E308 + 1E308", "1E308 * 10", "1E300 / 1E-300", "2 ^ 1024", "exp(1000)", "1 / 0", "ln(0)", "0 / 0")]
    # drop or add a token of a valid expression so that it cannot be one any more
    for it in r.sample(items, min(len(items), ctx.n(60, 1500))):
        s = it[2]
        q = r.random()
        if q < 0.3 and "(" in s:
            invs.append(s[::-1].replace(")", "", 1)[::-1])
        elif q < 0.6:
            invs.append("(" + s)
        elif q < 0.8:
            invs.append(s + " *")
        else:
            invs.append(s + " )")
    for e, d, x in ctx.pmap(bad, invs):
        ctx.case("invalid " + e)
        ctx.saw("ill_formed")
        if x.crashed():
            ctx.violation("crash", x.crashed() + x.err[-800:], files=[d])
        elif x.rc == 0 or os.path.exists(d + "/o0.fits"):
            ctx.violation("accepted", "ill-formed expression accepted: %r (exit status %d)" % (e, x.rc), files=[d])


def judge(ctx, b, d, x, got):
    for (full, w, s, v), g in zip(b, got):
        ctx.case(s)
        ctx.saw("expressions")
        for c in "+-*/^":
            if c in s:
                ctx.saw("with " + c)
        if g is None:
            ctx.violation("nomap", "no map for expression %s" % full, files=[d])
            continue
        lo = 2 * g - 90
        if not abs(lo - w) <= 1e-8 * max(1, abs(w)) + 1e-9:
            ctx.violation("value", "expression %s evaluated to %.15g, expected %.15g" % (full, lo, w), files=[d])
    ctx.sample({"expressions": [[i[2], i[3]] for i in b[:5]]})
