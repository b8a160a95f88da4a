"""C03: the tuning factor changes speed only, never a result."""
import core
import cases as C
from props.c02 import tset
from fractions import Fraction

FIXED = ["-1", "0", "0.5", "0.999999", "1", "1.0000001", "1.5", "2", "3.25", "5", "10", "31.6", "100", "1000", "1e6", "1e30", "-7.5"]


def six(x):
    r = int(round(x ** (1 / 6)))
    while r ** 6 > x:
        r -= 1
    while (r + 1) ** 6 <= x:
        r += 1
    return max(1, r)


def alphas(r, x):
    """Interesting factors for x: unset, below 1, fractional, just below / at / above the cap, and those
    that put y = x^(1/3) alpha next to an integer."""
    c = six(x)
    y0 = C.iroot3(x)
    out = [r.choice(FIXED), r.choice(FIXED), "%d" % c, "%d" % (c + 1), "%.6f" % (c - 1e-6) if c > 1 else "1", "%.9g" % r.uniform(1, max(1.01, c)), "%.9g" % r.uniform(1, max(1.01, min(c, 4)))]
    y = r.randrange(y0, max(y0 + 1, min(y0 * c, y0 * 50)) + 1)
    f = Fraction(y, max(1, y0))
    out += ["%.17g" % float(f), "%.17g" % (float(f) * (1 + 2 ** -52)), "%.17g" % max(0.0, float(f) * (1 - 2 ** -52))]
    return out


def results(ctx, n, lo, hi, ops, name, na=4):
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, lo, hi, n)):
        v = C.env(r)
        for a in r.sample(alphas(r, x), na):
            v.append("setalpha " + a)
            for op in ops:
                v.append("%s %d %d" % (op, x, r.choice([1, 1, 2, 4])))
            if r.random() < 0.2:
                v.append("getalpha")
        s.append(("%s/%d" % (name, i), v))
    return s


def tiny(ctx, hi):
    """Every small x with many factors."""
    r = ctx.rng
    lines = []
    for a in FIXED:
        lines.append("setalpha " + a)
        for x in r.sample(range(0, hi), 60):
            lines.append("%s %d %d" % (r.choice(["pi", "drp", "lmop", "lmo"]), x, r.randrange(1, 4)))
        for x in r.sample(range(0, 200), 20):
            lines.append("%s %d 0" % (r.choice(["lmo1", "lmo2", "lmo3", "lmo4", "lmo5"]), x))
    # the settings stay in force: one session per block
    out, cur = [], None
    for ln in lines:
        if ln.startswith("setalpha"):
            cur = [ln]
            out.append(("tiny/%d" % len(out), cur))
        else:
            cur.append(ln)
    return out


def factors(ctx, n):
    """The effective factor and the limit, over the whole range of x."""
    r = ctx.rng
    lines = []
    for x in list(range(1, 130)) + [k ** 6 + d for k in (2, 3, 5, 10, 100, 1000, 12345) for d in (-1, 0, 1)] + [C.logu(r, 2, 10 ** 31) for _ in range(n)]:
        for a in r.sample(alphas(r, x), 3):
            lines += ["setalpha " + a, "alphadr %d" % x, "alphalmo %d" % x]
    for a in FIXED + ["%.9g" % (10 ** r.uniform(0, 6)) for _ in range(n)]:
        if 0 < float(a) < 1e7:
            lines.append("maxx " + a)
    return [("factors", lines)]


def parts(ctx, n):
    """Every y (= every possible factor) for a few x: components recombined."""
    r = ctx.rng
    lines = []
    for x in C.interesting_x(r, 30, 3000, 10 * n):
        for y in range(C.iroot3(x), C.isqrt(x) + 1):
            lines.append("parts %d %d %d %d" % (x, y, C.cs(r, y), r.randrange(1, 4)))
    for x in C.interesting_x(r, 10 ** 5, 10 ** 9, 20 * n):
        for y, c in C.ycs(r, x, 4):
            lines.append("parts %d %d %d %d" % (x, y, c, r.randrange(1, 4)))
    # the component entry points of the command line agree among each other
    for a in ("-1", "1", "2.5", "50"):
        lines.append("setalpha " + a)
    return C.split("parts", lines, 8)


def run(ctx):
    k = 1 if not ctx.thorough else 6
    ti, fa, pa = tiny(ctx, 3000), factors(ctx, 150 * k), parts(ctx, k)
    s1 = results(ctx, 60 * k, 100, 3 * 10 ** 7, ["pi", "lmop"], "small", 6) + results(ctx, 24 * k, 3 * 10 ** 7, 2 * 10 ** 10, ["pi", "lmop"], "mid", 4)
    sq = results(ctx, 30 * k, 20, 2 * 10 ** 6, ["lmo1", "lmo2", "lmo3", "lmo4", "lmo5"], "seq", 4)
    sm = results(ctx, 10 * k, 10 ** 10, 10 ** 11, ["drp"], "large", 3)

    def a():
        core.oracle(ctx, ["sum", "p2", "s1", "s2"])
        ctx.model("model/Identity.tla", "../mc/MCIdentity.cfg", {"XMax": 200 if ctx.thorough else 100}, name="model decomposition for every y", workers=4)

    def b():
        core.validate(ctx, "results across factors", core.drv(ctx), ti + s1)
        core.validate(ctx, "sequential variants across factors", core.drv(ctx), sq)
        core.validate(ctx, "large x across factors", core.drv(ctx), sm)

    def c():
        core.validate(ctx, "effective factor and limit", core.drv(ctx), fa)
        core.validate(ctx, "every y", core.drv(ctx), pa)
        core.validate(ctx, "without fast division", core.drv(ctx, libdivide=False), s1[::4] + sm[::3])

    ctx.parallel(a, b, c)
