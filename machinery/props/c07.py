"""C07: every special leaf lies in exactly one of the three classes, with its exact value."""
import core
import cases as C
from math import isqrt


def grid(ctx, hi, step):
    """Every legal y and c for small x: each part on its own and recombined."""
    r = ctx.rng
    lines = []
    for x in list(range(2, 70)) + sorted(r.sample(range(70, hi), step)) + C.interesting_x(r, 70, hi, step // 2):
        lo = C.iroot3(x)
        for y in range(max(1, lo), isqrt(x) + 1):
            for c in {min(8, C.pi_small(y)), C.cs(r, y)}:
                t = r.randrange(1, 4)
                for op in ("S2t", "S2e", "S2h", "phisum_parts"):
                    lines.append("%s %d %d %d %d" % (op, x, y, c, t))
    return C.split("grid", lines, 8)


def medium(ctx, n, lo, hi, name="mid"):
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, lo, hi, n)):
        v = C.env(r)
        for y, c in C.ycs(r, x, 2):
            t = r.choice([1, 2, 3, 4, 8, 13])
            for op in ("S2t", "S2e", "S2h", "phisum_parts"):
                v.append("%s %d %d %d %d" % (op, x, y, c, t))
        s.append(("%s/%d" % (name, i), v))
    return s


def identity(ctx, n, lo, hi):
    """Only the recombination, for larger x (the oracle needs no leaves)."""
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, lo, hi, n)):
        v = C.env(r)
        lo13 = C.iroot3(x)
        y = min(isqrt(x), max(lo13, r.choice([lo13 + 1, C.logu(r, lo13, lo13 * 8), C.logu(r, lo13, isqrt(x))])))
        v.append("parts %d %d %d %d" % (x, y, C.cs(r, y), r.choice([1, 2, 3, 4, 8])))
        s.append(("id/%d" % i, v))
    return s


def huge(ctx, n):
    """Trivial and easy leaves beyond 2^63, 2^64 and for 256-bit results; hard leaves cut at a small z."""
    r = ctx.rng
    s = []
    xs = [2 ** 63 - 1, 2 ** 63 + r.randrange(10 ** 6), 2 ** 64 - 1, 2 ** 64, 2 ** 64 + r.randrange(10 ** 6), 10 ** 20]
    for i in range(n):
        x = xs[i % len(xs)] if i < 2 * len(xs) else C.logu(r, 2 ** 62, 10 ** 21)
        y = C.iroot3(x) + 1 + r.randrange(0, 200000)
        s.append(("trivial/%d" % i, C.env(r) + ["S2tBig %d %d %d %d" % (x, y, 8, r.choice([1, 2, 4]))]))
    return s


def easy_huge(ctx, n):
    r = ctx.rng
    s = []
    xs = [2 ** 63 + r.randrange(10 ** 9), 2 ** 64 - 1, 2 ** 64 + 5, 2 ** 64 + r.randrange(10 ** 12), 10 ** 20 + r.randrange(10 ** 9)]
    for i in range(n):
        x = xs[i % len(xs)]
        x13 = C.iroot3(x)
        y = x13 + r.randrange(0, 300000)
        # start shortly before the last prime <= x^(1/3): only a few b remain
        k = r.randrange(200, 2500)
        # pi(x13) is left to the driver: c is passed as its distance
        s.append(("easy/%d" % i, C.env(r) + ["S2eTail %d %d %d %d" % (x, y, k, r.choice([1, 2, 4, 8]))]))
    return s


def hard_cut(ctx, n):
    r = ctx.rng
    s = []
    for i in range(n):
        x = r.choice([10 ** 13, 10 ** 14, 10 ** 15, 10 ** 16, 10 ** 17]) + r.randrange(0, 10 ** 6)
        y = int(x ** (1 / 3) * r.uniform(2, 8))
        z = int(max(y, (x / y) ** (2 / 3)) * r.uniform(1.02, 1.5)) + 1000
        s.append(("hard/%d" % i, C.env(r) + ["S2hz %d %d %d %d %d" % (x, y, z, r.choice([8, 8, 6]), r.choice([1, 2, 3, 8]))]))
    return s


def far(ctx, n):
    """The whole decomposition next to 10^16 with z > 10^10 (sums beyond 64 bits), native threads."""
    r = ctx.rng
    return [("far/%d" % i, ["parts %d %d 8 8" % (10 ** 16 + r.randrange(-10 ** 7, 10 ** 7), r.randrange(560000, 860000))]) for i in range(n)]


def wide(ctx, n):
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, 100, 3 * 10 ** 8, n)):
        v = ["limits %d %d %d" % (r.choice([0, C.logu(r, 10, x)]), r.choice([0, C.logu(r, 10, x)]), r.choice([0, 2 ** 32 - 1]))] + C.env(r)
        for y, c in C.ycs(r, x, 2):
            t = r.choice([1, 2, 3, 4, 8])
            for op in ("S2t", "S2e", "S2h"):
                v.append("%s %d %d %d %d" % (op, x, y, c, t))
        s.append(("wide/%d" % i, v))
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 5
    g, m, idn = grid(ctx, 1200, 25 * k), medium(ctx, 90 * k, 1200, 3 * 10 ** 9), identity(ctx, 30 * k, 10 ** 9, 3 * 10 ** 11)
    hu, ea, ha, wi = huge(ctx, 12 * k), easy_huge(ctx, 6 * k), hard_cut(ctx, 8 * k), wide(ctx, 60 * k)

    def a():
        core.oracle(ctx, ["s2"])
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", name="model hard leaves", workers=4)
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", {"Mutant": '"order"'}, name="model hard leaves, merged out of order", expect_violation=True, workers=2)

    def b():
        core.validate(ctx, "leaves small", core.drv(ctx), C.forced(ctx.rng, g))
        core.validate(ctx, "leaves medium", core.drv(ctx), C.forced(ctx.rng, m))
        core.validate(ctx, "recombination", core.drv(ctx), C.forced(ctx.rng, idn))
        core.validate(ctx, "trivial leaves of huge x", core.drv(ctx), hu)
        core.validate(ctx, "easy leaves of huge x", core.drv(ctx), C.forced(ctx.rng, ea, 0.3))
        core.validate(ctx, "hard leaves of huge x", core.drv(ctx), ha)
        core.validate(ctx, "recombination, far", core.drv(ctx, shim=False), far(ctx, k), timeout=400)

    def c():
        core.validate(ctx, "leaves without fast division", core.drv(ctx, libdivide=False), C.forced(ctx.rng, g[::2] + m[::3] + ea[::2]))
        core.validate(ctx, "wide code on small x", core.wide(ctx), C.forced(ctx.rng, wi))
        core.validate(ctx, "wide code on small x, no fast division", core.wide(ctx, False), C.forced(ctx.rng, wi[::2]))

    ctx.parallel(a, b, c)
