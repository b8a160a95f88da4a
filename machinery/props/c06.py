"""C06: S1 is the exact signed sum over the ordinary leaves."""
import core
import cases as C
from math import isqrt

EDGES = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1,
         10 ** 19, 10 ** 20, 10 ** 23 + 7, 10 ** 27, 2 ** 95 - 1, 10 ** 30, 2 ** 100 + 12345, 10 ** 31 - 1]


def small(ctx, n):
    r = ctx.rng
    lines = []
    for x in list(range(1, 60)) + C.interesting_x(r, 60, 3000, 60):
        for _ in range(4):
            y = r.randrange(1, isqrt(x) + 8)
            lines.append("S1 %d %d %d %d" % (x, y, r.randrange(0, min(8, C.pi_small(y)) + 1), r.randrange(1, 5)))
    for x in C.interesting_x(r, 3000, 10 ** 14, n):
        hi = min(isqrt(x), 60000)
        y = C.logu(r, 2, hi)
        lines.append("S1 %d %d %d %d" % (x, y, min(8, C.pi_small(y)) if r.random() < 0.6 else r.randrange(0, min(8, C.pi_small(y)) + 1), r.randrange(1, 9)))
    return C.split("small", lines, 8)


def big(ctx, n):
    """64-, 128- and 256-bit regimes."""
    r = ctx.rng
    lines = []
    for e in EDGES:
        for d in (0, r.randrange(1, 10 ** 6)):
            y = C.logu(r, 30, 3000)
            lines.append("S1 %d %d %d %d" % (e + d, y, r.choice([8, 8, 7, r.randrange(0, 9)]), r.randrange(1, 9)))
    for i in range(n):
        x = C.logu(r, 10 ** 15, 10 ** 31)
        y = C.logu(r, 20, 2 * 10 ** 4)
        lines.append("S1 %d %d %d %d" % (x, y, r.choice([8, r.randrange(0, 9)]), r.randrange(1, 9)))
    return C.split("big", lines, 8)


def threads(ctx, n):
    """y beyond the parallelisation threshold (1e6 per thread)."""
    r = ctx.rng
    s = []
    for i in range(n):
        y = r.randrange(2 * 10 ** 6, 5 * 10 ** 6)
        x = C.logu(r, y * y // 4, min(2 ** 50 - 1, y ** 3))
        s.append(("par/%d" % i, C.env(r) + ["S1 %d %d %d %d" % (x, y, r.choice([8, 8, 5, 3]), r.choice([2, 3, 4, 5, 8]))]))
    # between two y: leaves in ]y1, y2] only, at a width where the sums need 128 and 256 bits
    for i in range(max(2, n // 3)):
        y1 = r.randrange(2 * 10 ** 6, 3 * 10 ** 6)
        x = r.choice([2 ** 63 - 1, 2 ** 63, 10 ** 19 + r.randrange(10 ** 9), 10 ** 21, 10 ** 25 + 1])
        s.append(("diff/%d" % i, C.env(r) + ["S1d %d %d %d %d %d" % (x, y1, y1 + r.randrange(1, 20000), r.choice([8, 6]), r.choice([1, 2, 3, 4]))]))
    return s


def wide(ctx, n):
    """The 128- and 256-bit code (chosen for huge x) on moderate x."""
    r = ctx.rng
    lines = ["limits %d %d %d" % (r.choice([0, 1000, 10 ** 6]), 0, r.choice([0, 100, 2 ** 32 - 1]))]
    for x in C.interesting_x(r, 10, 10 ** 13, n):
        y = C.logu(r, 2, min(isqrt(x) + 1, 30000))
        if r.random() < 0.05:
            lines.append("limits %d %d %d" % (C.logu(r, 1, 10 ** 14), C.logu(r, 1, 10 ** 14), C.logu(r, 1, 10 ** 5)))
        lines.append("S1 %d %d %d %d" % (x, y, min(8, C.pi_small(y)) if r.random() < 0.6 else r.randrange(0, min(8, C.pi_small(y)) + 1), r.randrange(1, 9)))
    return [("wide/%d" % i, lines[:1] + lines[1 + i::8]) for i in range(8)]


def run(ctx):
    n = 1 if not ctx.thorough else 6
    sm, bg, th, wd = small(ctx, 250 * n), big(ctx, 60 * n), threads(ctx, 9 * n), wide(ctx, 160 * n)

    def a():
        core.oracle(ctx, ["s1"])

    def b():
        core.validate(ctx, "S1 small and medium", core.drv(ctx), C.forced(ctx.rng, sm))
        core.validate(ctx, "S1 wide results", core.drv(ctx), bg)
        core.validate(ctx, "S1 parallel", core.drv(ctx), th)

    def c():
        core.validate(ctx, "S1 wide code on small x", core.wide(ctx), C.forced(ctx.rng, wd))

    ctx.parallel(a, b, c)
