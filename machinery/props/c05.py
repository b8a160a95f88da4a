"""C05: P2(x, y) sums every semiprime with both factors > y exactly once."""
import core
import cases as C
from math import isqrt


def small(ctx, n):
    r = ctx.rng
    lines = []
    for x in list(range(0, 130)) + C.interesting_x(r, 130, 5000, 40):
        ys = {1, 2, 3, C.iroot3(max(x, 1)), isqrt(x), isqrt(x) + 1, r.randrange(1, isqrt(x) + 3)}
        for y in sorted(v for v in ys if v >= 1):
            lines.append("P2 %d %d %d" % (x, y, r.randrange(1, 5)))
    for x in C.interesting_x(r, 5000, 10 ** 10, n):
        lo, hi = max(1, C.iroot3(x) // 3), isqrt(x)
        lines += C.env(r)
        lines.append("P2 %d %d %d" % (x, r.choice([C.logu(r, lo, hi), hi, hi - 1, C.prev_prime(hi + 1), C.prev_prime(hi + 1) - 1, C.iroot3(x)]), r.randrange(1, 9)))
    return C.split("small", lines, 8)


def windows(ctx, n):
    """x/y large enough for several windows per call, under every clock."""
    r = ctx.rng
    s = []
    for i in range(n):
        y = r.randrange(300, 4000)
        z = r.choice([r.randrange(9 * 10 ** 6, 6 * 10 ** 7), (1 << 23) * r.randrange(1, 8) + r.randrange(-2, 3), r.randrange(6 * 10 ** 7, 14 * 10 ** 7) if i % 4 == 0 else 1 << 25])
        z = int(z)
        x = y * z + r.randrange(0, y)
        t = r.choice([1, 2, 3, 4, 5, 7, 8, 16])
        s.append(("win/%d" % i, C.env(r, False) + ["clock %d %d" % (i % 7 if i % 7 else 6, r.randrange(1, 10 ** 6)), "P2 %d %d %d" % (x, y, t)]))
    return s


def far(ctx, n):
    """Windows beyond 3 * 10^10, where the sum of the preceding primes needs more than 64 bits."""
    r = ctx.rng
    return [("far/%d" % i, C.env(r, False) + ["clock 4 1", "P2 %d %d %d" % (r.randrange(38, 46) * 10 ** 10 + r.randrange(10 ** 10), r.choice([11, 12, 13, 14]), r.choice([1, 2, 3, 4, 8]))])
            for i in range(n)]


def huge(ctx, n):
    """x at the limits of the 64-bit types, y so close to its square root that few semiprimes remain."""
    r = ctx.rng
    xs = [2 ** 63 - 1 - r.randrange(10 ** 6), 2 ** 63 + r.randrange(10 ** 9), r.randrange(2 ** 63, 2 ** 64), 2 ** 64 + r.randrange(10 ** 9), 2 ** 64 - 1, 2 ** 63, 2 ** 64, 10 ** 20 + r.randrange(10 ** 9)]
    return [("huge/%d" % i, C.env(r, False) + ["clock %d %d" % (r.randrange(1, 5), i + 1), "P2 %d %d %d" % (x, isqrt(x) - r.choice([r.randrange(3), r.randrange(10 ** 3), r.randrange(10 ** 5)] if i > 3 else [r.randrange(10 ** 3, 10 ** 5)]), r.choice([1, 2, 3, 4, 8]))])
            for i, x in enumerate(xs[:n])]


def run(ctx):
    n = 1 if not ctx.thorough else 6

    def a():
        core.oracle(ctx, ["p2"])
        ctx.model("model/P2Windows.tla", "../mc/MCP2.cfg", name="model P2 windows", workers=4)
        for m in ("clip", "correct", "order", "shrink"):
            ctx.model("model/P2Windows.tla", "../mc/MCP2.cfg", {"Mutant": '"%s"' % m}, name="model P2 windows, mutant " + m, expect_violation=True, workers=2)

    def b():
        core.validate(ctx, "P2 small and medium", core.drv(ctx), small(ctx, 150 * n))
        core.validate(ctx, "P2 windows", core.drv(ctx), windows(ctx, 24 * n))

    def c():
        core.validate(ctx, "P2 at the limits of 64 bits", core.drv(ctx), huge(ctx, 4 if n == 1 else 8))
        core.validate(ctx, "P2 far", core.drv(ctx), far(ctx, 1 if n == 1 else 6), timeout=400)

    ctx.parallel(a, b, c)
