"""C10: partial sieve functions and Legendre's prime count."""
import core
import cases as C
from math import isqrt


def dense(ctx, n):
    r = ctx.rng
    lines = []
    for x in list(range(-3, 140)) + sorted(r.sample(range(140, 6000), 60 * n)):
        for a in {0, 1, -1, r.randrange(0, 7), r.randrange(0, 12), r.randrange(0, 30), x, x + 1, max(0, x - 1), r.randrange(0, max(2, x))}:
            if a <= 4000 or a >= x:
                lines.append("phi %d %d %d" % (x, a, r.randrange(1, 4)))
            if 0 <= a <= 25:
                lines.append("%s %d %d" % (r.choice(["phis64", "phis128"]), x, a))
        lines.append("leg %d %d" % (x, r.randrange(1, 4)))
    for x in range(0, 120):
        for a in range(0, 7):
            lines.append("%s %d %d" % (r.choice(["tiny", "tiny64"]), x, a))
    r.shuffle(lines)
    return C.split("dense", lines, 8)


def medium(ctx, n):
    """x next to squares of primes, powers of two, 65535 (limit of the result cache) and multiples of
    primorials, with a around pi(sqrt x), 100 (cache limit), 6 (closed form)."""
    r = ctx.rng
    lines = []
    xs = C.interesting_x(r, 1000, 10 ** 9, n) + [65535 * p + d for p in (17, 19, 101, 541, 547) for d in (-1, 0, 1, 16)]
    xs += [30030 * k + d for k in (1, 2, 1000, 143000) for d in (-1, 0, 1)] + [2 ** 32 + d for d in (-2, -1, 0, 1)]
    for x in xs:
        piroot = None
        for a in {r.randrange(1, 9), r.choice([7, 8, 9, 10]), r.randrange(7, 110), r.choice([98, 99, 100, 101, 102]), r.randrange(100, 1300)}:
            lines.append("phi %d %d %d" % (x, a, r.randrange(1, 4)))
        if x < 2 * 10 ** 9:
            lines.append("leg %d %d" % (x, r.randrange(1, 4)))
    return C.split("medium", lines, 8)


def parallel(ctx, n):
    """Several threads: x from 2e10."""
    r = ctx.rng
    s = []
    for i in range(n):
        x = r.randrange(2 * 10 ** 10, 9 * 10 ** 10)
        t = r.choice([2, 3, 4, 7, 8])
        v = C.env(r) + ["phi %d %d %d" % (x, r.choice([r.randrange(7, 120), r.randrange(100, 3000), r.randrange(3000, 16000)]), t)]
        if i % 2:
            v.append("leg %d %d" % (x, t))
        s.append(("par/%d" % i, v))
    s.append(("setting", ["cores 8", "setthreads 4", "phi1 %d %d" % (4 * 10 ** 10 + 7, 500), "leg1 %d" % (5 * 10 ** 10 + 1)]))
    return s


def huge(ctx, n):
    """Closed forms and sums at 63, 64, 127 bits."""
    r = ctx.rng
    lines = []
    e = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]
    for x in e + [C.logu(r, 10 ** 6, 2 ** 63 - 1) for _ in range(n)]:
        lines += ["phi %d %d 1" % (x, r.randrange(1, 7)), "tiny %d %d" % (x, r.randrange(0, 7)), "tiny64 %d %d" % (x, r.randrange(0, 7)), "phis64 %d %d" % (x, r.randrange(0, 10))]
    for x in [2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 96, 10 ** 31, 2 ** 126] + [C.logu(r, 2 ** 62, 2 ** 110) for _ in range(n)]:
        lines += ["phis128 %d %d" % (x, r.randrange(0, 10)), "tiny %d %d" % (x, r.randrange(0, 7)), "phis128 %d %d" % (x, r.choice([9, 10, 11]))]
    for x in C.interesting_x(r, 100, 10 ** 7, n):
        lines += ["%s %d %d" % (r.choice(["phis64", "phis128"]), x, r.choice([r.randrange(9, 40), r.randrange(0, 20), 100]))]
    return C.split("huge", lines, 8)


def run(ctx):
    k = 1 if not ctx.thorough else 6
    dn, md, pa, hu = dense(ctx, k), medium(ctx, 60 * k), parallel(ctx, 24 * k), huge(ctx, 40 * k)

    def a():
        core.oracle(ctx, ["phi", "sum"])
        ctx.model("model/PhiCache.tla", "../mc/MCPhi.cfg", name="model result cache", workers=4)
        for m in ("signed", "index"):
            ctx.model("model/PhiCache.tla", "../mc/MCPhi.cfg", {"Mutant": '"%s"' % m, "XMax": 200}, name="model result cache, mutant " + m, expect_violation=True, workers=2)

    def b():
        core.validate(ctx, "phi small", core.drv(ctx), C.forced(ctx.rng, dn))
        core.validate(ctx, "phi medium", core.drv(ctx), C.forced(ctx.rng, md))
        core.validate(ctx, "phi parallel", core.drv(ctx), pa)

    def c():
        core.validate(ctx, "phi huge", core.drv(ctx), hu)
        core.validate(ctx, "phi wide code on small x", core.wide(ctx), [(n, ["limits %d 0 %d" % (ctx.rng.choice([0, 50, 5000]), ctx.rng.choice([0, 100, 40000]))] + v) for n, v in md[::2] + hu[::2]])

    ctx.parallel(a, b, c)
