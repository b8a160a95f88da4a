"""C01: the printed result is exactly the sum of the primes <= x."""
import subprocess
import core
import cases as C
from props import c05, c06, c07
from math import isqrt


def dense(ctx, hi):
    """Every small x."""
    r = ctx.rng
    lines = []
    for x in range(-3, hi):
        lines.append(r.choice(["pi1 %d" % x, "pi %d %d" % (x, r.randrange(1, 9)), "pistr %d" % x, "pistrt %d %d" % (x, r.randrange(1, 5)), "pi %d 1" % x]))
    for x in range(0, hi, 7):
        lines.append("%s %d %d" % (r.choice(["dr", "drp", "lmop", "lmo"]), x, r.randrange(1, 5)))
    return C.split("dense", lines, 8)


def spread(ctx, n, lo, hi, name="spread", ops=("pi", "pi", "dr", "drp"), per=4):
    r = ctx.rng
    s, cur = [], []
    for i, x in enumerate(C.interesting_x(r, lo, hi, n)):
        if i % per == 0:
            cur = C.env(r)
            s.append(("%s/%d" % (name, i // per), cur))
        cur.append("%s %d %d" % (r.choice(ops), x, r.choice([1, 1, 2, 3, 4, 7, 8, 16])))
    r.shuffle(s)
    return s


def anchors(ctx, ks):
    """x near powers of ten, where the reference value is known."""
    r = ctx.rng
    s = []
    for k in ks:
        x = 10 ** k + r.choice([0, 1, -1, r.randrange(-10 ** 6, 10 ** 6)])
        s.append(("anchor/%d" % k, C.env(r) + ["pi %d %d" % (x, r.choice([2, 4, 8]))]))
    return s


def wide(ctx, n):
    """The 128- and 256-bit code paths on moderate x."""
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, 2, 3 * 10 ** 9, n)):
        lim = r.choice([0, 0, C.logu(r, 1, x), C.logu(r, 1, 10 ** 9)])
        s.append(("wide/%d" % i, ["limits %d %d %d" % (lim, r.choice([0, lim, C.logu(r, 1, x)]), r.choice([0, 1000, 2 ** 32 - 1]))] + C.env(r) +
                  ["pi %d %d" % (x, r.choice([1, 2, 4])), "lmop %d %d" % (x, r.choice([1, 3]))]))
    return s


def program(ctx, n):
    """The built program on the system's own OpenMP runtime: what the user sees."""
    r = ctx.rng
    b = ctx.program()
    out = []
    xs = [0, 1, 2, 3, 10, 100, 97, 2 ** 31, 2 ** 32 + 1] + C.interesting_x(r, 10, 10 ** 12, n) + [10 ** 13 + r.randrange(10 ** 6)]
    for i, x in enumerate(xs):
        args = [str(x)] + (["--threads=%d" % r.choice([1, 2, 3, 8])] if i % 2 else [])
        p = subprocess.run([b] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        t = p.stdout.decode(errors="replace")
        ok = p.returncode == 0 and t.endswith("\n") and p.stderr == b""
        out.append({"op": "pi", "a": [str(x), "1"], "r": t[:-1] if ok else "exit %d: %s" % (p.returncode, t[:200]), "e": ""})
    ctx.trace(core.TRACE, [{"name": "program", "lines": [], "ev": out}], "program output")


def run(ctx):
    k = 1 if not ctx.thorough else 5
    dn = dense(ctx, 1500 * k)
    sp = spread(ctx, 90 * k, 1500, 10 ** 9) + spread(ctx, 24 * k, 10 ** 9, 10 ** 11, per=3)
    an = anchors(ctx, [10, 11, 12, 13, 13, 14] + ([14, 15, 15, 16] if ctx.thorough else []))
    wd = wide(ctx, 60 * k)
    big = c06.big(ctx, 20 * k)[:5] + c07.huge(ctx, 6 * k) + c07.easy_huge(ctx, 4 * k) + c07.hard_cut(ctx, 4 * k) + c05.windows(ctx, 6 * k) + c05.huge(ctx, 3)[1:]

    def a():
        core.oracle(ctx, ["sum", "p2", "s1", "s2"])
        ctx.model("model/Identity.tla", "../mc/MCIdentity.cfg", {"XMax": 260 if ctx.thorough else 120}, name="model decomposition", workers=4)

    def b():
        core.validate(ctx, "every small x", core.drv(ctx), dn)
        core.validate(ctx, "pi", core.drv(ctx), sp + an, timeout=300)
        core.validate(ctx, "parts of huge x", core.drv(ctx), big)
        core.validate(ctx, "sums beyond 64 bits", core.drv(ctx, shim=False), c07.far(ctx, k), timeout=400)

    def c():
        core.validate(ctx, "pi without fast division", core.drv(ctx, libdivide=False), sp[::3] + an[:3])
        core.validate(ctx, "wide code on small x", core.wide(ctx), wd)
        core.validate(ctx, "wide code on small x, no fast division", core.wide(ctx, False), wd[::3])
        program(ctx, 12 * k)

    ctx.parallel(a, b, c)
