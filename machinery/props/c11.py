"""C11: the work distribution tiles the sieve range exactly once and terminates."""
import cases as C
from math import isqrt

WRAP = ("_ZN8primesum14S2LoadBalancer6updateEllPlS1_RNS_14aligned_vectorIdEE", "_ZN8primesum8BitSieve9pre_sieveEmm")


def calls(ctx, n):
    r = ctx.rng
    s = []
    for i in range(n):
        t = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33])
        env = ["sched %d %d" % (r.choice([0, 1, 2, 3, 5]), r.randrange(1, 10 ** 6)), "clock %d %d" % (i % 7, r.randrange(1, 10 ** 6))]
        k = i % 3
        if k == 0:
            x = C.logu(r, 10 ** 8, 4 * 10 ** 10)
            s.append(("lmop/%d" % i, env + ["setalpha 1", "lmop %d 0 0 0 %d" % (x, t)]))
        elif k == 1:
            x = C.logu(r, 10 ** 9, 2 * 10 ** 11)
            y = C.logu(r, C.iroot3(x) + 1, C.iroot3(x) * 20)
            s.append(("S2h/%d" % i, env + ["S2hz %d %d %d 8 %d" % (x, y, x // y, t)]))
        else:
            x = r.choice([10 ** 12, 10 ** 13, 10 ** 15, 10 ** 17, 10 ** 18]) + r.randrange(10 ** 6)
            y = int(x ** (1 / 3) * r.uniform(2, 8))
            z = int(max(y, (x / y) ** (2 / 3)) * r.uniform(1.02, 1.5)) + 1000
            s.append(("S2hz/%d" % i, env + ["S2hz %d %d %d %d %d" % (x, y, z, r.choice([8, 8, 6]), t)]))
    return s


def small(ctx, n):
    r = ctx.rng
    s = []
    for i in range(n):
        v = ["sched %d %d" % (r.choice([0, 1, 2, 3, 5]), r.randrange(1, 10 ** 6)), "clock %d %d" % (i % 7, r.randrange(1, 10 ** 6)), "setalpha 1"]
        for x in C.interesting_x(r, 8, 10 ** 7, 8):
            v.append("lmop %d 0 0 0 %d" % (x, r.choice([1, 2, 3, 8])))
            lo = C.iroot3(x)
            y = min(isqrt(x), max(lo, C.logu(r, max(lo, 1), max(lo, 1) * 6)))
            v.append("S2hz %d %d %d %d %d" % (x, y, x // y, min(8, C.pi_small(y)), r.choice([1, 2, 3, 8])))
        s.append(("small/%d" % i, v))
    return s


TIMES = ["0", "1e-300", "1e-9", "0.001", "0.0099", "0.01", "0.011", "0.5", "1", "1.01", "2.7", "2.72", "60", "1e5", "1e300"]


def unit(ctx, n):
    """The balancer alone, fed arbitrary times; positions and sizes as a master loop would pass them."""
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 10, 10 ** 27)
        y = max(1, int(x ** (1 / 3) * r.choice([1, 1, 2, 10, 100])))
        y = min(y, isqrt(x))
        z = x // y
        if z >= 2 ** 62:
            continue
        v = []
        for _ in range(3):
            t = r.choice([1, 2, 3, 8, 64, 1000])
            v.append("lbnew %d %d %d %d" % (x, y, z, t))
            low, spt = 1, 1
            seg = 1 << r.randrange(9, 30)
            # the driver's own loop keeps the returned sizes ("=")
            for k in range(25):
                mode = r.randrange(4)
                tm = [r.choice(TIMES) if mode == 0 else "0" if mode == 1 else "%g" % r.uniform(0.9, 1.1) if mode == 2 else "%g" % (10 ** r.uniform(-6, 6)) for _ in range(min(t, 12))]
                low = min(z, low + C.logu(r, 512, max(513, z)))
                v.append("lbupd %d %d = = %s" % (low, len(tm), " ".join(tm)))
        s.append(("unit/%d" % i, v))
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 8

    def models():
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", name="model hard leaves", workers=4)
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", {"Mutant": '"advance"'}, name="model hard leaves, advance without segments per thread", expect_violation=True, workers=2)
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", {"Mutant": '"order"'}, name="model hard leaves, merged out of order", expect_violation=True, workers=2)
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", {"Mutant": '"maxb"'}, name="model hard leaves, largest prime from the end of the interval", expect_violation=True, workers=2)
        ctx.model("model/LoadBalancer.tla", "../mc/MCLB.cfg", name="model load balancer")
        ctx.model("model/LoadBalancer.tla", "../mc/MCLB.cfg", {"Mutant": '"zero"'}, name="model load balancer, no segment left", expect_violation=True, workers=2)

    def b():
        d = ctx.driver("drv_lb.cpp", "lb", libdivide=True, wrap=WRAP)
        if d is None:
            return
        a = calls(ctx, 36 * k) + small(ctx, 16 * k)
        recs = ctx.run_sessions(d, a, 150)
        obs = any(e.get("lo") for x in recs for e in x["ev"])
        if not obs:
            ctx.skip("sieved segments are not observable in this tree: only results are compared")
        for x in recs:
            x["meta"] = {"segs": obs}
        ctx.trace("trace/LBTrace.tla", recs, "segments of real computations")
        recs = ctx.run_sessions(d, unit(ctx, 60 * k), 60)
        for x in recs:
            x["meta"] = {"segs": False}
        ctx.trace("trace/LBTrace.tla", recs, "balancer under arbitrary times")

    ctx.parallel(models, b)
