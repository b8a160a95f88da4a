"""C02: results do not depend on threads, schedule, timing or history."""
import core
import cases as C
from props import c05, c06, c11


def tset(v):
    return "{" + ", ".join('"%s"' % i for i in v) + "}"


def histories(ctx, n, depth):
    r = ctx.rng
    res = []
    for k in range(2):
        xs = C.interesting_x(r, 10, 10 ** 7, 8) + C.interesting_x(r, 10 ** 7, 3 * 10 ** 9, 4) + [0, 1, 2, -5]
        h = ctx.simulate("model/Histories.tla", "histories %d" % k, n, depth + 2, dict(
            Xs=tset(xs), Ops=tset(["pi", "drp", "lmop", "lmo", "dr"]), Alphas=tset(["-1", "1", "1.5", "2.25", "3", "7", "40", "1000"]),
            Threads=tset([1, 2, 3, 4, 8, 13, 64]), Cores=tset([1, 2, 4, 8, 64]), Length=depth))
        res += [("hist/%d/%d" % (k, i), v) for i, v in enumerate(h)]
    return res


def matrix(ctx, n):
    """One x, every schedule, many thread counts and clocks, in one process."""
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, 10 ** 8, 10 ** 10, n)):
        for mode in range(6):
            if mode == 4:
                continue
            v = []
            for t in r.sample([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 64], 4):
                v += ["sched %d %d" % (mode, r.randrange(1, 10 ** 6)), "clock %d %d" % (r.randrange(0, 7), r.randrange(1, 10 ** 6)), "%s %d %d" % (r.choice(["pi", "pi", "lmop"]), x, t)]
            s.append(("matrix/%d/%d" % (i, mode), v))
    return s


def thresholds(ctx, n):
    """Inputs that just reach the parallel code of each part, with many threads."""
    r = ctx.rng
    s = []
    for i in range(n):
        t = r.choice([2, 3, 4, 8, 16])
        # S1 and S2_trivial: 1e6 of y or z per thread; S2_easy: y from 1e7 / work dependent; phi from 2e10
        y = r.randrange(2 * 10 ** 6, 3 * 10 ** 6)
        x = C.logu(r, y * y // 2, min(2 ** 50, y ** 3))
        s.append(("thr-S1/%d" % i, C.env(r) + ["S1 %d %d 8 %d" % (x, y, t), "S1 %d %d 8 1" % (x, y)]))
        x = C.logu(r, 2 * 10 ** 10, 10 ** 11)
        y = C.logu(r, C.iroot3(x) + 1, C.iroot3(x) * 15)
        s.append(("thr-S2/%d" % i, C.env(r) + ["%s %d %d 8 %d" % (op, x, y, t) for op in ("S2t", "S2e", "S2h")]))
        s.append(("thr-phi/%d" % i, C.env(r) + ["phi %d %d %d" % (r.randrange(2 * 10 ** 10, 4 * 10 ** 10), r.randrange(10, 400), t)]))
    return s


def forced(ctx, n):
    """Small inputs shared among many threads."""
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, 10 ** 4, 10 ** 8, n)):
        v = ["force %d" % r.choice([20, 30, 100, 500])]
        for _ in range(5):
            v += C.env(r) + ["%s %d %d" % (r.choice(["pi", "drp", "lmop", "lmo"]), x, r.choice([1, 2, 3, 5, 8, 16, 50]))]
        s.append(("forced/%d" % i, v))
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 5
    mx, th = matrix(ctx, 4 * k), thresholds(ctx, 5 * k)
    win = c05.windows(ctx, 10 * k)

    def a():
        core.oracle(ctx, ["sum"])
        ctx.model("model/P2Windows.tla", "../mc/MCP2.cfg", name="model P2 windows", workers=4)
        ctx.model("model/HardLeaves.tla", "../mc/MCHard.cfg", name="model hard leaves", workers=4)

    def b():
        hs = histories(ctx, 40 * k, 40)
        core.validate(ctx, "histories replayed", core.drv(ctx), hs)
        core.validate(ctx, "schedules and thread counts", core.drv(ctx), C.forced(ctx.rng, mx, 0.4))
        core.validate(ctx, "small inputs, many threads", core.drv(ctx), forced(ctx, 60 * k))
        core.validate(ctx, "parallel thresholds", core.drv(ctx), th)
        core.validate(ctx, "windows of P2", core.drv(ctx), win)

    def c():
        # the system's own runtime: real parallelism
        core.validate(ctx, "native threads", core.drv(ctx, shim=False), [(n, [l for l in v if not l.startswith(("sched", "cores"))]) for n, v in mx[::2]])
        core.validate(ctx, "schedules without fast division", core.drv(ctx, libdivide=False), C.forced(ctx.rng, mx[1::3], 0.5))
        d = ctx.driver("drv_lb.cpp", "lb", libdivide=True, wrap=c11.WRAP)
        if d is not None:
            recs = ctx.run_sessions(d, c11.calls(ctx, 15 * k), 150)
            obs = any(e.get("lo") for x in recs for e in x["ev"])
            for x in recs:
                x["meta"] = {"segs": obs}
            ctx.trace("trace/LBTrace.tla", recs, "hard leaves under adversarial clocks")

    ctx.parallel(a, b, c)
