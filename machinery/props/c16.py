"""C16: progress output."""
import core
import cases as C
import cli
from props.c14 import name

WRAP = ["_ZN8primesum8get_timeEv"] + core.WRAP
TRACE = "trace/StatusTrace.tla"


def objects(ctx, n):
    """The status object driven by several threads."""
    r = ctx.rng
    s = []
    for i in range(n):
        v = []
        for _ in range(6):
            x = r.choice([10 ** 6, 10 ** 12, 10 ** 21 - 1, 10 ** 21, 10 ** 21 + 10 ** 8, 10 ** 22, 10 ** 23 - 10 ** 9, 10 ** 23 - 1, 10 ** 23, 10 ** 23 + 10 ** 9, 4 * 10 ** 23, 10 ** 25, 10 ** 31])
            limit = r.choice([1, 2, 3, 7, 10, 100, 1000, 10 ** 6, C.logu(r, 1, 2 ** 62)])
            if i % 3 and r.random() < 0.5:   # otherwise the default precision
                v.append("setprec %d" % r.randrange(-2, 8))
            v += ["sched %d %d" % (r.choice([0, 1, 2, 2, 2, 2, 3, 5]), r.randrange(1, 10 ** 6)), "clock %d %d" % (r.choice([1, 2, 3, 3, 4, 4, 5, 6]), r.randrange(1, 10 ** 6))]
            if r.random() < 0.3 and limit <= 1000:
                v.append("statusdyn %d %d %d" % (x, min(limit, 60), r.randrange(1, 7)))
            else:
                k = r.randrange(1, 6)
                q = []
                for _ in range(k):
                    xs = sorted(r.choice([0, limit, r.randrange(0, limit + 1), r.randrange(0, limit + 1)]) for _ in range(r.randrange(1, 7)))
                    if r.random() < 0.1:
                        xs.append(limit + r.randrange(1, 5))
                    q.append(",".join(map(str, xs)))
                v.append("status %d %d %s" % (x, limit, " ".join(q)))
        s.append(("object/%d" % i, v))
    return s


def skew(ctx, n):
    """Estimates of the progress in order."""
    r = ctx.rng
    s = []
    for i in range(n):
        limit = r.choice([1, 2, 10, 1000, 10 ** 9, 2 ** 62, 10 ** 20])
        xs = sorted({0, 1, limit, limit + 1, 2 * limit} | {r.randrange(0, limit + 1) for _ in range(40)} | {limit * j // 100 for j in range(0, 101, 3)})
        s.append(("skew/%d" % i, ["skew %d %d" % (x, limit) for x in xs]))
    return s


def phases(ctx, n):
    """Whole phases, quickly running clocks: many reports."""
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 10 ** 3, 3 * 10 ** 8)
        v = ["cores 8", "force %d" % r.choice([20, 100, 500]), "setprint %d" % (r.random() < 0.85)]
        if r.random() < 0.8:
            v.append("setprec %d" % r.randrange(0, 6))
        for y, c in C.ycs(r, x, 2):
            v += ["sched %d %d" % (r.choice([0, 1, 2, 2, 3, 5]), r.randrange(1, 10 ** 6)), "clock %d %d" % (r.choice([3, 4, 4, 6]), r.randrange(1, 10 ** 6))]
            t = r.randrange(1, 9)
            for op in r.sample(["S2e", "S2e", "S2h", "S2t", "S1"], 3):
                v.append("%s %d %d %d %d" % (op, x, y, c, t))
            v.append("P2 %d %d %d" % (x, y, t))
        v.append("pi %d %d" % (x, r.randrange(1, 9)))
        s.append(("phase/%d" % i, v))
    # several windows: reports of the second partial sieve function
    for i in range(max(3, n // 6)):
        x = C.logu(r, 10 ** 11, 10 ** 12)
        y = C.iroot3(x) + r.randrange(0, 500)
        s.append(("windows/%d" % i, ["cores 8", "setprint 1", "setprec %d" % r.randrange(0, 6)] + C.env(r) + ["P2 %d %d %d" % (x, y, r.randrange(1, 4))]))
    return s


def program(ctx, n):
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 10 ** 9, 5 * 10 ** 11)
        s.append([([str(x), r.choice(["--P2", "--S2_easy", "-d", "--P2"]), r.choice(["-s", "-s0", "-s1", "--status=2", "--status=5"]), "-a1", "-t%d" % r.choice([1, 2, 4, 8])], dict(cores=8))])
    for x in ("1e21-1", "1e21", "1e22", "1e23-1", "1e23", "1e24"):
        s.append([([x, r.choice(["--P2", "--P2", "-d"]), r.choice(["-s", "-s", "-s3"]), "-t1", "-a1"], dict(limit=2.5 if not ctx.thorough else 12))])
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 6
    ob, sk, ph, pr = objects(ctx, 60 * k), skew(ctx, 6 * k), phases(ctx, 30 * k), program(ctx, 8 * k)

    def a():
        core.oracle(ctx, ["sum", "p2", "s1", "s2"])
        ctx.model("model/S2Status.tla", "../mc/MCStatus.cfg", {} if ctx.thorough else {"Max": 2}, name="model reports", workers=4)
        if ctx.thorough:
            ctx.model("model/S2Status.tla", "../mc/MCStatus.cfg", {"Threads": 3, "Reports": 1}, name="model reports, three threads", workers=8)
        for m in ("unlocked check", "no comparison", "stale"):
            ctx.model("model/S2Status.tla", "../mc/MCStatus.cfg", {"Mutant": '"%s"' % m}, name="model reports, mutant " + m, expect_violation=True, workers=2)

    def b():
        d = ctx.driver("drv_status.cpp", "status", libdivide=True, wrap=WRAP)
        if d is not None:
            ctx.trace(TRACE, ctx.run_sessions(d, ob + sk, 60), "status object")
            ctx.trace(TRACE, ctx.run_sessions(d, ph, 100), "phases with progress")
        d = ctx.driver("drv_status.cpp", "status_nold", libdivide=False, wrap=WRAP)
        if d is not None:
            ctx.trace(TRACE, ctx.run_sessions(d, ph[::4], 100), "phases with progress, without fast division")

    def c():
        cli.validate(ctx, "program", ctx.program(), name("program", pr), workers=4)

    ctx.parallel(a, b, c)
