"""C20: settings and errors of the sieve library."""
import cases as C
import core
from props import c19

TOP = 2 ** 64 - 1
MAX = c19.MAX
LAST = 18446744073709551557                            # largest prime below 2^64


def settings(r, n):
    L = ["getthreads cpp", "getthreads c", "getsize cpp", "getsize c", "maxstop c", "maxstop cpp", "version"]
    for _ in range(n):
        i, j = r.choice(["c", "cpp"]), r.choice(["c", "cpp"])
        v = r.choice([0, 1, -1, 7, 8, 9, 15, 16, 17, 31, 32, 4095, 4096, 4097, 8192, 2 ** 31 - 1, -2 ** 31, r.randrange(-50, 5000), 2 ** r.randrange(0, 31), 2 ** r.randrange(1, 31) - 1])
        if r.random() < 0.6:
            L += ["setsize %s %d" % (i, v), "getsize " + j]
        else:
            v = r.choice([v, r.randrange(-3, 20)])
            L += ["setthreads %s %d" % (i, v), "getthreads " + j]
        if r.random() < 0.15:
            a = C.logu(r, 1, 10 ** 7)
            L.append("count %d %d %d" % (r.randrange(1, 7), a, a + r.randrange(0, 10 ** 6)))
    return L


def errors(r, n):
    """Impossible requests, each followed by ordinary ones."""
    L = []
    for _ in range(n):
        t = r.choice(c19.TYPES[:4])
        m = MAX[t]
        p = C.prev_prime(m + 1)
        k = r.randrange(12)
        if k < 3:                                      # around the largest value of the type
            a = r.choice([m - r.randrange(0, 2000), p, p + 1, m, m + 1])
            b = r.choice([p - 1, p, p + 1, m, m + 1, C.next_prime(m), C.next_prime(m) - 1, m + r.randrange(0, 1000)])
            L.append(r.choice(["gen %s %d %d" % (t, a, b), "cgen %s %d %d %d" % (t, a, b, r.randrange(3))]))
        elif k == 3:
            L.append("%s %s %d %d" % (r.choice(["genn", "cgenn"]), t, r.randrange(0, 5), C.prev_prime(p) + r.randrange(-60, 60)))
        elif k == 4:
            L.append("%s %s %d %d" % (r.choice(["genn", "cgenn"]), r.choice(["i16", "u16"]), r.choice([3512, 3513, 6542, 6543, 7000]), 0))
        elif k == 5:
            L.append("%s %d %d" % (r.choice(["cgen", "cgenn"]), r.choice([-1, 14, 15, 99, 10 ** 6]), r.randrange(1, 50)) + " %d" % (50 + r.randrange(60)))
        elif k == 6:
            b = r.randrange(0, 10 ** 6)
            L.append(r.choice(["gen u64 %d %d", "cgen i32 %d %d", "genappend %d %d", "count 1 %d %d", "ccount 3 %d %d", "print 1 %d %d", "cprint 2 %d %d"]) % (b + r.randrange(1, 1000), b))
        elif k == 7:
            s = r.randrange(0, 50)
            L.append("%s %d %d" % (r.choice(["nth", "cnth"]), -r.randrange(1, 30), s))
        elif k == 8:
            L.append("%s %d %d" % (r.choice(["gen i64", "cgen u64"]), *(lambda a: (a, a + r.choice([-1, 0, 1])))(C.next_prime(C.logu(r, 2, 10 ** 9)))) if False else "gen u16 %d %d" % (65521 + r.randrange(-2, 3), 65521 + r.randrange(0, 20)))
        elif k == 9:
            L.append("%s u64 %d %d" % (r.choice(["genn", "cgenn"]), r.choice([2 ** 61 + r.randrange(-2, 40), 2 ** 62, 2 ** 63 - 1, 2 ** 63 + 5, TOP]), r.randrange(0, 10 ** 6)))
        else:
            a = C.logu(r, 1, 10 ** 6)
            L.append(r.choice(["count 1 %d %d" % (a, a + 5000), "cgen u32 %d %d" % (a, a + 500), "cgenn i64 20 %d" % a, "nth 5 %d" % a]))
        if r.random() < 0.3:
            a = C.logu(r, 1, 10 ** 6)
            L.append(r.choice(["cgen u32 %d %d", "gen i32 %d %d", "ccount 1 %d %d"]) % (a, a + 500))
    return L


def past(r, kind):
    """Beyond 2^64."""
    s = LAST + r.randrange(-3, 4) - r.choice([0, 0, 100])
    v = []
    x = {"nth": ["%s %d %d" % (r.choice(["nth", "cnth"]), r.randrange(1, 4), LAST - r.randrange(0, 3)), "nth 3 %d" % (TOP - r.randrange(0, 3)), "cnth 1 %d" % TOP],
         "genn": ["%s u64 %d %d" % (r.choice(["genn", "cgenn"]), r.randrange(1, 4), s), "cgenn u64 1 %d" % (LAST + r.randrange(0, 2)), "genn i64 1 %d" % (2 ** 63 - r.randrange(0, 30))],
         "gen": ["cgen u64 %d %d" % (LAST + r.randrange(0, 2), TOP), "gen u64 %d %d" % (LAST - r.randrange(0, 90), TOP), "cgen i64 %d %d" % (2 ** 63 - 26, 2 ** 63 + r.randrange(0, 60))]}[kind]
    for y in x:
        v += [y, "count 1 0 1000", "cgen u32 0 100"]
    return v


def run(ctx):
    r = ctx.rng
    t = ctx.thorough

    def a():
        core.oracle(ctx, ["iter", "tup", "fact"])
        ctx.model("model/ApiErrors.tla", "../mc/MCApi.cfg", name="model errors and settings", workers=2)
        for m in ("size", "stale", "truncate", "errno"):
            ctx.model("model/ApiErrors.tla", "../mc/MCApi.cfg", {"Mutant": '"%s"' % m}, name="model errors and settings, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_ps.cpp", lib="sieve", shim=False)
        if d is None:
            return
        S = C.split("settings", settings(r, 0), 1) + [("settings/%d" % i, settings(r, 300 if t else 120)) for i in range(8)]
        S += [("errors/%d" % i, errors(r, 300 if t else 110)) for i in range(8)]
        for i in range(4 if t else 1):
            S += [("past/%s/%d" % (k, i), past(r, k)) for k in ("nth", "genn", "gen")]
        ctx.trace("trace/PsTrace.tla", ctx.run_sessions(d, S, 300), "settings and errors", heap="6g")

    ctx.parallel(a, b)
