"""C17: no data races."""
import core
import cases as C

TRACE = "trace/RaceTrace.tla"
WRAP = core.WRAP + ["memcpy", "memmove", "memset", "free", "realloc", "__cxa_guard_acquire", "__cxa_guard_release",
                    "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]
SHIM = ("-D_GLIBCXX_DEBUG", "-Dpthread_mutex_lock=__real_pthread_mutex_lock", "-Dpthread_mutex_unlock=__real_pthread_mutex_unlock")


def head(r, cores=8):
    return ["cores %d" % cores, "setprint %d" % (r.random() < 0.5)] + C.env(r)


def parts(ctx, n):
    """Every part with its own number of threads, work handed out in small pieces."""
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 10 ** 4, 3 * 10 ** 7)
        y = C.iroot3(x) + r.randrange(1, max(2, C.iroot3(x)))
        c = r.randrange(0, 5) if y > 20 else 2
        for op in ("S1", "S2t", "S2e", "S2h"):
            v = head(r) + ["force %d" % r.choice([1, 5, 20, 100])]
            v.append("%s %d %d %d %d" % (op, x, y, max(c, 4) if op == "S2h" else c, r.randrange(2, 9)))
            s.append(("%s/%d" % (op, i), v))
    # beyond 64 bits: the wide types
    for i in range(max(2, n // 3)):
        x = C.logu(r, 2 ** 63, 2 ** 66)
        y = C.iroot3(x) + r.randrange(1, 1000)
        s.append(("S2t wide/%d" % i, head(r) + ["force 1000", "S2t %d %d 7 %d" % (x, y, r.randrange(2, 7))]))
    return s


def rest(ctx, n):
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 10 ** 4, 5 * 10 ** 6)
        t = r.randrange(2, 9)
        f = ["force %d" % r.choice([1, 10, 50])]
        s.append(("pi/%d" % i, head(r) + f + ["pi %d %d" % (x, t)]))
        s.append(("lmo/%d" % i, head(r) + f + ["lmop %d %d" % (x, t)]))
        s.append(("drp/%d" % i, head(r) + f + ["drp %d %d" % (x, t)]))
        s.append(("phi/%d" % i, head(r) + f + ["phi %d %d %d" % (x, r.randrange(7, 160), t), "leg %d %d" % (x // 10, t)]))
        s.append(("factor/%d" % i, head(r) + ["force %d" % r.choice([50, 500])] + ["factor%d %d %d" % (r.choice([16, 32]), r.randrange(1000, 60000), t)]))
        # the limits of the threads are products of two primes
        b, u = r.choice([11, 13, 17, 23]) * r.choice([11, 19, 29, 37, 101]), r.randrange(2, 6)
        s.append(("factor limits/%d" % i, head(r) + ["force 50", "factor%d %d %d" % (r.choice([16, 32]), (b - 1) * u, u)]))
        s.append(("status/%d" % i, ["cores 8", "setprint 1", "sched %d %d" % (r.choice([1, 2, 2, 3, 5]), r.randrange(1, 10 ** 6)), "clock %d %d" % (r.choice([3, 4, 6]), r.randrange(1, 10 ** 6)),
                                   "status %d %d %d" % (x, r.randrange(10, 120), t)]))
    return s


def windows(ctx, n):
    """Second partial sieve function: a thread handles at least 2^23 numbers."""
    r = ctx.rng
    s = []
    for i in range(n):
        y = r.randrange(2000, 6000)
        z = r.randrange(2 ** 23 + 10 ** 6, 3 * 2 ** 23 + 10 ** 6)
        x = min(y * z, y ** 3)
        y = max(y, C.iroot3(x))
        if x // y < 2 ** 23 + 1000:
            x, y = 10 ** 11, 5000
        s.append(("P2/%d" % i, head(r) + ["P2 %d %d %d" % (x, y, r.randrange(2, 5))]))
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 6
    groups = [("parts", parts(ctx, 16 * k)), ("other regions", rest(ctx, 12 * k)), ("windows", windows(ctx, 4 * k))]

    def a():
        ctx.model("model/OmpRace.tla", "../mc/MCRace.cfg", {"Steps": 8} if ctx.thorough else {}, name="model clocks", workers=4)
        ctx.model("model/OmpRace.tla", "../mc/MCRace.cfg", {"Steps": 5 if not ctx.thorough else 6, "Locks": 1, "Accesses": 3}, name="model scan", workers=4)
        ctx.model("model/OmpRace.tla", "../mc/MCRace.cfg", {"Steps": 5 if not ctx.thorough else 7, "Locks": 1, "Accesses": 2, "Threads": 3}, name="model three threads", workers=4)
        ctx.model("model/OmpRace.tla", "../mc/MCRace.cfg", {"Mutant": '"release forgets"'}, name="model, mutant release forgets", expect_violation=True, workers=2)

    def b(ld):
        d = ctx.driver("drv_race.cpp", "race" + ("" if ld else "_nold"), libdivide=ld, wrap=WRAP, flags=("-fsanitize=thread",), libflags=("-fsanitize=thread",), libtag="race", more=("racerec.cpp",), shimflags=SHIM)
        if d is None:
            return
        for name, g in groups:
            if not ld:
                g = [x for x in g if x[0].startswith("S2e")]
            if g:
                ctx.trace(TRACE, ctx.run_sessions(d, g, 200), name + ("" if ld else ", without fast division"))

    ctx.parallel(a, lambda: b(True), lambda: b(False))
