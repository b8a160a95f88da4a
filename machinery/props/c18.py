"""C18: the prime iterator is a cursor on the primes."""
import cases as C
import core

TOP = 2 ** 64 - 1


def place(r, top):
    """A start number of interest below top."""
    k = r.randrange(10)
    if k == 0:
        return r.randrange(0, 40)
    if k == 1:
        return r.randrange(0, 12000)                  # the table of small primes ends in here
    if k == 2:
        p = C.next_prime(C.logu(r, 2, int(top ** 0.5)))
        return max(0, p * p + r.randrange(-3, 4))
    if k == 3:
        return min(top, r.choice([2 ** 16, 2 ** 32, 2 ** 31, 10 ** 9, 8192 * 30 * r.randrange(1, 99), 30 * C.logu(r, 1, 10 ** 9)]) + r.randrange(-40, 41))
    if k == 4:
        return C.next_prime(C.logu(r, 2, top)) + r.randrange(-1, 2)
    return C.logu(r, 1, top)


def hint(r, s, top):
    k = r.randrange(8)
    if k < 3:
        return TOP
    if k == 3:
        return 0
    if k == 4:
        return s
    if k == 5:
        return max(0, s + r.randrange(-300, 300))
    if k == 6:
        return max(0, s + r.choice([-1, 1]) * C.logu(r, 1, 10 ** 7))
    return place(r, top)


def walk(r, kind, top, steps, long=3000):
    v = []
    s = place(r, top)
    c = r.randrange(3)
    if kind == "c":
        v.append("inew c" if c == 0 else "inew c %d %d" % (s, hint(r, s, top)))
    else:
        v.append("inew cpp" if c == 0 else "inew cpp %d" % s if c == 1 else "inew cpp %d %d" % (s, hint(r, s, top)))
    bias = r.choice([0.1, 0.5, 0.9])
    for _ in range(steps):
        k = r.random()
        if k < 0.72:
            v.append("inext" if r.random() < bias else "iprev")
        elif k < 0.80:
            v.append("inextn %d" % r.choice([2, 255, 256, 257, r.randrange(1, long)]))
        elif k < 0.88:
            v.append("iprevn %d" % r.choice([2, 255, 256, 257, r.randrange(1, long)]))
        elif k < 0.93:
            bias = r.choice([0.05, 0.5, 0.95])
        elif k < 0.97 or kind == "c":
            s = place(r, top)
            v.append("iskip %d %d" % (s, hint(r, s, top)) if kind == "c" or r.random() < 0.6 else "iskip %d" % s)
        else:
            v.append("imove")
    return v


def ends(r, kind):
    """Both ends of the number line."""
    v = ["inew %s" % kind, "iprev", "iprev", "inext", "inext", "iprev", "iprev", "inextn 4", "iprevn 7", "inext"]
    for s in range(0, 14):
        v += ["iskip %d %d" % (s, r.choice([TOP, 0, s, s + 5])), "inext", "iprev", "iprev", "inext", "inext",
              "iskip %d %d" % (s, r.choice([TOP, 0, s])), "iprev", "inext", "iprevn 3", "inextn 5"]
    return v


def last(r, kind):
    """Past the largest 64-bit prime and back."""
    s = TOP - r.randrange(0, 400)
    return ["inew %s %d %d" % (kind, s, r.choice([TOP, s, 0, TOP - 1])), "inext", "inext"] + ["inext"] * 13 + ["iprev", "iprev", "inext", "iskip 100 200", "inext", "iprev"]


def edge(r, kind):
    """Cursors at and next to the very end of the number line."""
    v = ["inew %s %d %d" % (kind, TOP, TOP), "inext", "inext", "iprev", "iprev"]
    for s in r.sample([TOP - 1, TOP - 57, TOP - 58, TOP - 59, TOP - 60], 2):
        v += ["iskip %d %d" % (s, h) for h in (r.choice([TOP, 0, s]),)] + [r.choice(["inext", "iprev"]) for _ in range(3)]
        v += ["iskip %d %d" % (s, r.choice([TOP, TOP - 1, 5]))] + ["inext", "inext", "inext", "iprev"]
    return v + ["iskip 5 9", "inext", "iskip %d %d" % (TOP, TOP), "inext", "iskip 30 1", "inext"]


def run(ctx):
    r = ctx.rng
    t = ctx.thorough

    def a():
        core.oracle(ctx, ["iter"])
        ctx.model("model/PrimeIterator.tla", "../mc/MCIter.cfg", {"Top": 60 if t else 36}, name="model iterator", workers=4)
        for m in ("overlap", "below", "zero", "front"):
            ctx.model("model/PrimeIterator.tla", "../mc/MCIter.cfg", {"Mutant": '"%s"' % m, "Top": 24}, name="model iterator, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_ps.cpp", lib="sieve", shim=False)
        if d is None:
            return
        S = []
        for i in range(96 if t else 32):
            S.append(("walk/%d" % i, walk(r, r.choice(["c", "cpp"]), r.choice([2000, 10 ** 5, 10 ** 7, 10 ** 10]), 400)))
        for i in range(16 if t else 4):
            S.append(("far/%d" % i, walk(r, r.choice(["c", "cpp"]), 10 ** 14, 60, 800)))
        for i in range(12 if t else 3):
            S.append(("remote/%d" % i, walk(r, r.choice(["c", "cpp"]), r.choice([10 ** 16, 10 ** 18]), 14, 400)))
        S += [("ends/" + k, ends(r, k)) for k in ("c", "cpp")]
        S += [("last/" + k, last(r, k)) for k in ("c", "cpp")]
        S += [("edge/" + k, edge(r, k)) for k in ("c", "cpp")]
        # long walks over several intervals of the generator, in both directions
        for i in range(8 if t else 2):
            k = r.choice(["c", "cpp"])
            s = C.logu(r, 1, 10 ** 8)
            S.append(("long/%d" % i, ["inew %s %d %d" % (k, s, hint(r, s, 10 ** 8)), "inextn %d" % r.randrange(100000, 600000), "iprevn %d" % r.randrange(100000, 900000), "inextn %d" % r.randrange(10000, 300000), "iprev", "inext"]))
        S.append(("two/0", sum((["iskip %d %d" % (s, TOP), "inext", "iprev", "iprev"] for s in range(11900, 12120, 3)), ["inew cpp"])))
        ctx.trace("trace/PsTrace.tla", ctx.run_sessions(d, S, 200), "iterators")

    ctx.parallel(a, b)
