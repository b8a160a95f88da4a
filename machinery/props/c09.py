"""C09: lookup tables."""
import cases as C
import core

WRAP = ["_ZN8primesum17ideal_num_threadsEill"]
COPRIME = [r for r in range(1, 211) if r % 2 and r % 3 and r % 5 and r % 7]


def maxes(r, n, top):
    out = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 24, 25, 26, 48, 49, 50, 62, 63, 64, 65, 120, 121, 122, 126, 127, 128, 167, 168, 169, 170]
    for _ in range(n):
        out.append(C.logu(r, 10, top))
        p = C.next_prime(C.logu(r, 2, int(top ** 0.5)))
        out += [p * p - 1, p * p, p * p + 1, C.next_prime(C.logu(r, 10, top)), 64 * r.randrange(1, top // 64) + r.randrange(-1, 2)]
    return [m for m in out if m <= top]


def windows(r, top, n, marks=()):
    """Windows of a table for 1..top: both ends, random places and places of interest."""
    out = []
    for c in [2, top] + [r.randrange(2, top + 1) for _ in range(n)] + list(marks):
        lo = max(2, min(top, c) - r.randrange(0, 400))
        out.append((lo, min(top, lo + r.randrange(0, 800))))
    return [(a, b) for a, b in out if a <= b]


def plain(r, n, top):
    L = []
    for m in maxes(r, n, top):
        k = r.choice(["i32", "u32", "i64", "u64", "def"])
        if m <= 300:
            L += ["pitable %d 0 %d text" % (m, m), "pigen %d 0 %d text" % (m, m), "primes %s %d 2 %d text" % (k, m, m), "sums %s %d 2 %d text" % (r.choice(["u64", "i64", "i128"]), max(m, 2), max(m, 2)), "lpf1 %d" % m]
            if m >= 2:
                L += ["moebius %d 1 %d text" % (m, m), "lpf %d 2 %d text" % (m, m)]
        else:
            L += ["pitable %d 0 %d digest" % (m, m), "primes %s %d 2 %d digest" % (k, m, m), "sums %s %d 2 %d digest" % (r.choice(["u64", "i64", "i128"]), m, m)]
            if r.random() < 0.5:
                L += ["pigen %d 0 %d digest" % (m, m), "moebius %d 1 %d digest" % (m, m), "lpf %d 2 %d digest" % (m, m), "lpf1 %d" % m]
        L += ["primecount %d" % m]
    for k in [1, 2, 3, 4, 5, 6, 10, 100, 1000] + [C.logu(r, 1, 60000) for _ in range(n)]:
        L.append("nprimes %d" % k)
    return L


def large(r, top):
    """Big tables, compared in windows and as a whole."""
    L = []
    for _ in range(2):
        m = r.randrange(top // 4, top)
        for a, b in windows(r, m, 3):
            L.append("pitable %d %d %d digest" % (m, a, b))
        m = r.randrange(top // 8, top // 2)
        L += ["pitable %d 0 %d digest" % (m, m), "primes %s %d 2 %d digest" % (r.choice(["i32", "u32", "i64", "u64", "def"]), m, m), "sums %s %d 2 %d digest" % (r.choice(["u64", "i128"]), m, m), "primecount %d" % m]
    m = r.randrange(top // 16, top // 8)
    L += ["moebius %d 1 %d digest" % (m, m), "lpf %d 2 %d digest" % (m, m), "pigen %d 0 %d digest" % (m, m)]
    return L


def factors(r, n, top):
    """Factor tables shared among threads of all numbers; every boundary between threads."""
    out = []
    for _ in range(n):
        y = r.choice([r.randrange(8, 400), C.logu(r, 8, top), C.next_prime(C.logu(r, 11, int(top ** 0.5))) ** 2 + r.randrange(-1, 2), 210 * r.randrange(1, top // 210) + r.randrange(-12, 13)])
        y = max(1, y)
        v = C.env(r, clock=False)
        f = r.choice([0, 1, 3, 50, 500, max(1, y // 7), max(1, y // 3)])
        v.append("force %d" % (0 if f == 0 else max(f, y // 60 + 1)))
        th = r.randrange(1, 17)
        bits = r.choice(["16", "32"])
        if 11 <= y <= 2000 and r.random() < 0.4:
            v.append("factor %s %d %d 11 %d text" % (bits, y, th, y))
        elif y < 11:
            v.append("factormake %d %d" % (y, th))
        else:
            v.append("factor %s %d %d 11 %d digest" % (bits, y, th, y))
        out.append(v)
    return out


def parallel(r, y, th, bits):
    d = -(-y // th)
    marks = [1 + d * t + o for t in range(1, th) for o in (-1, 0, 300)]
    v = C.env(r, clock=False) + ["force 0"]
    for a, b in windows(r, y, 6, marks):
        if b >= 11:
            v.append("factor %s %d %d %d %d digest" % (bits, y, th, max(a, 11), b))
    v.append("factor %s %d %d 11 %d digest" % (bits, y, th, y))
    return v


def index(r, n):
    L = []
    for _ in range(n):
        x = r.choice([r.randrange(1, 1000), C.logu(r, 1, 2 ** 63 - 1), 210 * C.logu(r, 1, 2 ** 63 // 210 - 1) + r.choice([-1, 0, 1, 2, 10, 11, 12, 209]), 2 ** 63 - 1 - r.randrange(500)])
        x = max(1, min(x, 2 ** 63 - 1))
        q, m = divmod(x, 210)
        i = 48 * q + sum(1 for u in COPRIME if u <= m) - 1
        L += ["%s %d" % (r.choice(["fidx", "toidx"]), x), "fnum %d" % max(0, i + r.choice([0, 0, 1, -1]) if x < 2 ** 62 else i)]
    for x in range(1, 212):
        L.append("fidx %d" % x)
    for i in range(0, 98):
        L.append("fnum %d" % i)
    return L


def run(ctx):
    r = ctx.rng
    t = ctx.thorough

    def a():
        core.oracle(ctx, ["fact", "iter", "table", "sum"])
        ctx.model("model/FactorTable.tla", "../mc/MCFactor.cfg", {"YMax": 195 if t else 130}, name="model factor table", workers=3)
        for m in ("low", "high", "prime", "sqrt"):
            ctx.model("model/FactorTable.tla", "../mc/MCFactor.cfg", {"Mutant": '"%s"' % m, "YMax": 90}, name="model factor table, mutant " + m, expect_violation=True, workers=1)
        ctx.model("model/FactorTable.tla", "../mc/MCFactor.cfg", {"TMax": 7, "YMax": 130}, name="model factor table, beyond its maximum", expect_violation=True, workers=1)
        ctx.model("model/Tables.tla", "../mc/MCTables.cfg", name="model tables", workers=2)
        for m in ("sqrt", "start", "mask"):
            ctx.model("model/Tables.tla", "../mc/MCTables.cfg", {"Mutant": '"%s"' % m, "MaxN": 80}, name="model tables, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_tables.cpp", wrap=WRAP)
        if d is None:
            return
        S = C.split("plain", plain(r, 120 if t else 40, 200000), 8)
        S += C.split("index", index(r, 9000 if t else 1200), 4)
        S += [("factor/%d" % i, sum(factors(r, 80 if t else 40, 300000), [])) for i in range(12)]
        S.append(("limits", ["fmax 16", "fmax 32"] + ["factorover %d %d" % (o, k) for o, k in ((1, 1), (2, 8), (10 ** 6, 2), (2 ** 40, 1), (2 ** 62, 3))]))
        ctx.trace("trace/TableTrace.tla", ctx.run_sessions(d, S), "tables")
        S = [("large/%d" % i, large(r, 60000000 if t else 20000000)) for i in range(3 if t else 1)]
        for i in range(10 if t else 4):
            S.append(("parallel/%d" % i, parallel(r, r.randrange(20000000, 90000000 if t else 34000000), r.choice([2, 3, 4, 8]), r.choice(["16", "32"]))))
        ctx.trace("trace/TableTrace.tla", ctx.run_sessions(d, S), "large tables", heap="8g")

    ctx.parallel(a, b)
