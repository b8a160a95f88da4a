"""C19: counts, k-tuplets, n-th primes, generated and printed lists."""
import os
import re
import cases as C
import core
from vc import REPO

TOP = 2 ** 64 - 1
TYPES = ["i16", "u16", "i32", "u32", "i64", "u64"]
MAX = {"i16": 2 ** 15 - 1, "u16": 2 ** 16 - 1, "i32": 2 ** 31 - 1, "u32": 2 ** 32 - 1, "i64": 2 ** 63 - 1, "u64": TOP}


def interval(r, top, width):
    """An interval [a, b] below top with at most width numbers; ends at places of interest."""
    k = r.randrange(9)
    if k == 0:
        a = r.randrange(0, 40)
    elif k == 1:
        p = C.next_prime(C.logu(r, 2, int(top ** 0.5)))
        a = max(0, p * p - r.randrange(0, 300))
    elif k == 2:
        a = 30 * C.logu(r, 1, top // 30) + r.randrange(-8, 9)
    elif k == 3:
        a = r.choice([2 ** 16, 2 ** 32, 2 ** 31, 10 ** 9, 10 ** 6]) + r.randrange(-400, 100)
    else:
        a = C.logu(r, 1, top)
    a = max(0, min(a, top))
    w = r.choice([0, 1, 2, 5, 6, 12, 16, 30, r.randrange(0, 200), r.randrange(0, 3000), C.logu(r, 1, width)])
    b = min(top, a + w)
    if r.random() < 0.3:
        p = C.prev_prime(b + 1)
        b = max(a, min(p + r.randrange(-2, 19), top))
    return a, b


def tiny(r):
    """Every small interval around the first tuplets, for every kind."""
    L = []
    for k in range(1, 7):
        for a in range(0, 34):
            b = a + r.randrange(0, 40)
            L.append("%s %d %d %d" % (r.choice(["count", "ccount"]), k, a, b))
        for _ in range(10):
            a = r.randrange(0, 20)
            L.append("%s %d %d %d" % (r.choice(["print", "cprint"]), k, a, r.randrange(a, 130)))
    return L


def settings(r, c="cpp"):
    v = ["setsize %s %d" % (r.choice(["c", "cpp"]), r.choice([8, 16, 32, 64, 128, 256, 1024, 4096, r.randrange(1, 5000)]))]
    if r.random() < 0.6:
        v.append("setthreads %s %d" % (r.choice(["c", "cpp"]), r.randrange(1, 10)))
    return v


def counts(r, n, top, width):
    L = []
    for _ in range(n):
        if r.random() < 0.2:
            L += settings(r)
        a, b = interval(r, top, width)
        k = r.choice([1, 1, 2, 3, 4, 5, 6])
        x = r.random()
        if x < 0.45:
            L.append("%s %d %d %d" % (r.choice(["count", "ccount"]), k, a, b))
        elif x < 0.6:
            L.append("%s %d %d %d" % (r.choice(["print", "cprint"]), k, a, min(b, a + 300000)))
        elif x < 0.75:
            L.append("psieve %d %d %d %d" % (a, b, r.randrange(1, 9), r.choice([8, 16, 32, 128, 1024, 4096])))
        else:
            t = r.choice([u for u in TYPES if MAX[u] >= b] or ["u64"])
            b = min(b, a + 2 * 10 ** 6)
            L.append(r.choice(["gen %s %d %d" % (t, a, b), "cgen %s %d %d %d" % (t, a, b, r.randrange(3)), "genappend %d %d" % (a, b),
                               "gen0 %s %d" % (t, min(b, 10 ** 6))]))
    return L


def pieces(r, a, b):
    """A long interval, and the same interval in consecutive pieces."""
    k = r.choice([1, 1, 2, 4])
    L = ["psieve %d %d %d %d" % (a, b, r.choice([1, 2, 3, 5, 8]), r.choice([8, 32, 256, 1024, 4096])), "count %d %d %d" % (k, a, b)]
    c = sorted(r.randrange(a, b) for _ in range(4))
    for x, y in zip([a - 1] + c, c + [b]):
        L.append("count 1 %d %d" % (x + 1, y))
    return L


def nth(r, n, top):
    L = []
    for _ in range(n):
        s = r.choice([0, 0, r.randrange(0, 60), C.logu(r, 1, top), C.next_prime(C.logu(r, 2, top)) + r.randrange(-1, 2)])
        k = r.randrange(5)
        c = r.choice([0, 1, -1, 2, -2, r.randrange(-30, 30), C.logu(r, 1, 3000), -C.logu(r, 1, 3000), -r.randrange(1, 14)])
        if s < 2000 and c < 0 and k < 3:
            m = sum(1 for p in range(2, s) if C.is_prime(p))
            c = -r.choice([m, max(1, m - 1), m + 1])
        L.append("nth %d" % c if s == 0 and r.random() < 0.4 and c >= 0 else "%s %d %d" % (r.choice(["nth", "cnth"]), c, s))
    return L


def bignth(r, n, lim):
    """n-th primes that need counting, in both directions."""
    L = []
    for _ in range(n):
        c = C.logu(r, 90000, lim)
        s = C.logu(r, 1, 10 ** 8)
        if r.random() < 0.5:
            L.append("%s %d %d" % (r.choice(["nth", "cnth"]), c, s))
        else:
            s = int(c * 25 * r.uniform(0.5, 3))
            L.append("%s %d %d" % (r.choice(["nth", "cnth"]), -c, s))
    return L


def lists(r, n, top):
    L = []
    for _ in range(n):
        s = r.choice([0, r.randrange(0, 50), C.logu(r, 1, top), C.next_prime(C.logu(r, 2, top))])
        c = r.choice([0, 1, 2, 3, r.randrange(1, 300), C.logu(r, 1, 1500 if s > 10 ** 10 else 30000)])
        t = r.choice([u for u in TYPES if MAX[u] >= (s + c * 60) * 2 + 1000] or ["u64"])
        L.append(r.choice(["genn %s %d %d" % (t, c, s), "cgenn %s %d %d %d" % (t, c, s, r.randrange(3))] + (["genn0 %s %d" % (t, c)] if c * 30 < MAX[t] else [])))
    return L


def near_top(r):
    v = []
    for _ in range(2):
        a = TOP - r.randrange(0, 3000)
        b = r.choice([TOP, TOP - 1, TOP - r.randrange(0, 200)])
        v.append(r.choice(["count %d %d %d" % (r.choice([1, 2]), a, max(a, b)), "gen u64 %d %d" % (a, max(a, b)), "cgen u64 %d %d" % (a, max(a, b)), "genappend %d %d" % (a, max(a, b)), "print 1 %d %d" % (a, max(a, b)),
                           "psieve %d %d 4 64" % (a, max(a, b))]))
    a = TOP - r.randrange(40, 1500)
    v.append(r.choice(["nth %d %d" % (r.randrange(1, 40), a), "cnth %d %d" % (r.randrange(1, 40), a), "nth %d %d" % (-r.randrange(1, 40), r.choice([a, TOP, TOP - 1])),
                       "genn u64 %d %d" % (r.randrange(1, 40), a), "cgenn u64 %d %d 1" % (r.randrange(1, 40), a)]))
    return v


def small_thresholds(ctx):
    """The library with the minimum length of a thread's chunk lowered to its documented
    minimum, so that short intervals have many boundaries."""
    src = open(REPO + "/lib/primesieve/include/primesieve/config.hpp").read()
    new, n = re.subn(r"(MIN_THREAD_DISTANCE\s*=)[^;]*;", r"\1 (uint64_t) 100;", src)
    if n != 1:
        ctx.skip("small thresholds: MIN_THREAD_DISTANCE not found")
        return None
    d = ctx.sub("small")
    os.makedirs(d + "/primesieve", exist_ok=True)
    open(d + "/primesieve/config.hpp", "w").write(new)
    # quoted includes look beside the including header first: forward that one too
    return ctx.driver("drv_ps.cpp", name="drv_ps_small", lib="sieve", shim=False, libtag="small", libflags=("-DCONFIG_HPP", "-include", d + "/small.hpp")) if write_small(d, new) else None


def write_small(d, new):
    # the guard of the original header is defined, so only this text counts
    open(d + "/small.hpp", "w").write("#include <stdint.h>\n" + new.replace("#ifndef CONFIG_HPP", "#ifndef SMALL_CONFIG_HPP").replace("#define CONFIG_HPP", "#define SMALL_CONFIG_HPP"))
    return "#define SMALL_CONFIG_HPP" in open(d + "/small.hpp").read()


CTOR = "_ZN10primesieve11PrintPrimesC1ERNS_10PrimeSieveE"
SIEVE = "_ZN10primesieve11PrintPrimes5sieveEv"
REFILL = "_ZN10primesieve8iterator20generate_next_primesEv"


def abstract(ctx, r, n):
    """Division into chunks and n-th search over the stand-in for the primes (lib/AbstractSieve)."""
    objs = ctx.compile_many([(s, (), "") for s in ctx.sieve_sources()])
    rc, out, _ = ctx.sh(["nm", "--undefined-only"] + objs)
    calls = set(out.decode(errors="replace").split())
    if CTOR not in calls or SIEVE not in calls:
        ctx.skip("stand-in sieve: no call to replace")
        return
    d = ctx.driver("drv_psabs.cpp", lib="sieve", shim=False, wrap=(CTOR, SIEVE, REFILL))
    if d is None:
        return
    if any(e["e"] == "CRASH" or e["r"] == "?" for e in ctx.run_session(d, ["acount 1000 2000 1 7 3"])):
        ctx.skip("stand-in sieve: not effective")
        return
    L = []
    for _ in range(n):
        k = r.randrange(6)
        if k == 0:
            b = TOP - r.choice([0, 1, r.randrange(0, 70), C.logu(r, 1, 10 ** 18)])
            a = b - C.logu(r, 10 ** 9, b - 1000)
        elif k == 1:
            a = C.logu(r, 1000, 10 ** 12)
            b = a + C.logu(r, 2 * 10 ** 7, 10 ** 12)
        elif k == 2:                                  # a whole number of chunks, or one more or less
            a = C.logu(r, 1000, 10 ** 10)
            b = a + r.choice([10 ** 7, 10 ** 7 + 30, 10 ** 7 // 30 * 30 + 30]) * r.randrange(2, 40) + r.randrange(-40, 41)
        else:
            a = C.logu(r, 1000, 2 ** 63)
            b = a + C.logu(r, 10 ** 7, 2 ** 63)
        m = r.choice([1, 2, 7, 30, 31, 44])
        L.append("acount %d %d %d %d %d" % (a, min(b, TOP), r.choice([2, 3, 5, 7, 8]), m, r.randrange(m)))
    if REFILL in calls:
        for _ in range(n // 4):
            m = r.randrange(16, 45)
            s = min(int(2.718 ** m), 2 ** 63 + 2 ** 62) + r.randrange(10 ** 6)
            c = C.logu(r, 90000, max(10 ** 6, s // m // 2))
            k = r.randrange(5)
            if k == 0:                                # ends at 2^64 or beyond
                m = r.choice([43, 44])
                s = TOP - C.logu(r, 10 ** 5, 10 ** 17)
                c = max(1, (TOP - s) // m + r.choice([0, 1, 2, -1, r.randrange(-1000, 1000), 10 ** 9]))
            L.append("anth %d %d %d %d %d" % (c if k < 3 else -c, s, r.randrange(1, 9), m, r.randrange(m)))
    ctx.trace("trace/PsTrace.tla", ctx.run_sessions(d, C.split("abstract", L, 8), 60), "chunks and n-th search over a stand-in for the primes")


def run(ctx):
    r = ctx.rng
    t = ctx.thorough

    def a():
        core.oracle(ctx, ["iter", "tup", "fact"])
        ctx.model("model/Counting.tla", "../mc/MCCounting.cfg", {"MaxDist": 190 if t else 120}, name="model parallel counting", workers=3)
        for m in ("align", "claim", "edge"):
            ctx.model("model/Counting.tla", "../mc/MCCounting.cfg", {"Mutant": '"%s"' % m}, name="model parallel counting, mutant " + m, expect_violation=True, workers=1)
        ctx.model("model/NthPrime.tla", "../mc/MCNth.cfg", {"Top": 60 if t else 40, "MaxN": 9 if t else 6}, name="model n-th prime", workers=3)
        for m in ("two", "restart", "negative"):
            ctx.model("model/NthPrime.tla", "../mc/MCNth.cfg", {"Mutant": '"%s"' % m, "Top": 40, "MaxN": 5}, name="model n-th prime, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_ps.cpp", lib="sieve", shim=False)
        if d is None:
            return
        S = [("tiny/%d" % i, tiny(r)) for i in range(2)]
        S += C.split("counts", counts(r, 900 if t else 300, 10 ** 7, 10 ** 5), 4)
        S += C.split("middle", counts(r, 400 if t else 100, 10 ** 11, 2 * 10 ** 6), 4)
        S += C.split("far", counts(r, 120 if t else 30, 10 ** 15, 2 * 10 ** 6), 4)
        S += C.split("nth", nth(r, 900 if t else 300, 10 ** 9), 4)
        S += C.split("bignth", bignth(r, 80 if t else 20, 2 * 10 ** 6), 4)
        # n beyond 32 bits
        S += [("huge nth/%d" % i, [v]) for i, v in enumerate(["nth %d" % (2 ** 31 + r.randrange(10 ** 6)), "cnth %d %d" % (-2 ** 31 - r.randrange(2, 10 ** 6), 51 * 10 ** 9 + r.randrange(10 ** 9))][:2 if t else 1 + (r.random() < 0.3)])]
        S += C.split("lists", lists(r, 500 if t else 160, 10 ** 12), 4)
        for i in range(30 if t else 10):
            x = r.choice([0, C.logu(r, 1, 10 ** 10), C.logu(r, 10 ** 10, 10 ** 13)])
            S.append(("pieces/%d" % i, pieces(r, x, x + r.randrange(2 * 10 ** 7, 10 ** 8))))
        for i in range(4 if t else 2):
            S.append(("big/%d" % i, ["psieve %d %d %d %d" % (x, x + r.randrange(10 ** 7, 4 * 10 ** 7), r.randrange(1, 9), r.choice([8, 64, 512])) for x in [10 ** 15 + r.randrange(10 ** 15)]]))
        for i in range(6 if t else 2):
            S.append(("top/%d" % i, near_top(r)))
        ctx.trace("trace/PsTrace.tla", ctx.run_sessions(d, S, 300), "sieve library", heap="8g")

    def c():
        d = small_thresholds(ctx)
        if d is None:
            return
        L = []
        for _ in range(3000 if t else 900):
            a = r.choice([r.randrange(0, 300), r.randrange(0, 10 ** 6), C.logu(r, 1, 10 ** 9)])
            L.append("psieve %d %d %d %d" % (a, a + r.choice([r.randrange(200, 3000), r.randrange(200, 100000)]), r.randrange(2, 9), r.choice([8, 64])))
        ctx.trace("trace/PsTrace.tla", ctx.run_sessions(d, C.split("small", L, 8), 300), "many boundaries", heap="8g")

    ctx.parallel(a, b, c, lambda: abstract(ctx, r, 2400 if t else 600))
