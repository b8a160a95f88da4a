"""C08: segment sieve, wheel and prefix-sum tree."""
import cases as C


def odd(n):
    return n | 1


def a_low(r, ps):
    k = r.randrange(9)
    if k == 0:
        return 1
    if k == 1:
        return odd(r.randrange(1, 3000))
    if k == 2:                                   # next to multiples, squares and primes
        p = r.choice(ps)
        return odd(max(1, r.choice([p, p * p, p * r.randrange(1, 10 ** 6), p * 210, p * 2310]) + r.randrange(-3, 4)))
    if k == 3:
        return odd(max(1, 2 ** r.choice([16, 31, 32, 33, 53, 58, 59, 60, 61]) + r.randrange(-5000, 5000)))
    if k == 4:
        return odd(2 ** 62 - r.randrange(20000, 10 ** 6))
    if k == 5:                                   # sums just below 2^64 per machine word
        return odd(2 ** 64 // r.choice([1, 2, 4, 5, 8, 16]) % 2 ** 61 + r.randrange(-2000, 2000) + 2 ** 13)
    return odd(C.logu(r, 1, 2 ** 61))


def a_size(r, top):
    return r.choice([2, 4, 64, 126, 128, 130, 254, 256, 258, 384, 512, 640, 1024, 2 * r.randrange(1, 700), 2048 if top >= 2048 else 512, r.choice([top, 512])])


def queries(r, size, n, tree, h=None):
    out = []
    for _ in range(n):
        k = r.randrange(8)
        a = r.randrange(size)
        b = r.choice([r.randrange(size), size - 1, min(size - 1, a + r.randrange(0, 200)), a])
        if r.random() < 0.3:
            a = r.choice([0, 1, min(size - 1, 126), min(size - 1, 127), min(size - 1, 128), size - 1, max(0, b - b % 128)])
        if k < 2:
            out.append("sum %d %d" % (a, b))
        elif k < 4:
            hh = r.choice([size, h or size, r.randrange(1, size // 2 + 1) * 2])
            if max(a, b) < hh:
                out.append("sum6 %d %d %d" % (a, b, hh))
            else:
                out.append("sum6 %d %d %d" % (a, b, size))
        elif k == 4:
            out.append("get %d" % (a - a % 2))
        elif k == 5 and r.random() < 0.4:
            out.append("dump")
        elif k < 7 and tree:
            out.append("tsum %d" % a)
        elif r.random() < 0.3:
            out.append(("tunset %d" if tree else "unset %d") % (a - a % 2))
        elif tree:
            out.append("tsum %d" % b)
    return out


def large(r, top):
    """Long segments: few operations, sums over many words."""
    size = r.choice([2 ** r.randrange(12, top + 1), 2 * r.randrange(2 ** 11, 2 ** (top - 1))])
    v = ["new %d" % size]
    ps = [p for p in range(29, 200) if C.is_prime(p)]
    for _ in range(2):
        lo = a_low(r, ps)
        v.append("presieve %d %d" % (r.randrange(3, 10), lo))
        v.append("tinit")
        v.append("wheel %d %s" % (lo, " ".join(map(str, r.sample(ps, 2)))))
        for b in (1, 2):
            v.append("%s %d %d" % (r.choice(["cross", "hcross"]) if b == 2 else "tcross", b, size))
            v += ["sum 0 %d" % (size - 1)] * (b == 2) + [q for q in queries(r, size, 6, b == 1) if q != "dump"]
    return v


def session(r, thorough, kinds):
    ps = [p for p in range(11, 400) if C.is_prime(p)]
    v = []
    for _ in range(2 if thorough else 1):
        size = a_size(r, 4096 if thorough else 2048)
        v.append("new %d" % size)
        k = r.randrange(10)
        if k < 3:                                # pre-sieve alone
            for _ in range(r.randrange(2, 6)):
                v.append("presieve %d %d" % (r.randrange(10), a_low(r, [2, 3, 5, 7] + ps)))
                v += ["dump"] * (size <= 1024 or r.random() < 0.3) + queries(r, size, 8, False)
            continue
        lo = a_low(r, ps)
        c = r.randrange(4, 9)
        n = r.randrange(1, 9)
        start = [2, 3, 5, 7, 11, 13, 17, 19, 23][c]
        pool = [p for p in ps if p >= start]
        if r.random() < 0.4:
            primes = pool[:n]
        else:
            primes = sorted(set(r.sample(pool, min(n, len(pool))) + [C.next_prime(C.logu(r, 400, 2 * size + 1000)) for _ in range(2)]
                                + [C.next_prime(C.logu(r, 400, 2 ** r.choice([16, 20, 31, 32, 40])))]
                                + ([C.next_prime(int(lo ** 0.5))] if 30 < lo ** 0.5 < 2 ** 40 else [])))
        # bounded work per segment: next multiples stay below 2^63
        primes = [p for p in primes if p * 12 + lo < 2 ** 62 + 2 ** 61]
        v.append("wheel %d %s" % (lo, " ".join(map(str, primes))))
        kind = r.choice(kinds)
        live = len(primes)
        for g in range(r.randrange(2, 12 if size < 600 else 5)):
            h = size if r.random() < 0.95 else 2 * r.randrange(1, size // 2 + 1)
            v.append("presieve %d %d" % (c, lo))
            tree = kind in ("tcross", "mixed")
            if tree:
                v.append("tinit")
            for b in range(1, live + 1):
                op = kind
                if kind == "mixed":
                    if tree and b > live // 2 and r.random() < 0.3:
                        tree = False             # large primes are counted without the tree
                    op = "tcross" if tree else r.choice(["cross", "hcross"])
                v.append("%s %d %d" % (op, b, h))
                if r.random() < 0.5:
                    v += queries(r, size, r.randrange(1, 4), tree, h)
            v += queries(r, size, 4, tree, h)
            if r.random() < 0.3 or size < 300:
                v.append("dump")
            if h < size:
                break
            lo += size
            live = r.choice([live, live, live, max(1, live - 1)])
    return v


def run(ctx):
    r = ctx.rng
    n = 2000 if ctx.thorough else 320

    def a():
        ctx.model("mc/MCSieve.tla", name="model wheel and tree", workers=3)
        for m in ("tree", "wheel", "back"):
            ctx.model("mc/MCSieve.tla", constants={"Mutant": '"%s"' % m}, name="model wheel and tree, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_sieve.cpp", lib="all", shim=False, libflags=())
        if d is None:
            ctx.skip("segment sieve driver")
            return
        degraded = "drv_sieve_gomp" in ctx.degraded       # some loops are not reachable from outside
        kinds = ["cross"] if degraded else ["cross", "hcross", "tcross", "mixed"]
        S = [("sieve/%d" % i, session(r, ctx.thorough, kinds)) for i in range(n)]
        if not degraded:
            S += [("large/%d" % i, large(r, 17 if ctx.thorough else 15)) for i in range(n // 16)]
        ctx.trace("trace/SieveTrace.tla", ctx.run_sessions(d, S), "segment sieve")

    ctx.parallel(a, b)
