"""C22: integer roots, divisions, powers and other integer helpers."""
from math import isqrt
import cases as C

T = {"i32": 2 ** 31 - 1, "u32": 2 ** 32 - 1, "i64": 2 ** 63 - 1, "u64": 2 ** 64 - 1, "i128": 2 ** 127 - 1, "u128": 2 ** 128 - 1}


def iroot(n, x):
    lo, hi = 0, 1 << (x.bit_length() // n + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** n <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def near_powers(r, n, mx, k):
    """x next to n-th powers, over the whole range of the type."""
    top = iroot(n, mx)
    out = set()
    for b in [top, top - 1, top // 2, top // 3] + [max(1, r.randrange(0, top + 1)) for _ in range(k)] + [1 << r.randrange(0, top.bit_length()) for _ in range(k // 2)] \
            + [C.logu(r, 1, top) for _ in range(k)] + [1, 2, 3]:
        for d in (-1, 0, 1, r.randrange(-5, 6)):
            out.add(b ** n + d)
            out.add((b + 1) ** n - 1)
    out |= {0, 1, 2, 3, mx, mx - 1, mx - r.randrange(1000), mx // 2}
    # floating point neighbourhood: multiples of large powers of two, 2^53
    for _ in range(k // 2):
        e = r.randrange(0, mx.bit_length())
        out |= {(1 << e) + d for d in (-1, 0, 1)}
    return [x for x in out if 0 <= x <= mx]


def run(ctx):
    r = ctx.rng
    k = 150 if ctx.thorough else 25
    L = []
    for t, mx in T.items():
        # isqrt of the largest types: for types up to 32 bits r * 2 and r * r stay in the type
        L += ["isqrt %s %d" % (t, x) for x in near_powers(r, 2, mx, 4 * k)]
        for n in (2, 3, 4, 5, 6):
            L += ["iroot %s %d %d" % (t, n, x) for x in near_powers(r, n, mx, k)]
        for _ in range(8 * k):
            x = r.choice([r.randrange(0, mx + 1), C.logu(r, 1, mx), mx - r.randrange(100), r.randrange(0, 300)])
            L.append("np2 %s %d" % (t, x))
            L.append("pp2 %s %d" % (t, x))
        for e in range(0, mx.bit_length()):
            for d in (-1, 0, 1):
                x = (1 << e) + d
                if 0 <= x <= mx:
                    L.append("np2 %s %d" % (t, x))
                    L.append("pp2 %s %d" % (t, x))
        for _ in range(4 * k):
            n = r.randrange(0, 12)
            L.append("ipow %s %d %d" % (t, r.choice([r.randrange(0, 20), iroot(max(n, 1), mx) - r.choice([0, 0, 1]), 0, 1, 2]), n))
            lo, hi = sorted([r.randrange(0, mx + 1), C.logu(r, 1, mx)])
            L.append("betw %s %d %d %d" % (t, lo, r.choice([lo, hi, max(0, lo - 1), min(mx, hi + 1), C.logu(r, 1, mx), (lo + hi) // 2]), hi))
        for t2, mx2 in T.items():
            for _ in range(3 * k):
                b = r.choice([C.logu(r, 1, mx2), r.randrange(1, 200), mx2 - r.randrange(10), 128, 1])
                q = r.randrange(0, mx // b + 1)
                x = min(mx, max(0, r.choice([q * b, q * b + 1, q * b - 1, C.logu(r, 1, mx), mx - b, mx - b - 1, mx])))
                L.append("ceil %s %s %d %d" % (t, t2, x, b))
                # fast_div: divisor type not wider; value below the limits of both types
                if mx2 <= mx or t2[1:] == t[1:]:
                    y = min(b, mx) if t2[1:] == t[1:] else b
                    xs = [x, min(mx, 2 ** 32 - 1), min(mx, 2 ** 32), min(mx, 2 ** 64 - 1), min(mx, 2 ** 64), min(mx, 2 ** 64 + 1), mx, C.logu(r, 1, mx)]
                    for x in r.sample(xs, 3):
                        L.append("fdiv %s %s %d %d" % (t, t2, x, y))
    for _ in range(20 * k):
        L.append("pop %d" % r.choice([r.getrandbits(64), r.getrandbits(64) & r.getrandbits(64), (1 << r.randrange(65)) - 1, 2 ** 64 - 1 - (1 << r.randrange(64))]))
        L.append("isquare %d" % r.choice([r.randrange(-3037000499, 3037000500), r.randrange(-100, 100), 3037000499]))
        L.append("ilog i64 %d" % C.logu(r, 1, 2 * 10 ** 9))
        x, y, z = [r.choice([-1, 1]) * C.logu(r, 1, 2 ** 63 - 1) for _ in range(3)]
        X, w = r.choice([-1, 1]) * C.logu(r, 1, 2 ** 126), r.choice([-1, 1]) * C.logu(r, 1, 2 ** 31 - 1)
        for f in ("min", "max"):
            big = X if (f == "min") == (X < y) or True else X
            # the result type of min is the narrower one: its value is one of the narrow operands or fits
            if f == "max" or abs(X) < 2 ** 63 or X > y:
                L.append("%s i128,i64 %d %d" % (f, X, y))
            if f == "max" or abs(x) < 2 ** 31 or x > w:
                L.append("%s i64,i32 %d %d" % (f, x, w))
            L.append("%s i64,i64,i64 %d %d %d" % (f, x, y, z))
            if f == "max" or abs(X) < 2 ** 63 or X > min(y, z):
                L.append("%s i128,i64,i64 %d %d %d" % (f, X, y, z))
    for e in (2.718281828459045,):
        v = 1.0
        for j in range(22):
            for d in (-1, 0, 1, 2):
                if 1 <= int(v) + d <= 2 * 10 ** 9:
                    L.append("ilog %s %d" % (r.choice(["i64", "i128", "u32"]), int(v) + d))
            v *= e
    for n in (1, 2, 3, 10, 100, 1229):
        for x in [0, 1, 2, 3, 4, 5, 28, 29, 30, 540, 541, 542, 9972, 9973, 9974, 100000] + [r.randrange(0, 12000) for _ in range(k)]:
            L.append("pibs %d %s %d" % (n, r.choice(["i32", "i64"]), x))
    for j in range(1, 22):
        for d in (-1, 0, 1):
            x = int(2.718281828459045 ** j) + d
            if x >= 1:
                L.append("ilog u64 %d" % x)
    r.shuffle(L)

    def a():
        ctx.model("mc/MCBigInt.tla", name="overrides BigInt", workers=2)
        ctx.model("model/Roots.tla", "../mc/MCRoots.cfg", name="model root correction", workers=4)
        for m in ("up", "down", "clamp"):
            ctx.model("model/Roots.tla", "../mc/MCRoots.cfg", {"Mutant": '"%s"' % m, "Max": 127}, name="model root correction, mutant " + m, expect_violation=True, workers=2)

    def b():
        d = ctx.driver("drv_arith.cpp", lib="none", shim=False)
        if d is not None:
            ctx.trace("trace/ArithTrace.tla", ctx.run_sessions(d, C.split("imath", L, 8)), "integer helpers")

    def c():
        # x87 style excess precision is not available here; the code must not depend on -O level
        d = ctx.driver("drv_arith.cpp", "arith_O0", lib="none", shim=False, flags=("-O0", "-DNO_CALC"))
        if d is not None:
            ctx.trace("trace/ArithTrace.tla", ctx.run_sessions(d, C.split("imath0", L[::3], 8)), "integer helpers, unoptimised")

    ctx.parallel(a, b, c)
