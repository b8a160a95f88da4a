"""C15: out-of-range inputs are refused, never answered wrongly."""
from fractions import Fraction as F
from math import isqrt
import core
import cases as C
import cli
from props.c14 import name, pack

WIDE = ["--pi", "-d", "--deleglise_rivat_parallel1", "--P2", "--S1", "--S2_trivial", "--S2_easy", "--S2_hard"]
LMO = ["-l", "--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5", "--lmo_parallel1"]
ALPHAS = ["1", "1.5", "2", "3.25", "10", "17.5", "100", "1000", "20000"]
TOP = 2 ** 127 - 1


def limit(a):
    """floor((2^61 a)^(3/2)) and the width of the uncertainty"""
    v = F(a) * 2 ** 61
    m = isqrt(int(v ** 3))
    return m, m // 2 ** 47 + 2


def refused(ctx, n):
    r = ctx.rng
    s = []
    for a in ALPHAS:
        m, e = limit(a)
        xs = [m + e, m + e + r.randrange(1, 10 ** 6), m + m // 1000, 2 * m, 10 * m, TOP, 2 ** 126]
        for x in xs:
            if x <= TOP:
                s.append([([str(x), r.choice(WIDE), "-a" + a] + r.choice([[], ["-s"], ["--time"]]), {})])
        s += [[([str(m + e), w, "-a" + a], {})] for w in WIDE]
    for w in WIDE:
        # the default factor is below x^(1/6)
        s += [[([x, w], {})] for x in (str(TOP), "10^38", "2^126", "2^125")]
    for w in LMO:
        for x in (2 ** 63, 2 ** 63 + 1, 2 ** 63 + r.randrange(2, 10 ** 9), 10 ** 19, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 2, 2 ** 64 + r.randrange(10, 10 ** 6), 3 * 2 ** 64 + 100, 2 ** 96 + 1000, 2 ** 126, TOP):
            s.append([([str(x), w] + r.choice([[], ["-s"]]), {})])
    return s


def malformed(ctx):
    """Numbers that do not fit 127 bits, as any option sees them."""
    r = ctx.rng
    s = []
    for e in ["1e39", "2^127", "2**128", "10^40", "1<<127", "340282366920938463463374607431768211456", "340282366920938463463374607431768211556", str(TOP + 1), str(2 ** 128 + 100), str(2 ** 129 + 5), "%d+1" % TOP, "%d*2" % (2 ** 126),
              "0x80000000000000000000000000000000", "0x1%s64" % ("0" * 32), "0-%d-2" % TOP, "99999999999999999999999999999999999999999", "2^64*2^64+10", "3^81", "10^19*10^20", "(2^100)^2", "1e30*1e30"]:
        for w in [[], [r.choice(WIDE[3:])], [r.choice(LMO)]]:
            s.append([([e] + w, {})])
        s.append([(["--number=" + e], {})])
    for e in ["2147483648", "4294967297", "1e10", "2^31", "2^32+2", "2^64+1", "0-2^31-1", "2^127"]:
        s += [[(["100", "-t" + e if e[0].isdigit() else "-t=" + e], {})], [(["100", "--status=" + e], {})]]
    return s


def below(ctx):
    """x < 1 gives 0, for every algorithm; x = 1, 2, 3 as well."""
    r = ctx.rng
    s = []
    for w in WIDE + LMO:
        for x in ["0", "0-1", "0-2", "0-1000", "0-2^31", "0-2^31-100", "0-2^32+10", "0-2^63", "0-2^63-1", "0-2^63-100", "0-2^64", "0-2^64+100", "0-2^64-100", "0-2^100", "0-3*2^64+1000", "0-%d" % TOP, "0-%d-1" % TOP, "1", "2", "3"]:
            s.append([([x, w] + r.choice([[], [], ["--time"], ["-s"], ["-a2"]]), {})])
    return s


def accepted(ctx, t):
    """At and just below the limit the computation starts (it would take years: we end it)."""
    r = ctx.rng
    s = []
    for a in ALPHAS[:7]:
        m, e = limit(a)
        for x in (m - e, m - e - r.randrange(1, 10 ** 9)):
            s.append([([str(x), r.choice(["-d", "--pi", "--P2"]), "-a" + a, "--status"], dict(limit=t))])
    for x in ("1e24", "1e23", "1e22-1", "10**21", str(2 ** 80 + r.randrange(10 ** 9))):
        s.append([([x, r.choice(["-d", "--P2"]), "-s"], dict(limit=t))])
    for w in LMO:
        s += [[([str(x), w, "-s"], dict(limit=t))] for x in (2 ** 63 - 1, 2 ** 63 - r.randrange(2, 1000))]
    return s


def library(ctx, n):
    """The same limits inside the library, next to them and beyond, with changing factors."""
    r = ctx.rng
    s = []
    for i in range(n):
        v = []
        for _ in range(12):
            a = r.choice(ALPHAS + ["-1", "0.5", "1e30"])
            v.append("setalpha " + a)
            # cut to x^(1/6): the largest x at all is about 2^122
            m, e = limit(a if float(a) >= 1 and float(a) < 1e6 else "1000000")
            xs = [x for x in (m + e, m + e + 1, 2 * m, 5 * m, TOP, TOP - 1, 2 ** 125 + r.randrange(10 ** 9)) if x <= TOP and (float(a) >= 1 and float(a) < 1e6 or x > 2 ** 123)]
            for x in r.sample(xs, min(2, len(xs))):
                v.append("%s %d %d" % (r.choice(["pi", "dr", "drp"]), x, r.randrange(1, 9)))
                v.append("pi1 %d" % x)
            for x in (0, -1, -2 ** 63 - 1, -2 ** 64 + 100, -TOP - 1, -TOP, 1, 2, 1000 + r.randrange(10 ** 6)):
                if r.random() < 0.4:
                    v.append("%s %d %d" % (r.choice(["pi", "dr", "drp", "lmo", "lmop"]), x, r.randrange(1, 9)))
                if r.random() < 0.3 and x >= -TOP:
                    v.append("pistr %d" % x)
            v.append("maxx %s" % (a if 0 < float(a) < 1e9 else "1"))
        s.append(("lib/%d" % i, v))
    return s


def run(ctx):
    k = 1 if not ctx.thorough else 4
    re, ma, be = refused(ctx, k), malformed(ctx), below(ctx)
    ac = accepted(ctx, 1.5 if not ctx.thorough else 10)
    li = library(ctx, 20 * k)

    def a():
        core.oracle(ctx, ["sum"])
        ctx.model("model/Refuse.tla", "../mc/MCRefuse.cfg", {"Top": 2500 if ctx.thorough else 700, "W": 11 if ctx.thorough else 9}, name="model ranges", workers=4)
        for m in ("wrap", "truncate", "loose"):
            ctx.model("model/Refuse.tla", "../mc/MCRefuse.cfg", {"Mutant": '"%s"' % m, "Top": 700, "W": 9}, name="model ranges, mutant " + m, expect_violation=True, workers=2)

    def b():
        p = ctx.program()
        cli.validate(ctx, "refused numbers", p, name("refused", pack(re + ma)))
        cli.validate(ctx, "numbers below one", p, name("below", pack(be)))
        cli.validate(ctx, "accepted next to the limit", p, name("accepted", ac), workers=6)
        if ctx.thorough:
            cli.validate(ctx, "refused numbers, without fast division", ctx.program(False), name("refused", pack(re + be)))

    def c():
        core.validate(ctx, "limits of the library", core.drv(ctx), li)

    ctx.parallel(a, b, c)
