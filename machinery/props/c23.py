"""C23: the command line program of the sieve library."""
import core
import cases as C
import cli
from props.c14 import name, pack

TOP = 2 ** 64
NUM = ["0", "1", "2", "3", "5", "6", "7", "11", "13", "30", "31", "100", "1000", "12345", "1e5", "10**6", "1e6", "99991", "2^17", "--number=5000", "--number=1e4", "--number100", "1000-1", "7*11*13", "0xff", "1<<10", "2e6", "(5)", "104729", "1e7"]
SET = ["-q", "--quiet", "--time", "--no-status", "-t1", "-t3", "--threads=2", "-t=4", "--threads=100", "-t0", "-t=-5", "-t2*2", "-s8", "-s16", "--size=64", "-s100", "-s=1000", "-s5000", "-s1", "--size=4095", "-s0", "--size=-7", "-s=2^31-1", "-t2147483647"]
ACT = ["-c", "--count", "-c1", "-c2", "--count=3", "-c45", "-c6", "-c123456", "--count=66", "-c=2^4-2", "-p", "--print", "-p1", "-p2", "--print=3", "-p4", "-p5", "-p6", "-n", "--nth-prime", "--nthprime", "-d100", "--dist=1e5", "-d=0", "-d2^10", "--dist=30"]
PAIR = [["-t", "3"], ["--threads", "2"], ["-s", "32"], ["--size", "256"], ["-d", "1000"], ["--dist", "10^4"], ["-c", "2"], ["--count", "15"], ["-p", "3"], ["--print", "2"], ["-c", "1+1"], ["-p", "1"], ["--number", "100"]]
BAD = ["--bogus", "", "-", "--", "---", "-x", "-5", "+", "~", "--Count", "-C", "-t", "--threads", "-tx", "-t=x", "-t=", "-s", "--size", "-s=", "-sx", "--size=x", "-d", "--dist=", "-dx", "--dist=-1", "-d=0-1", "--number", "--number=", "--number=x", "--number=-1", "-c7", "-c0", "--count=8", "-c12345678", "--count=-1", "--count=x", "-p0", "-p7", "-p12",
       "--print=x", "--print=0", "-n5", "--nth-prime=3", "-q5", "--time=1", "--no-status=0", "--no-status1", "1e", "1.5", "5x", "5 5", "12(", "0x", "x5", "primes", "1,000", "=", "=5", "-t2x", "-t99999999999", "-s4294967304", "-t2^32+1", "-c4294967297", "-p2^32+1", "-t2^31", "1e20", "2^64", str(TOP), str(TOP + 100), "3e19", "1e1000",
       "10^20", "1<<64", "1<<65", str(TOP - 1) + "+1", "0-1", "5-6", "1e19*2", "(2^32)^2+100", "--number=2^64", "-d2^64", "--dist=1e20", "-hh", "--version1.7", "--help=", "-v2", "--cpu", "--cpu-info2", "--tes", "-test", "-time", "--nth_prime", "-nth-prime", "--quie", "-qq", "-pc", "-c2p", "--dist100", "-td5"]
END = ["-h", "--help", "-v", "--version", "--cpu-info"]


def lists(ctx, n):
    """Behaviours of the command line model."""
    r = ctx.rng
    res = []
    safe = [w for w in BAD if w]
    for k in range(4):
        words = r.sample(NUM, 6) + r.sample(SET, 4) + r.sample(ACT, 5) + ["-t", "-d", "-c", "-p"][k:k + 1] + (r.sample(safe, 1) if k % 2 else []) + r.sample(END, 1 if k > 2 else 0)
        h = ctx.simulate("model/PsCli.tla", "argument lists %d" % k, n, 8, dict(Words="{" + ", ".join('"%s"' % w for w in words) + "}", Length=r.choice([3, 4, 5]), Mutant='"none"'), var="args")
        res += [[(a, {})] for a in {tuple(x) for x in h}]
    return res


def systematic(ctx):
    """Every option alone, after a number, before it, between two; every wrong argument likewise."""
    r = ctx.rng
    out = [[]]
    for w in [[x] for x in SET + ACT + BAD + END] + PAIR:
        x, y = r.choice(NUM), r.choice(["1e6", "123456", "2^20"])
        out += [w, [x] + w, w + [x], [x, y] + w, [x] + w + [y], [x, y, r.choice(SET)] + w, [y] + w + ["-q"]]
    for w in NUM:
        out += [[w], [w, "-q"], [w, r.choice(NUM)], [w, r.choice(NUM), "-q"]]
    for a in ACT:
        out += [[r.choice(NUM), a, r.choice(ACT)], [r.choice(NUM), r.choice(NUM), a, r.choice(SET), r.choice(ACT)], [r.choice(NUM), a, r.choice(BAD)], [r.choice(END), a], [a, r.choice(NUM), r.choice(END)]]
    return [[(a, {})] for a in out]


def intervals(ctx, n):
    """Counts and lists of intervals everywhere below 2^64, with threads and sieve sizes."""
    r = ctx.rng
    s = []
    for i in range(n):
        runs = []
        for _ in range(8):
            e = r.choice([10, 20, 30, 33, 36, 40, 45, 50, 54, r.choice([63, 64])])
            a = r.randrange(2 ** (e - 1), 2 ** e)
            if r.random() < 0.04:
                a = TOP - r.randrange(1, 10 ** 6)
            w = r.choice([0, 1, 30, 210, 1000, 10 ** 5, 10 ** 6])
            b = min(a + r.randrange(0, w + 1), TOP - 1)
            o = r.choice([["-c" + "".join(r.sample("123456", r.randrange(1, 7)))], ["-c", "--time"], ["-p%d" % r.randrange(1, 7)], ["-p", "-c2"], ["-p2", "-c13"], ["-t%d" % r.randrange(1, 9)], ["--no-status", "-c26"]])
            q = r.choice([[], ["-q"], ["-s%d" % r.choice([8, 16, 64, 1000, 4096])]])
            f = r.choice([[str(a), str(b)], [str(a), "-d%d" % (b - a)], [str(a), "--dist", str(b - a)]])
            runs.append((f + r.sample(o, len(o)) + q, {}))
        # several chunks
        if i % 3 == 0:
            a = r.randrange(0, 10 ** 9)
            b = a + r.randrange(2 * 10 ** 7, 10 ** 8)
            runs.append(([str(a), str(b), r.choice(["-c1", "-c12", "-c3", "-c456"]), "-t%d" % r.randrange(1, 12)] + r.choice([[], ["-q"], ["--no-status"]]), {}))
            runs.append(([str(a), "-d%d" % (b - a)], {}))
        # a list of several chunks has to be in order
        if i % 8 == 0:
            a = r.randrange(0, 10 ** 8)
            runs.append(([str(a), "-d%d" % r.randrange(3 * 10 ** 7, 10 ** 8), r.choice(["-p4", "-p5", "-p6", "-p4", "-p2"])] + r.choice([[], ["-t8"], ["-c1"]]), {}))
        s.append(runs)
    return s


def edges(ctx):
    """Next to 2^64 and to 0; START + DIST; reversed intervals."""
    r = ctx.rng
    m = TOP - 1
    out = []
    for a in (0, 1, 2, 3, 5, 6, 7, 8, m, m - 1, m - 58, m - 59, m - 100, 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 32 - 1):
        for d in (0, 1, 2, 5, 30, 100, m - a, m - a + 1, m - a + 2, m, 2 ** 63):
            b = a + d
            if b > m or d <= 1000:
                k = r.choice([[], ["-q"], ["-c12"], ["-p"], ["-c123456", "-q"], ["-p2"], ["-t4"]])
                out += [[str(a), "-d%d" % d] + k, [str(a), "--dist=%d" % d] + r.choice([[], ["-q"]])]
                if b <= m:
                    out += [[str(a), str(b)] + k]
        for b in (0, 1, 6, a - 1, a - 2):
            if 0 <= b < a:
                out += [[str(a), str(b)] + r.choice([["-q"], [], ["-p"], ["-c3"], ["-t4", "-c16"], ["--no-status"], ["-p4", "-c4"], ["--time", "-q"]])]
    for e in ("2^64-1", "2**64-59", "0xffffffffffffffff", "0xFFFFFFFFFFFFFFC5", str(m), "10^19", "1e19", "9e18*2", "2^63+2^63-1"):
        out += [[e, e, "-q"], [e, "-d0"], [e, e, "-p"], [e, "-d1"]]
    return [[(a, {})] for a in out]


def nth(ctx, n):
    r = ctx.rng
    out = []
    m = TOP - 1
    for k in (0, 1, 2, 3, 10, 100, 12345, 100000, 10 ** 6, 2 * 10 ** 6):
        out += [[str(k), "-n"], [str(k), "-n", "-q"]]
        for a in (0, 1, 2, 3, 7, 100, 10 ** 6, 10 ** 12, 2 ** 32 - 1, 2 ** 63, 10 ** 18):
            if k <= 1000 or a < 10 ** 13 and (k < 10 ** 5 or a < 10 ** 7):
                out.append([str(k), str(a), r.choice(["-n", "--nth-prime", "--nthprime"])] + r.choice([[], ["-q"], ["--time", "-q"], ["-t3"], ["-s64"], ["-q", "-p"], ["-c2", "-q"]]))
        if k <= 1000:
            for a in (m, m - 1, m - 57, m - 58, m - 59, m - 60, m - 1000, m - 10 ** 5):
                out.append([str(k), str(a), "-n"] + r.choice([[], ["-q"]]))
    for k in (2 ** 63, 2 ** 63 + 1, m, m - 4, m - 100, 10 ** 19, 2 ** 64 - 10 ** 6):
        out += [[str(k), "-n"], [str(k), str(r.choice([0, 100, 10 ** 6, 10 ** 9, m])), "-n"] + r.choice([[], ["-q"]])]
    # n beyond 32 bits
    out += [[str(2 ** 31 + r.randrange(0, 1000)), "-n", "-q"], [str(2 ** 31 + r.randrange(1, 10 ** 6)), str(r.randrange(10 ** 9)), "-n"]]
    for _ in range(n):
        k, a = C.logu(r, 1, 10 ** 6), C.logu(r, 1, 10 ** r.choice([3, 9, 12]))
        out.append([str(k), str(a), "-n"] + r.choice([["-q"], [], ["-t%d" % r.randrange(1, 9), "-q"]]))
    return [[(a, {})] for a in out]


def run(ctx):
    k = 1 if not ctx.thorough else 5
    sy, iv, ed, nt = systematic(ctx), intervals(ctx, 30 * k), edges(ctx), nth(ctx, 60 * k)

    def a():
        core.oracle(ctx, ["iter", "tup"])
        ctx.model("model/PsCli.tla", "../mc/MCPsCli.cfg", {} if ctx.thorough else {"Length": 3}, name="model command line", workers=4)
        for m in ("steals", "wrap", "last count", "loud print"):
            ctx.model("model/PsCli.tla", "../mc/MCPsCli.cfg", {"Mutant": '"%s"' % m, "Length": 3}, name="model command line, mutant " + m, expect_violation=True, workers=1)

    def b():
        p = ctx.ps_program()
        ls = lists(ctx, 60 * k)
        cli.ps_validate(ctx, "behaviours of the model", p, name("model", pack(ls)))
        cli.ps_validate(ctx, "every option", p, name("option", pack(sy)))

    def c():
        p = ctx.ps_program()
        cli.ps_validate(ctx, "edges of the range", p, name("edges", pack(ed)))
        cli.ps_validate(ctx, "n-th primes", p, name("nth", pack(nt)))
        cli.ps_validate(ctx, "intervals", p, name("intervals", iv))
        cli.ps_validate(ctx, "self test", p, [("test", [(["--test"], dict(limit=20 if not ctx.thorough else 300))])])

    ctx.parallel(a, b, c)
