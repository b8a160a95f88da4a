"""C14: the command line."""
import core
import cases as C
import cli

ALGS = ["-d", "--deleglise_rivat", "--deleglise_rivat_parallel1", "-l", "--lmo", "--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5", "--lmo_parallel1",
        "--P2", "--S1", "--S2_easy", "--S2_hard", "--S2_trivial", "--pi"]
SET = ["-s", "--status", "-s0", "-s1", "-s5", "--status=3", "-s=4", "--time", "-t1", "-t3", "--threads=2", "-t=4", "--threads=100", "-t0", "-t0-5", "--threads=2*2", "-a1", "-a2.5", "--alpha=1.25", "-a=3", "--alpha=100",
       "-a.75", "-a0", "--alpha=1e1", "-a2.", "--alpha=-3", "-a=.5e1"]
NUM = ["0", "1", "2", "3", "10", "100", "1000", "12345", "1e5", "10**6", "1e6", "99991", "2^17", "--number=5000", "--number=1e4", "--number100", "1000-1", "7*11*13", "0-5", "0xff", "1<<10", "2e6", "5", "8", "64", "104729"]
BAD = ["--bogus", "", "-", "--", "---", "-x", "--lmo9x", "--Lmo", "--pi_", "-5", "+5", "(5)", "~5", " 5", "-t", "--threads", "-tx", "-t=x", "-a", "--alpha", "--alpha=x", "-ax", "--number", "--number=", "1e", "1.5", "5x", "5 5", "1e3e", "12(", "0x", "--P", "--S3", "--help=", "-hh", "--version1.7",
       "-s-1", "--status=x", "-s1x", "-s=", "--p2", "--s1", "primes", "1,000", "=", "=5", "-t2x", "--threads=1e10", "-s4294967297", "-t99999999999", "--number=1e40", "1e39", "--number=x", "-nan", "--alpha=nan", "--alpha=inf", "--time=1", "-d5", "--lmo7", "--S1=5", "--pi3", "-l2", "--tes", "-v7", "--a1", "-alpha=1"]
END = ["-h", "--help", "-v", "--version"]


def lists(ctx, n):
    """Behaviours of the command line model."""
    r = ctx.rng
    res = []
    safe = [w for w in BAD if w != ""]
    for k in range(4):
        words = r.sample(ALGS, 4) + r.sample(SET, 4) + r.sample(NUM, 4) + (r.sample(safe, 1) if k % 2 else []) + r.sample(END, 1 if k > 2 else 0)
        h = ctx.simulate("model/Cli.tla", "argument lists %d" % k, n, 8, dict(Words="{" + ", ".join('"%s"' % w for w in words) + "}", Length=r.choice([3, 4, 5]), Mutant='"none"'), var="args")
        res += [[(a, {})] for a in {tuple(x) for x in h}]
    return res


def systematic(ctx):
    """Every option alone and with a number, before and after it; every wrong argument likewise."""
    r = ctx.rng
    out = [[]]
    for w in ALGS + SET + BAD + END:
        x = r.choice(NUM)
        out += [[w], [w, x], [x, w]]
    for w in NUM:
        out += [[w], [w, w], [w, r.choice(NUM)]]
    for a in ALGS:
        b = r.choice(ALGS)
        out += [[a, b, r.choice(NUM)], [b, r.choice(NUM), a], [r.choice(NUM), a, r.choice(SET), b, r.choice(SET)], [r.choice(NUM), a, r.choice(BAD)], [r.choice(END), a], [a, r.choice(NUM), r.choice(END)]]
    return [[(a, {})] for a in out]


def status(ctx, n):
    """The same computation with and without progress: y becomes known, then the values must belong to it."""
    r = ctx.rng
    s = []
    for i in range(n):
        x = C.logu(r, 1, 10 ** r.choice([2, 4, 6, 8]))
        al = [] if r.random() < 0.4 else ["-a" + r.choice(["1", "1.5", "2", "2.75", "4", "10", "50"])]
        runs = []
        for a in r.sample(["--P2", "--S1", "--S2_trivial", "--S2_easy", "--S2_hard", "--pi", "-d", "--lmo", "--lmo5"], 4):
            w = [str(x), a] + al + r.choice([[], ["-t%d" % r.randrange(0, 10)]])
            st = r.choice([["-s"], ["--status=%d" % r.randrange(0, 7)]])
            runs += [(w + st, dict(cores=r.choice([1, 3, 8]))), (r.sample(w, len(w)) + r.choice([[], ["--time"]]), dict(cores=r.choice([1, 4])))]
        s.append(runs)
    return s


def name(t, s):
    return [("%s/%d" % (t, i), v) for i, v in enumerate(s)]


def pack(s, n=12):
    """several runs per session"""
    return [sum(s[i::max(1, len(s) // n)], []) for i in range(max(1, len(s) // n))]


def run(ctx):
    k = 1 if not ctx.thorough else 4
    sy, st = systematic(ctx), status(ctx, 40 * k)

    def a():
        core.oracle(ctx, ["sum", "p2", "s1", "s2"])
        ctx.model("model/Cli.tla", "../mc/MCCli.cfg", {} if ctx.thorough else {"Length": 3}, name="model command line", workers=4)
        for m in ("first algorithm", "last number", "no time"):
            ctx.model("model/Cli.tla", "../mc/MCCli.cfg", {"Mutant": '"%s"' % m, "Length": 3}, name="model command line, mutant " + m, expect_violation=True, workers=1)

    def b():
        p = ctx.program()
        ls = lists(ctx, 60 * k)
        cli.validate(ctx, "behaviours of the model", p, name("model", pack(ls)))
        cli.validate(ctx, "every option", p, name("option", pack(sy)))

    def c():
        cli.validate(ctx, "with and without progress", ctx.program(), name("status", st))
        cli.validate(ctx, "program without fast division", ctx.program(False), name("nold", st[::4]))
        cli.validate(ctx, "self test", ctx.program(), [("test", [(["--test"], dict(limit=60 if not ctx.thorough else 400))])])

    ctx.parallel(a, b, c)
