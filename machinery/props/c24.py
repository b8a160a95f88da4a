"""C24: tuning script."""
from concurrent.futures import ThreadPoolExecutor
from tune import Tuner

TRACE = "trace/AlphaTrace.tla"
VALLEY = dict(N=1, Alphas="{1000, 1050, 1399, 1777, 2500, 3333, 8001, 26131, 64999}", Times="{1, 2900, 21000}", Valley="TRUE")


def plans(ctx, name, num, c):
    """Behaviours of the model: for each exponent the program's factor, the optimum, and the times measured."""
    out = []
    for h in ctx.simulate("model/AlphaSearch.tla", name, num, 260, dict(c, Mutant='"none"')):
        p = []
        for x in h:
            if x == "alpha":
                p.append([])
            else:
                p[-1].append(int(x))
        p = [q for q in p if len(q) >= 3]
        if p:
            out.append(p)
    return out


def run(ctx):
    r = ctx.rng
    prog = ctx.bg.submit(ctx.program)
    cfg = "../mc/MCAlpha.cfg"
    big = dict(N=3, Times="{0, 1, 10, 3001, 3500, 20001}", Alphas="{1000, 1050, 1399, 1777, 2500, 3333, 8001, 26131, 64999}") if ctx.thorough else {}
    ctx.model("model/AlphaSearch.tla", cfg, big, name="model tuning script, any times", workers=8)
    ctx.model("model/AlphaSearch.tla", cfg, VALLEY, name="model tuning script, times with one minimum", workers=8)
    for m in ("last", "keep", "unclamped", "no step"):
        ctx.model("model/AlphaSearch.tla", cfg, dict(VALLEY if m == "no step" else {}, Mutant='"%s"' % m), name="model tuning script, mutant " + m, expect_violation=True, workers=4)
    ctx.model("model/AlphaSearch.tla", cfg, dict(VALLEY, Mutant='"around own"'), name="model tuning script, mutant around own", expect_violation=True, workers=4)
    R = Tuner(ctx, prog.result())
    pool = ThreadPoolExecutor(8)
    hangs = []

    def many(name, jobs):
        def one(j):
            if hangs:
                return {"name": j[0], "ev": []}
            nm, plan, frm, th, kind, opts, o = j
            own = str(r.choice([1, 2, 4, 8, 16])) if th is None else "64"
            s = R.session(nm, plan, frm, opts, own=own, **o)
            if s["rc"] == "hang":
                hangs.append(nm)
            return R.events(s, kind, plan, frm, th or own)
        ctx.trace(TRACE, list(pool.map(one, jobs)), name)

    def search(nm, plan, th=None, frm=None):
        frm = r.randrange(1, 29) if frm is None else frm
        opts = ["--start=%d" % frm, "--stop=%d" % (frm + len(plan) - 1)] + (["-t=%s" % th] if th else [])
        r.shuffle(opts)
        return (nm, plan, frm, th, "search", opts, dict(sub=r.random() < 0.5))

    k = 8 if ctx.thorough else 1
    al = "{%s}" % ", ".join(str(r.choice([1000, r.randrange(1000, 1100), r.randrange(1000, 3000), r.randrange(3000, 12000), r.randrange(12000, 99999)])) for _ in range(12))
    ts = "{0, 1, 2, 10, 11, 400, 2999, 3000, 3001, 9999, 20000, 20001, 130000}"
    jobs = [search("model/%d" % i, p, th=r.choice([None, "1", "3", "12"])) for i, p in enumerate(plans(ctx, "times measured", 28 * k, dict(N=2, Alphas=al, Times=ts, Valley="FALSE")))]
    many("times of the model", jobs)
    few = plans(ctx, "equal and small times", 16 * k, dict(N=2, Alphas=al, Times="{1, 2}", Valley="FALSE")) + plans(ctx, "times near zero", 10 * k, dict(N=3, Alphas=al, Times="{0, 1, 2}", Valley="FALSE"))
    many("equal times", [search("equal/%d" % i, p) for i, p in enumerate(few)])
    val = plans(ctx, "optima", 32 * k, dict(N=2, Alphas=al, Times="{0, 1, 2900, 21000}", Valley="TRUE"))
    val = [[q[:3] for q in p] for p in val]
    many("times with one minimum", [search("valley/%d" % i, p, th=r.choice([None, "5"])) for i, p in enumerate(val)])

    # random plans over several exponents; long ones, then the default range
    jobs = []
    for i in range(10 * k):
        p = []
        for _ in range(r.randrange(1, 5)):
            a = r.choice([1000, r.randrange(1000, 2500), r.randrange(2500, 70000)])
            top = r.choice([3, 50, 5000, 40000])
            p.append([a, 0, 0] + [r.randrange(top) for _ in range(60)])
        jobs.append(search("random/%d" % i, p))
    jobs.append(("default range", [[1000 + 200 * i, 0, 0] + [0] * 9 for i in range(21)], 1, None, "search", [], {}))
    jobs.append(("from", [[1000 + 200 * i, 0, 0] + [0] * 9 for i in range(4)], 18, "7", "search", ["--start=18", "-t=7"], {}))
    jobs.append(("to", [[1000 + 200 * i, 0, 0] + [0] * 9 for i in range(3)], 1, None, "search", ["--stop=3"], {}))
    jobs.append(("empty range", [], 9, None, "search", ["--start=9", "--stop=8"], {}))
    many("several exponents", jobs)
    p = [[1500, 0, 0, 5]]
    jobs = [("bad %s" % o, p, 5, None, "bad", x, {}) for o in ("-x", "--help", "5", "1e5", "--threads=4", "-t4", "start=5", "--from=3") for x in ([o], ["--start=5", "--stop=5", o], [o, "--start=5", "--stop=5"])]
    jobs += [("no program", p, 5, None, "noprog", x, dict(noprog=True, sub=sb)) for x in ([], ["--start=5", "--stop=5"]) for sb in (False, True)]
    many("unknown options, no program", jobs)
