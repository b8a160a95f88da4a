"""C04: every algorithm gives the same (the exact) result."""
import subprocess
import core
import cases as C

ALL = ["lmo1", "lmo2", "lmo3", "lmo4", "lmo5", "lmop", "lmo", "drp", "dr", "pi"]
SEQ = ("lmo1", "lmo2", "lmo3", "lmo4", "lmo5")


def call(r, op, x):
    return "%s %d %d" % (op, x, 0 if op in SEQ else r.choice([1, 1, 2, 3, 4, 8]))


def all_of(ctx, n, lo, hi, name, ops=ALL, alpha=0.5):
    r = ctx.rng
    s = []
    for i, x in enumerate(C.interesting_x(r, lo, hi, n)):
        v = C.env(r)
        if r.random() < alpha:
            v.append("setalpha %s" % r.choice(["1", "1.7", "3", "12", "300"]))
        o = list(ops)
        r.shuffle(o)
        s.append(("%s/%d" % (name, i), v + [call(r, op, x) for op in o]))
    return s


def dense(ctx, hi):
    r = ctx.rng
    lines = []
    for x in range(0, hi):
        for op in (ALL if x < 60 else r.sample(ALL, 4)):
            lines.append(call(r, op, x))
    return C.split("dense", lines, 8)


def program(ctx, n):
    """The options of the command line."""
    r = ctx.rng
    b = ctx.program()
    ev = []
    opts = ["-d", "--deleglise_rivat", "--deleglise_rivat_parallel1", "-l", "--lmo", "--lmo1", "--lmo2", "--lmo3", "--lmo4", "--lmo5", "--lmo_parallel1", "--pi"]
    for x in [0, 1, 2, 10, 1000] + C.interesting_x(r, 100, 10 ** 8, n):
        for o in (opts if x > 10 ** 4 else r.sample(opts, 4)):
            a = [str(x), o]
            r.shuffle(a)
            p = subprocess.run([b] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            t = p.stdout.decode(errors="replace")
            ok = p.returncode == 0 and t.endswith("\n") and p.stderr == b""
            ev.append({"op": "pi", "a": [str(x), "1"], "r": t[:-1] if ok else "%s: exit %d: %s" % (o, p.returncode, t[:200]), "e": ""})
    ctx.trace(core.TRACE, [{"name": "program", "lines": [], "ev": ev}], "algorithm options of the program")


def run(ctx):
    k = 1 if not ctx.thorough else 6
    dn = dense(ctx, 400 * k)
    a1 = all_of(ctx, 60 * k, 400, 10 ** 7, "small")
    a2 = all_of(ctx, 16 * k, 10 ** 7, 10 ** 9, "mid")
    # beyond 2e10 sums of lmo2..lmo5 leave 64 bits
    a3 = all_of(ctx, 6 * k, 10 ** 10, 4 * 10 ** 10, "large", ["lmo2", "lmo3", "lmo4", "lmo5", "lmop", "drp"], 0.3)
    a4 = all_of(ctx, 4 * k, 4 * 10 ** 10, 2 * 10 ** 11, "larger", ["lmo5", "lmo4", "lmop", "drp"], 0)

    def a():
        core.oracle(ctx, ["sum"])
        ctx.model("model/Identity.tla", "../mc/MCIdentity.cfg", {"XMax": 200 if ctx.thorough else 80}, name="model decomposition", workers=4)

    def b():
        core.validate(ctx, "all algorithms small x", core.drv(ctx), dn)
        core.validate(ctx, "all algorithms", core.drv(ctx), a3 + a4 + a2 + a1, timeout=300)

    def c():
        core.validate(ctx, "all algorithms without fast division", core.drv(ctx, libdivide=False), a1[::4] + a2[::5] + a3[:1])
        core.validate(ctx, "wide code on small x", core.wide(ctx), [(n, ["limits %d %d 4294967295" % (ctx.rng.choice([0, 1000, 10 ** 6]), ctx.rng.choice([0, 10 ** 5]))] + v) for n, v in a1[1::3] + a2[::4]])
        program(ctx, 8 * k)

    ctx.parallel(a, b, c)
