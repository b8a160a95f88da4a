"""C21: batch script."""
from concurrent.futures import ThreadPoolExecutor
import subprocess
from worktodo import Runner

TRACE = "trace/WorkTrace.tla"
ITEM = ["1e10", "10**14 --P2", "2*3", "-t1 1e9", "(1+2)*3 -s", "1000 --lmo5 -t4", "7", "2*3 --time", "1e6 -d -a1.5", "  12  -l", "\t5", "10^12\t-t2", "*", "-v", "8 ", "1e?", "[1]", "3 # three", "x=5", "1e10 --status=2", "!", "~0", "\"5\" '6'", "$HOME", "1e3;1e4", "5 | 6", "`7`", "\\8"]
BLANK = ["", "# comment", "#", "   ", "#1e10", "  # 5", "\t", "####", "# * $x `y`"]


def text(r, marks):
    t = "\n".join(r.choice(ITEM) if m == "item" else r.choice(BLANK) for m in marks)
    return t + ("\n" if marks and (r.random() < 0.6 or marks[-1] == "blank") else "")


def outcome(r, h):
    if h == "ok":
        return "ok"
    return r.choice(["exit1", "exit1", "exit2", "exit127", "exit255", "self9", "self15", "self6", "self2"])


def histories(ctx, n):
    """Histories of the model: outcomes and interruptions of several starts."""
    r = ctx.rng
    out = []
    for h in ctx.simulate("model/Worktodo.tla", "work files and outcomes", n, 60, dict(Lines=5, Crashes=3, Fails=3, Mutant='"none"'), cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"):
        marks = [x for x in h if x in ("item", "blank")]
        starts, plan, kill = [], [], None
        for x in h[len(marks):] + ["start"]:
            if x in ("ok", "fail"):
                plan.append(outcome(r, x))
            elif x == "crash":
                k = r.random()
                if k < 0.4:
                    plan.append(r.choice(["all9", "all15", "script9", "late9", "all2", "script15", "late15"]))
                else:
                    kill = (r.choice(["all", "all", "half", "script", "term", "int"]), None)
            elif x == "fault":
                kill = (r.choice(["self", "errno28", "errno5", "errno13", "errno30"]), None)
            elif x == "start":
                starts.append((plan, kill))
                plan, kill = [], None
        out.append((text(r, marks), starts))
    return out


def run(ctx):
    r = ctx.rng
    prog = ctx.bg.submit(ctx.program)
    ctx.model("model/Worktodo.tla", "../mc/MCWork.cfg", {"Lines": 5, "Crashes": 3, "Fails": 3} if ctx.thorough else {}, name="model batch script", workers=8)
    for m in ("remove first", "ignore failure", "in place", "append", "rename anyway"):
        ctx.model("model/Worktodo.tla", "../mc/MCWork.cfg", {"Mutant": '"%s"' % m, "Lines": 3}, name="model batch script, mutant " + m, expect_violation=True, workers=4)
    # the program's own help: tells which options it has
    R = Runner(ctx, subprocess.run([prog.result(), "--help"], stdout=subprocess.PIPE).stdout.decode(errors="replace"))
    pool = ThreadPoolExecutor(8)

    def many(name, jobs):
        res = list(pool.map(lambda j: R.session(*j[0], **j[1]), jobs))
        ctx.trace(TRACE, [s for s, _ in res], name)
        return [n for _, n in res]

    # whole files, all kinds of lines
    jobs = []
    for i, w in enumerate(ITEM + BLANK):
        t = [w, r.choice(ITEM), r.choice(BLANK), w] if i % 2 else [r.choice(BLANK), w, r.choice(ITEM)]
        jobs.append((("lines/%d" % i, "\n".join(t) + ("\n" if i % 3 else ""), [([], None)]), dict(log=i % 4 == 0)))
    for i, t in enumerate(["", "\n", "\n\n\n", "#", "# a\n", "1", "1\n", "1\n2", " ", "1\n\n\n2\n\n"]):
        jobs.append((("short/%d" % i, t, [([], None)]), {}))
    for i in range(20):
        marks = [r.choice(["item", "item", "blank"]) for _ in range(r.randrange(6, 25))]
        n = marks.count("item")
        k = r.randrange(n + 1)
        jobs.append((("long/%d" % i, text(r, marks), [(["ok"] * k + [outcome(r, "fail")], None)]), dict(log=i % 5 == 0)))
    jobs.append((("no program", "1\n2\n", [([], None)]), dict(noprog=True, finish=False)))
    many("whole work files", jobs)

    # every failing position and every way of interrupting the program's run
    jobs = []
    for how in ("exit1", "exit3", "self9", "self15", "all9", "all15", "all2", "script9", "script15", "late9", "late2"):
        for k in range(3):
            jobs.append((("%s/%d" % (how, k), text(r, ["item", "blank", "item", "item"]), [(["ok"] * k + [how], None)]), {}))
    many("failures and interruptions of the program", jobs)

    # histories of the model; interruptions at random points
    jobs = []
    for i, (t, starts) in enumerate(histories(ctx, 60 if not ctx.thorough else 500)):
        st = [(p, (k[0], r.randrange(1, 150)) if k else None) for p, k in starts]
        jobs.append((("history/%d" % i, t, st), dict(log=i % 6 == 0)))
    many("histories of the model", jobs)

    # every point of operations on files and processes
    bases = [["item", "item"], ["blank", "item", "item"]] if not ctx.thorough else [["item", "item"], ["blank", "item", "item"], ["item"], ["item", "blank", "blank", "item"], ["item"] * 5]
    for b, marks in enumerate(bases):
        t = text(r, marks)
        (n,) = many("operations of work file %d" % b, [(("count", t, [([], None)]), {})])
        n = min(n, 2000)
        jobs = []
        for how in (["all", "half", "script", "self", "errno28", "errno5"] if ctx.thorough or not b else ["all", "half", "errno28"]):
            for at in range(1, n + 2):
                jobs.append((("%s at %d" % (how, at), t, [([], (how, at))]), {}))
        # interrupted twice
        for _ in range(40 if not ctx.thorough else 400):
            jobs.append((("twice", t, [([], (r.choice(["all", "half"]), r.randrange(1, n + 1))) for _ in range(2)]), {}))
        many("interruptions at every operation, work file %d" % b, jobs)
