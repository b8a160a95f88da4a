"""Runs of the tuning script with a program of planned speed, recorded for AlphaTrace."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import vc


def milli(s):
    m = re.fullmatch(r"(\d*)(?:\.(\d*))?", s)
    if not m or not (m.group(1) or m.group(2)):
        return -2
    return int(m.group(1) or 0) * 1000 + int(((m.group(2) or "") + "000")[:3]) + (1 if ((m.group(2) or "") + "0000")[3] >= "5" else 0)


class Tuner:
    def __init__(self, ctx, prog):
        self.ctx = ctx
        self.prog = os.path.join(ctx.dir, "fakebench")
        h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
        subprocess.run(["gcc", "-O1", "-w", "-o", self.prog, h + "/fakebench.c"], check=True)
        self.bin = os.path.join(ctx.dir, "nosleep")
        os.mkdir(self.bin)
        with open(self.bin + "/sleep", "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(self.bin + "/sleep", 0o755)
        # what the program itself prints
        say = lambda *a: subprocess.run([prog] + list(a), stdout=subprocess.PIPE, stdin=subprocess.DEVNULL).stdout.decode(errors="replace")
        self.time = re.sub(r"\d+\.\d+", "@S", say("1e8", "-t2", "-a1.5", "--time"))
        st = say("1e14", "-t3", "-a2.125", "--S2_trivial", "-s")
        self.status = st.replace("2.125", "@A").replace("= 3\n", "= @T\n")

    def session(self, *a, **o):
        """A session that hangs is run once more."""
        s = self.session_once(*a, **o)
        return self.session_once(*a, **o) if s["rc"] == "hang" else s

    def session_once(self, name, plan, frm, opts, own="4", sub=False, noprog=False):
        """plan: one list [alpha, c, base, t1, t2, ...] for each exponent from frm on."""
        d = tempfile.mkdtemp(prefix="tune_", dir=self.ctx.dir)
        w = os.path.join(d, "dir")
        os.makedirs(w + "/scripts")
        shutil.copy(os.path.join(vc.REPO, "scripts/find_fastest_alpha.sh"), w + "/scripts")
        if not noprog:
            shutil.copy(self.prog, w + "/primesum")
        rec, pf = d + "/rec", d + "/plan"
        open(rec, "w").close()
        with open(pf, "w") as f:
            for p in plan:
                f.write(" ".join(map(str, p)) + "\n")
        env = dict(os.environ, LC_ALL="C", FB_LOG=rec, FB_PLAN=pf, FB_FROM=str(frm), FB_TIME=self.time, FB_STATUS=self.status, FB_THREADS=own, PATH=self.bin + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
        args = ["bash", "./find_fastest_alpha.sh" if sub else "scripts/find_fastest_alpha.sh"] + opts
        with open(d + "/out", "w") as o:
            p = subprocess.Popen(args, cwd=w + "/scripts" if sub else w, env=env, start_new_session=True, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.DEVNULL)
            try:
                # a search that never ends goes on recording runs
                for _ in range(240):
                    try:
                        rc = str(p.wait(0.5))
                        break
                    except subprocess.TimeoutExpired:
                        rc = "hang"
                        if os.path.getsize(rec) > 60 * 400 * max(1, len(plan)):
                            break
            finally:
                if p.poll() is None:
                    os.killpg(p.pid, 9)
                    p.wait()
        runs = [json.loads(ln) for ln in open(rec)]
        out = [ln for ln in open(d + "/out", errors="replace").read().split("\n") if ln.strip()]
        lines = []
        for ln in out:
            m = re.match(r"pi\(10\^(\d+)\)\s", ln)
            kv = dict(re.findall(r"(\w+)=(\S*)", ln))
            if m and {"threads", "old_alpha", "fastest_alpha", "seconds"} <= set(kv):
                lines.append({"op": "line", "n": int(m.group(1)), "threads": kv["threads"], "old": milli(kv["old_alpha"]),
                              "a": -1 if kv["fastest_alpha"] == "undef" else milli(kv["fastest_alpha"]), "ms": milli(kv["seconds"])})
        shutil.rmtree(d)
        return {"name": name, "runs": runs[:200 * max(1, len(plan))], "lines_": lines, "other": len(out) - len(lines), "rc": rc}

    def events(self, s, kind, plan, frm, threads):
        """The runs and the lines, a line after the runs of its exponent."""
        ev = [{"op": "start", "kind": kind, "n": frm, "threads": threads, "plan": [{"own": p[0], "c": p[1]} for p in plan]}]
        runs, lines = list(s["runs"]), list(s["lines_"])
        for ln in lines:
            while runs and runs[0]["n"] == ln["n"]:
                ev.append(runs.pop(0))
            ev.append(ln)
        ev += runs
        ev.append({"op": "end", "r": s["rc"], "other": s["other"]})
        return {"name": s["name"], "ev": ev, "lines": [json.dumps([kind, plan, frm, threads])]}
