"""Runs of the batch script in a scratch directory, recorded for WorkTrace.

A start of the script is (plan, kill): plan is the list of outcomes of the program's
runs, kill is None or (how, at) for harness/killpoint.c."""
import json
import os
import shutil
import subprocess
import tempfile
import vc

FILES = ["1", "2x3", "10aa14", "a.txt", "1e", "x"]   # names that wildcards could match


class Runner:
    def __init__(self, ctx, help):
        self.ctx = ctx
        self.help = help
        self.prog = os.path.join(ctx.dir, "fakeprog")
        self.pre = os.path.join(ctx.dir, "killpoint.so")
        h = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
        for cmd in (["gcc", "-O1", "-w", "-o", self.prog, h + "/fakeprog.c"], ["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", self.pre, h + "/killpoint.c", "-ldl"]):
            subprocess.run(cmd, check=True)

    def lines(self, f):
        try:
            t = open(f, "rb").read().decode("latin-1").split("\n")
        except FileNotFoundError:
            return []
        if t[-1] == "":
            t.pop()
        return t

    def session(self, name, text, starts, log=False, noprog=False, finish=True):
        """Returns the session and the number of kill points of its first start."""
        d = tempfile.mkdtemp(prefix="work_", dir=self.ctx.dir)
        w = os.path.join(d, "dir")
        os.mkdir(w)
        shutil.copy(os.path.join(vc.REPO, "scripts/worktodo.sh"), w)
        if not noprog:
            shutil.copy(self.prog, os.path.join(w, "primesum"))
        for f in FILES:
            open(os.path.join(w, f), "w").close()
        work = os.path.join(w, "worktodo.txt")
        open(work, "wb").write(text.encode("latin-1"))
        ev = []
        first = 0
        queue = list(starts)
        if finish:
            queue += [([], None)]
        for i, (plan, kill) in enumerate(queue):
            rec, ctr = os.path.join(d, "rec"), os.path.join(d, "ctr")
            open(rec, "w").close()
            open(ctr, "wb").write(b"\0" * 4096)
            ev.append({"op": "start", "file": self.lines(work)})
            env = dict(os.environ, WT_LOG=rec, WT_PLAN=",".join(plan) or "ok", WT_SUPPORT=self.help + ("  --log  Log results\n" if log else ""),
                       LD_PRELOAD=self.pre, KP_FILE=ctr, KP_AT=str(kill[1] if kill else 0), KP_HOW=kill[0] if kill else "all")
            p = subprocess.Popen(["bash", "./worktodo.sh"], cwd=w, env=env, start_new_session=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                rc = p.wait(20)
            except subprocess.TimeoutExpired:
                rc = None
            # what the script started may go on for a moment
            self.end(p.pid)
            if rc is None:
                p.wait()
            for ln in open(rec):
                ev.append(json.loads(ln))
            n = int.from_bytes(open(ctr, "rb").read(4), "little")
            if i == 0:
                first = n
            struck = any(x.startswith(("script", "late", "all")) for x in plan[:sum(e["op"] == "run" for e in ev)])
            ev.append({"op": "end", "r": "hang" if rc is None else str(rc), "file": self.lines(work), "fault": bool(kill) or struck, "noprog": noprog})
            if rc is None:
                break
        shutil.rmtree(d)
        return {"name": name, "ev": ev, "meta": {"log": log or "--log" in self.help}, "lines": [json.dumps([text, starts])]}, first

    def end(self, pid):
        """Wait for the processes of the session, then end them."""
        import time
        for i in range(40):
            try:
                os.killpg(pid, 0)
            except (ProcessLookupError, PermissionError):
                return
            time.sleep(0.005 if i < 20 else 0.02)
        try:
            os.killpg(pid, 9)
        except ProcessLookupError:
            pass
        time.sleep(0.02)
