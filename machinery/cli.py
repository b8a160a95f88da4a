"""Runs of the command line program, recorded for CliTrace."""
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

TRACE = "trace/CliTrace.tla"


def text(b):
    """lines, each split at carriage returns"""
    t = b.decode(errors="replace").split("\n")
    if t and t[-1] == "":
        t.pop()
    return [ln.split("\r") for ln in t]


def run(binary, args, cores=4, limit=0, env=None, mem=3, keep=400):
    """One run. limit: seconds after which a long computation is ended (rc "killed")."""
    e = dict(os.environ, OMP_NUM_THREADS=str(cores), **(env or {}))
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(["sh", "-c", 'ulimit -c 0; ulimit -v %d; exec "$0" "$@"' % (mem << 20), binary] + list(args), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, env=e, start_new_session=True)
        try:
            rc = str(p.wait(limit or 100))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "killed" if limit else "hang"
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read()
    lines = text(out)
    if rc == "killed" and lines and not out.endswith(b"\n"):
        # the last report may be cut off
        lines[-1].pop()
        if not lines[-1]:
            lines.pop()
    if rc.startswith("-"):
        rc = "signal" + rc[1:]
    return {"op": "run", "a": list(args), "out": lines[:keep], "err": text(err), "rc": rc, "cores": str(cores)}


def fnv(s):
    """NTBig's digest of a text"""
    h = 0xcbf29ce484222325
    for c in s.encode():
        h = (h ^ c) * 0x100000001b3 & (2 ** 64 - 1)
    return "%d/%d" % (h, len(s))


def ps_run(binary, args, **o):
    """A run of the primesieve program: printed primes and k-tuplets apart from the other lines."""
    e = run(binary, args, keep=10 ** 6, **o)
    is_list = lambda ln: len(ln) == 1 and ln[0][:1] in tuple("(0123456789")
    n = 0
    while n < len(e["out"]) and is_list(e["out"][n]):
        n += 1
    e["list"] = fnv("".join(ln[0] + "\n" for ln in e["out"][:n]))
    e["out"] = e["out"][n:][:400]
    return e


def record(ctx, binary, sessions, workers=8, one_run=run):
    """sessions: (name, [(args, options)])"""
    def one(s):
        name, runs = s
        return {"name": name, "ev": [one_run(binary, a, **o) for a, o in runs]}
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, sessions))


def validate(ctx, name, binary, sessions, workers=8):
    ctx.trace(TRACE, record(ctx, binary, sessions, workers), name)


def ps_validate(ctx, name, binary, sessions, workers=8):
    ctx.trace("trace/PsCliTrace.tla", record(ctx, binary, sessions, workers, ps_run), name)
