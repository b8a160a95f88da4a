"""Common machinery of the checks: builds, driver runs, TLC runs, evidence.

Every check is self-contained: it compiles the operator overrides and whatever
it needs of /repo's current working tree into a scratch directory of its own.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLACM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class HarnessError(Exception):
    """The check itself failed: no statement about the property."""


class Rejected(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def q(s):
    s = str(s)
    return '"' + s + '"' if (" " in s or s == "") else s


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.layers = []
        self.assumptions = []
        self.skipped = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.violations = []
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(CORES)      # leaf jobs: compilers, drivers
        self.bg = cf.ThreadPoolExecutor(96)           # layers
        self._java = None
        self._objs = {}
        self._bins = {}
        self._built_lock = threading.RLock()
        self.degraded = set()
        self.hung = False
        self._hang_lock = threading.Lock()

    # ------------------------------------------------------------ small things
    def log(self, *a):
        with self.lock:
            print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sh(self, cmd, timeout=600, **kw):
        kw.setdefault("stdout", subprocess.PIPE)
        kw.setdefault("stderr", subprocess.STDOUT)
        p = subprocess.Popen(cmd, start_new_session=True, **kw)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            return -999, out, err
        return p.returncode, out, err

    # ------------------------------------------------------------ compile
    def java(self):
        with self._built_lock:
            if self._java is None:
                d = self.sub("java")
                src = sorted(glob.glob(VERIF + "/spec/java/*.java"))
                rc, out, _ = self.sh(["javac", "-nowarn", "-cp", TLAJAR, "-d", d] + src)
                if rc != 0:
                    raise HarnessError("javac failed: " + out.decode(errors="replace")[-2000:])
                self._java = d
            return self._java

    CXX = ["g++", "-O2", "-DNDEBUG", "-w", "-fopenmp"]
    INC = ["-I" + REPO + "/include", "-I" + REPO + "/lib/primesieve/include", "-I" + VERIF + "/harness",
           "-I" + REPO + "/src", "-I" + REPO + "/src/app", "-I" + REPO + "/lib/primesieve/src"]

    @staticmethod
    def popcnt_flags():
        return ["-mpopcnt"] if os.uname().machine in ("x86_64", "amd64") else []

    def repo_sources(self, libdivide=False, app=True):
        v = []
        for root, dirs, files in os.walk(REPO + "/src"):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".cpp"):
                    continue
                p = os.path.join(root, f)
                if f == ("S2_easy.cpp" if libdivide else "S2_easy_libdivide.cpp"):
                    continue
                if not app and "/src/app/" in p:
                    continue
                v.append(p)
        return v

    def sieve_sources(self):
        v = sorted(glob.glob(REPO + "/lib/primesieve/src/*.cpp"))
        for root, dirs, files in os.walk(REPO + "/lib/primesieve/src"):
            if root == REPO + "/lib/primesieve/src":
                dirs[:] = [d for d in sorted(dirs) if d != "app"]
                continue
            v += [os.path.join(root, f) for f in sorted(files) if f.endswith(".cpp")]
        return v

    def compile(self, src, flags=(), tag="", cxx=None, must=True):
        """Compile one file; returns the object or None (must=False)."""
        key = (src, tuple(flags), tag)
        with self._built_lock:
            fut = self._objs.get(key)
            if fut is None:
                obj = os.path.join(self.sub("obj"), "%04d_%s.o" % (len(self._objs), os.path.basename(src)))
                cmd = list(cxx or self.CXX) + self.popcnt_flags() + self.INC + list(flags) + ["-c", src, "-o", obj]
                fut = self.pool.submit(self._cc, cmd, obj)
                self._objs[key] = fut
        obj, out = fut.result()
        if obj is None and must:
            raise HarnessError("does not compile: %s\n%s" % (src, out[-3000:]))
        return obj

    def _cc(self, cmd, obj):
        rc, out, _ = self.sh(cmd, timeout=600)
        return (obj if rc == 0 else None), out.decode(errors="replace")

    def compile_many(self, items, must=True):
        """items: list of (src, flags, tag); all in parallel."""
        futs = [self.bg.submit(self.compile, s, f, t, None, must) for s, f, t in items]
        return [f.result() for f in futs]

    def lib_objs(self, libdivide=False, app=True, flags=(), tag=""):
        """Objects of the whole program; main() renamed to primesum_app_main."""
        items = []
        for s in self.repo_sources(libdivide, app):
            f = list(flags)
            if s.endswith("/app/main.cpp"):
                f.append("-Dmain=primesum_app_main")
            items.append((s, tuple(f), tag))
        for s in self.sieve_sources():
            items.append((s, tuple(flags), tag))
        return self.compile_many(items)

    def link(self, name, objs, extra=(), must=True):
        out = os.path.join(self.sub("bin"), name)
        rc, o, _ = self.sh(["g++", "-o", out] + list(objs) + list(extra) + ["-lpthread"], timeout=300)
        if rc != 0:
            if os.environ.get("VERIF_DEBUG"):
                self.log(o.decode(errors="replace")[-3000:])
            if must:
                raise HarnessError("link failed: %s\n%s" % (name, o.decode(errors="replace")[-3000:]))
            return None
        return out

    def driver(self, src, name=None, libdivide=False, shim=True, flags=(), wrap=(), lib="all", must=False, libtag="", libflags=(), more=(), shimflags=()):
        """Build harness driver src against the repo. None when the driver does not compile
        although the repository's own sources do (an interface it uses moved)."""
        name = name or os.path.basename(src)[:-4] + ("_ld" if libdivide else "") + ("" if shim else "_gomp")
        with self._built_lock:
            if name in self._bins:
                fut = self._bins[name]
            else:
                fut = self._bins[name] = self.bg.submit(self._driver, src, name, libdivide, shim, flags, wrap, lib, must, libtag, libflags, more, shimflags)
        return fut.result()

    def _driver(self, src, name, libdivide, shim, flags, wrap, lib, must, libtag, libflags, more, shimflags):
        H = VERIF + "/harness/"
        fd = self.bg.submit(self.compile, H + src, tuple(flags), name, None, False)
        fs = self.bg.submit(self.compile, H + ("ompshim.cpp" if shim else "ompshim_none.cpp"), tuple(shimflags), "", None, True)
        fm = [self.bg.submit(self.compile, H + m, (), "", None, True) for m in more]
        if lib == "all":
            objs = self.lib_objs(libdivide, True, libflags, libtag)
        elif lib == "sieve":
            objs = self.compile_many([(s, tuple(libflags), libtag) for s in self.sieve_sources()])
        else:
            objs = []
        d = fd.result()
        if d is None:
            # some interface the driver uses moved: keep the groups that still compile
            groups = sorted(set(re.findall(r"NO_([A-Z0-9]+)", open(H + src).read())))
            if groups:
                def test(g):
                    f = list(flags) + ["-DNO_" + o for o in groups if o != g]
                    return self.compile(H + src, tuple(f), name, None, False) is not None
                ok = list(self.bg.map(test, groups))
                f = list(flags) + ["-DNO_" + g for g, k in zip(groups, ok) if not k]
                d = self.compile(H + src, tuple(f), name, None, False)
                if d is not None:
                    self.degraded.add(name)
                    self.skip("driver %s: groups left out: %s" % (name, ",".join(g for g, k in zip(groups, ok) if not k)))
        if d is None:
            if must:
                raise HarnessError("driver does not compile: " + src)
            self.skip("driver %s does not compile against this tree" % src)
            return None
        fm = [f.result() for f in fm]
        if wrap:
            rc, out, _ = self.sh(["nm", "--defined-only", d] + fm)
            have = set(re.findall(r"__wrap_(\S+)", out.decode(errors="replace")))
            wrap = [w for w in wrap if w in have]
        extra = ["-Wl,--wrap=" + w for w in wrap] + ([] if shim else ["-fopenmp"])
        b = self.link(name, [d, fs.result()] + fm + objs, extra, must=False)
        if b is None and shim and not more:
            # an OpenMP entry point the deterministic runtime lacks: run on the real one
            s2 = self.compile(H + "ompshim_none.cpp")
            b = self.link(name, [d, s2] + objs, ["-Wl,--wrap=" + w for w in wrap] + ["-fopenmp"], must=False)
        if b is None:
            self.skip("driver %s does not link against this tree" % src)
        return b

    def program(self, libdivide=True):
        """The command line program itself, on the system's OpenMP runtime."""
        name = "primesum" + ("" if libdivide else "_nold")
        with self._built_lock:
            fut = self._bins.get(name)
            if fut is None:
                fut = self._bins[name] = self.bg.submit(self._program, name, libdivide)
        return fut.result()

    def _program(self, name, libdivide):
        items = [(s, (), "") for s in self.repo_sources(libdivide, True)] + [(s, (), "") for s in self.sieve_sources()]
        return self.link(name, self.compile_many(items), ["-fopenmp"])

    def ps_program(self):
        """The command line program of the sieve library."""
        with self._built_lock:
            fut = self._bins.get("primesieve")
            if fut is None:
                fut = self._bins["primesieve"] = self.bg.submit(self._ps_program)
        return fut.result()

    def _ps_program(self):
        app = sorted(glob.glob(REPO + "/lib/primesieve/src/app/**/*.cpp", recursive=True))
        return self.link("primesieve", self.compile_many([(s, (), "") for s in app + self.sieve_sources()]))

    def skip(self, why):
        with self.lock:
            if why not in self.skipped:
                self.skipped.append(why)
        self.log("SKIPPED:", why)

    # ------------------------------------------------------------ drivers
    def run_session(self, binary, lines, timeout=120, env=None):
        """Run driver on command lines, return its events; a crash or hang becomes an event."""
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             start_new_session=True, env=env, cwd=self.dir)
        hang = False
        try:
            out, _ = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            hang = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, _ = p.communicate()
        ev = []
        ended = False
        for ln in out.decode("ascii", errors="replace").split("\n"):
            if not ln:
                continue
            try:
                e = json.loads(ln)
            except ValueError:
                continue
            if e.get("op") == "end":
                ended = True
                continue
            if e.get("e") == "UNKNOWN":
                if os.path.basename(binary) in self.degraded:
                    continue
                raise HarnessError("driver does not know " + ln)
            ev.append(e)
        if hang:
            ev.append({"op": "HANG", "a": [], "r": "", "e": "HANG"})
        elif not ended or p.returncode != 0:
            nxt = lines[len(ev)] if len(ev) < len(lines) else ""
            ev.append({"op": "CRASH", "a": [], "r": "status %d at: %s" % (p.returncode, nxt[:200]), "e": "CRASH"})
        return ev

    def run_sessions(self, binary, sessions, timeout=120, label=""):
        """sessions: list of (name, [lines]). Returns list of {"name","lines","ev","bin"}."""
        def one(s):
            if self.hung:                # a confirmed hang decides: the sessions left do not matter
                return {"name": s[0], "lines": s[1], "ev": [], "bin": binary, "timeout": timeout}
            ev = self.run_session(binary, s[1], timeout)
            if ev and ev[-1]["op"] == "HANG":
                # slow machine or a real hang? once more with more time
                with self._hang_lock:
                    if not self.hung:
                        more = 5 * timeout if self.thorough else max(timeout, min(3 * timeout, 700 - (time.time() - self.t0)))
                        ev = self.run_session(binary, s[1], more)
                        self.hung = bool(ev) and ev[-1]["op"] == "HANG"
            return {"name": s[0], "lines": s[1], "ev": ev, "bin": binary, "timeout": timeout}
        return list(self.pool.map(one, sessions))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, constants=None, cfgtext=None, workers=None, extra=(), timeout=800, heap="3g", env=None, deadlock=None):
        """Run TLC; returns (rc, output). cfgtext or a file beside the module."""
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        mod = module if os.path.isabs(module) else os.path.join(VERIF, "spec", module)
        if cfgtext is None:
            cfg = cfg or mod[:-4] + ".cfg"
            if not os.path.isabs(cfg):
                cfg = os.path.join(os.path.dirname(mod), cfg)
            cfgtext = open(cfg).read()
        for k, v in (constants or {}).items():
            pat = re.compile(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k))
            if not pat.search(cfgtext):
                cfgtext += "\nCONSTANT %s = %s\n" % (k, v)
            else:
                cfgtext = pat.sub(lambda m: "%s%s = %s" % (m.group(1), k, v), cfgtext)
        cf_ = os.path.join(d, "M.cfg")
        open(cf_, "w").write(cfgtext)
        lib = ":".join([VERIF + "/spec/" + s for s in ("lib", "model", "trace", "mc")])
        cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-cp", "%s:%s:%s" % (TLAJAR, TLACM, self.java()),
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:PsOverrides",
               "-DTLA-Library=" + lib, "-Djava.io.tmpdir=" + d, "tlc2.TLC", "-metadir", d + "/meta", "-config", cf_,
               "-workers", str(workers or CORES), "-noGenerateSpecTE"] + list(extra) + [mod]
        e = dict(os.environ)
        e.update(env or {})
        rc, out, _ = self.sh(cmd, timeout=timeout, cwd=d, env=e)
        out = out.decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

    def count(self, out):
        m = None
        for m in self.STAT.finditer(out):
            pass
        if not m:
            return 0, 0
        g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        with self.lock:
            self.states += d
            self.transitions += g
        return g, d

    def model(self, module, cfg=None, constants=None, name=None, expect_violation=False, **kw):
        """Exhaustive check of a design model; anything but success is an error of the check
        (the model does not depend on the tree), or with expect_violation the other way round."""
        t = time.time()
        rc, out = self.tlc(module, cfg, constants, **kw)
        ok = "Model checking completed. No error has been found." in out
        if rc == -999:
            raise HarnessError("TLC timed out on " + module)
        g, d = self.count(out)
        if expect_violation:
            if ok or not ("is violated" in out or "Deadlock reached" in out or "were violated" in out):
                raise HarnessError("model %s: expected violation not found\n%s" % (module, out[-2500:]))
            self.layer(name or module, kind="model (mutant, rejected as expected)", states=d, transitions=g, s=time.time() - t)
            return
        if not ok:
            raise HarnessError("model %s failed:\n%s" % (module, out[-3500:]))
        self.layer(name or module, kind="model", states=d, transitions=g, s=time.time() - t)

    def layer(self, name, **kw):
        if "s" in kw:
            kw["s"] = round(kw["s"], 1)
        with self.lock:
            self.layers.append(dict(name=name, **kw))
        self.log("layer", name, " ".join("%s=%s" % i for i in kw.items()))

    def simulate(self, module, name, num, depth, constants, var="hist", cfgtext="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", timeout=300):
        """Behaviours of a generator specification (TLC simulation); returns the value of
        `var` (a sequence of strings) at the end of each."""
        t = time.time()
        d = tempfile.mkdtemp(prefix="sim_", dir=self.dir)
        rc, out = self.tlc(module, cfgtext=cfgtext, constants=constants, workers=1, timeout=timeout,
                           extra=["-simulate", "file=%s/t,num=%d" % (d, num), "-depth", str(depth), "-seed", str(self.seed * 7919 + len(name))])
        res = []
        for f in sorted(glob.glob(d + "/t*")):
            txt = open(f).read()
            i = txt.rfind("/\\ %s = <<" % var)
            if i < 0:
                continue
            j = txt.index(">>", i)
            res.append(re.findall(r'"((?:[^"\\]|\\.)*)"', txt[i:j]))
        if not res:
            raise HarnessError("no behaviour generated by %s:\n%s" % (module, tail(out)))
        self.layer(name, kind="behaviours generated by TLC", sessions=len(res), events=sum(map(len, res)), s=time.time() - t)
        return res

    # ------------------------------------------------------------ traces
    def trace(self, module, sessions, name, constants=None, cfgtext=None, timeout=800, heap="4g", rerun=None, params=None):
        """Validate recorded sessions against trace specification `module`.

        The file holds one JSON object per session with the field "ev". The specification
        deadlocks at the first event it does not allow.
        """
        t = time.time()
        sessions = [s for s in sessions if s["ev"]]
        if not sessions:
            self.layer(name, kind="trace", sessions=0, events=0)
            return
        pending = sessions
        rejected = []
        first = True
        while pending:
            d = tempfile.mkdtemp(prefix="trace_", dir=self.dir)
            f = os.path.join(d, "trace.ndjson")
            with open(f, "w") as o:
                for s in pending:
                    o.write(json.dumps(dict({"name": s["name"], "ev": s["ev"]}, **s.get("meta", {}))) + "\n")
            env = {"TRACE": f}
            rc, out = self.tlc(module, cfgtext=cfgtext or "SPECIFICATION Spec\nCHECK_DEADLOCK TRUE\n" + (params or ""), constants=constants, timeout=timeout, heap=heap, env=env)
            self.count(out)
            if "Model checking completed. No error has been found." in out:
                nev = sum(len(s["ev"]) for s in pending)
                with self.lock:
                    self.traces += len(pending)
                    self.events += nev
                break
            if "Deadlock reached" not in out and "is violated" not in out:
                raise HarnessError("trace check %s/%s failed:\n%s" % (module, name, tail(out)))
            ses = last(r"/\\ s = (\d+)", out)
            l = last(r"/\\ l = (\d+)", out)
            if ses is None or l is None:
                raise HarnessError("cannot read the rejected position:\n" + tail(out))
            s = pending[int(ses) - 1]
            pos = int(l) - 1
            ev = s["ev"][min(pos, len(s["ev"]) - 1)]
            rejected.append((s, pos, ev, out))
            self.log("REJECTED", name, "session", s["name"], "event", pos, json.dumps(ev)[:400])
            kf = self.match_known(ev)
            if kf is not None:
                # drop this event (or the rest of the session) and go on: other violations still count
                with self.lock:
                    self.known_hit[kf["id"]] = kf
                rest = dict(s)
                rest["ev"] = s["ev"][:pos] + s["ev"][pos + 1:]
                rejected.pop()
                pending = pending[:int(ses) - 1] + [rest] + pending[int(ses):]
                continue
            break
        for s, pos, ev, out in rejected:
            self.violation(name, module, s, pos, ev, out)
        if not rejected:
            with self.lock:
                big = max(sessions, key=lambda s: len(s["ev"]))
                self.samples.append({"layer": name, "session": big["name"], "events": len(big["ev"]), "excerpt": [json.dumps(e)[:200] for e in big["ev"][:6]]})
        self.layer(name, kind="trace", sessions=len(sessions), events=sum(len(s["ev"]) for s in sessions), s=time.time() - t)

    def violation(self, layer, module, session, pos, ev, out=""):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", layer)))
        with open(path, "w") as o:
            json.dump({"property": self.prop, "layer": layer, "module": module, "session": session.get("name"),
                       "position": pos, "event": ev, "commands": session.get("lines", [])[:2000],
                       "events": session["ev"][max(0, pos - 50):pos + 1], "tlc": out[-3000:]}, o, indent=1)
        with self.lock:
            self.violations.append((path, layer, ev))

    def match_known(self, ev):
        for k in self.known:
            if k.get("op") == ev.get("op") and all(re.fullmatch(p, str(v)) for p, v in zip(k.get("args", []), ev.get("a", []))) \
               and (("result" not in k) or re.fullmatch(k["result"], str(ev.get("r", "")))):
                return k
        return None

    # ------------------------------------------------------------ finish
    def parallel(self, *fns):
        """Run layers concurrently; re-raise the first error after all ended."""
        futs = [self.bg.submit(f) for f in fns]
        err = None
        for f in futs:
            try:
                f.result()
            except BaseException as x:       # noqa
                err = err or x
        if err:
            raise err

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "samples": self.samples[:12] or [{"layer": l["name"]} for l in self.layers[:3]],
                           "layers": self.layers, "skipped": self.skipped},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.tmp" % self.prop
        with open(tmp, "w") as o:
            json.dump(ev, o, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)

    def cleanup(self):
        self.pool.shutdown(wait=False)
        self.bg.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def tail(out, n=3500):
    # an evaluation error comes before the (long) behaviour that led to it
    m = re.search(r"Error: (?!The behavior up to this point|The error occurred|Deadlock).*", out)
    if m and m.start() < len(out) - n:
        return out[m.start():m.start() + 1200] + "\n...\n" + out[-n + 1200:]
    # skip the parser's chatter
    i = out.find("Starting...")
    return out[max(i, len(out) - n):] if i >= 0 else out[-n:]


def last(pat, out):
    m = None
    for m in re.finditer(pat, out):
        pass
    return m.group(1) if m else None


def load_known(prop):
    p = VERIF + "/KNOWN_FINDINGS.txt"
    r = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k.get("property") == prop and k.get("status") == "open":
                    r.append(k)
    return r


def watchdog(ctx, prop):
    """Quick tier: an established violation is reported although other layers take longer."""
    first = None
    while True:
        time.sleep(1)
        if ctx.done:
            return
        if ctx.violations:
            first = first or time.time()
            if time.time() - first > 45 or time.time() - ctx.t0 > 800:
                ctx.finish()
                for path, layer, ev in list(ctx.violations):
                    print("layer %s rejects: %s" % (layer, json.dumps(ev)[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][0]), flush=True)
                me = str(os.getpid())
                for d in glob.glob("/proc/[0-9]*/stat"):
                    try:
                        v = open(d).read().rsplit(")", 1)[1].split()
                        if v[1] == me:
                            os.kill(int(d.split("/")[2]), signal.SIGKILL)
                    except (OSError, IndexError, ValueError):
                        pass
                shutil.rmtree(ctx.dir, ignore_errors=True)
                os._exit(1)


def main(prop, fn):
    ctx = Ctx(prop)
    ctx.done = False
    if not ctx.thorough:
        threading.Thread(target=watchdog, args=(ctx, prop), daemon=True).start()
    code = 0
    try:
        fn(ctx)
        ctx.done = True
        for k in ctx.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        ctx.finish()
        if ctx.violations:
            for path, layer, ev in ctx.violations:
                print("layer %s rejects: %s" % (layer, json.dumps(ev)[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][0]))
            code = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" %
                  (prop, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.t0))
    except HarnessError as x:
        ctx.done = True
        # a violation that was established before the machinery failed stands
        if ctx.violations:
            ctx.finish()
            print("note: " + str(x)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, ctx.violations[0][0]))
            code = 1
        else:
            print("ERROR: " + str(x))
            code = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        code = 2
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(code)
