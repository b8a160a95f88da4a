"""Layers built on the core driver (drv_core) and CoreTrace."""
import glob
import os
from vc import REPO
import cases as C

WRAP = ["_ZN8primesum17ideal_num_threadsEill"]
TRACE = "trace/CoreTrace.tla"


def oracle(ctx, kinds):
    """The Java overrides agree with the TLA+ definitions (for the kinds used)."""
    ctx.model("mc/MCBigInt.tla", name="overrides BigInt")
    ctx.model("mc/MCNTBig.tla", constants={"Kinds": "{" + ", ".join('"%s"' % k for k in kinds) + "}"}, name="overrides NTBig")


def drv(ctx, libdivide=True, shim=True):
    return ctx.driver("drv_core.cpp", "core" + ("_ld" if libdivide else "") + ("" if shim else "_gomp"), libdivide=libdivide, shim=shim, wrap=WRAP)


def wide(ctx, libdivide=True):
    """The program compiled with adjustable 64/128/256-bit thresholds."""
    d = ctx.sub("regime")
    with open(os.path.join(d, "vf_headers.inc"), "w") as f:
        for h in sorted(glob.glob(REPO + "/include/*.hpp")):
            b = os.path.basename(h)
            if b != "calculator.hpp":
                f.write("#include <%s>\n" % b)
    flags = ("-I" + d, "-include", "regime.hpp")
    try:
        name = "core_wide" + ("_ld" if libdivide else "")
        for more in (("-DVF_FACTOR",), ()):
            items = [(s, flags + more, "wide") for s in ctx.repo_sources(libdivide, False)]
            objs = ctx.compile_many(items, must=False)
            if not any(o is None for o in objs):
                break
        if any(o is None for o in objs):
            ctx.skip("regime build: " + ",".join(os.path.basename(i[0]) for i, o in zip(items, objs) if o is None) + " does not compile with adjustable limits")
            # the normal objects of those files
            objs = [o or ctx.compile(i[0]) for i, o in zip(items, objs)]
        sieve = ctx.compile_many([(s, (), "") for s in ctx.sieve_sources()])
        app = [ctx.compile(s, ("-Dmain=primesum_app_main",) if s.endswith("main.cpp") else ()) for s in ctx.repo_sources(libdivide, True) if "/src/app/" in s]
        d1 = ctx.compile(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/drv_core.cpp"), must=False)
        s1 = ctx.compile(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/ompshim.cpp"))
        if d1 is None:
            ctx.skip("regime build: driver does not compile")
            return None
        return ctx.link(name, [d1, s1] + objs + sieve + app, ["-Wl,--wrap=" + w for w in WRAP], must=False)
    finally:
        pass


def validate(ctx, name, binary, sessions, timeout=150, tlc_timeout=700):
    if binary is None:
        return
    recs = ctx.run_sessions(binary, sessions, timeout)
    ctx.trace(TRACE, recs, name, timeout=tlc_timeout)
