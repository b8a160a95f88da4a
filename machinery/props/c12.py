"""C12: wide integer arithmetic."""
import cases as C

HALVES = [[0, 1, 2 ** 64 - 2, 2 ** 64 - 1], [0, 1, 2 ** 63, 2 ** 64 - 1], [0, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1], [0, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xfffffffffffffff0]]
BIN = ["add", "sub", "mul", "div", "rem", "and", "or", "xor", "lt", "le", "gt", "ge", "eq", "ne"]
TYPES = {"i8": (-2 ** 7, 2 ** 7 - 1), "u8": (0, 2 ** 8 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "u16": (0, 2 ** 16 - 1),
         "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1),
         "i128": (-2 ** 127, 2 ** 127 - 1), "u128": (0, 2 ** 128 - 1)}


def signed(n):
    return n - 2 ** 256 if n >= 2 ** 255 else n


def operand(pattern, halves):
    """A model operand (four halves of 2 bits) with each half scaled to 64 bits."""
    return signed(sum(halves[(pattern >> (2 * i)) & 3] << (64 * i) for i in range(4)))


def rnd(r):
    k = r.randrange(5)
    if r.random() < 0.02:
        return -2 ** 255
    if k == 0:
        v = r.getrandbits(r.randrange(1, 256))
    elif k == 1:
        v = (1 << r.randrange(0, 255)) + r.choice([-2, -1, 0, 1, 2])
    elif k == 2:
        v = r.getrandbits(r.choice([31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255]))
    elif k == 3:
        v = operand(r.randrange(256), r.choice(HALVES))
    else:
        v = 10 ** r.randrange(0, 76) + r.choice([-1, 0, 1])
    v = abs(v) % 2 ** 255
    return -v if r.random() < 0.4 else v


def model_pairs(r, n):
    """Initial states of the model Int256 (W = 2): 256 x 256 operand pairs, replayed at full width."""
    pairs = [(a, b) for a in range(256) for b in range(256)]
    if n < len(pairs):
        pairs = r.sample(pairs, n)
    lines = []
    for a, b in pairs:
        h = r.choice(HALVES)
        x, y = operand(a, h), operand(b, h)
        ops = BIN if n >= 65536 else r.sample(BIN, 4)
        lines += ["w %s %d %d" % (o, x, y) for o in ops if y or o not in ("div", "rem")]
    return lines


def values(r, n):
    lines = []
    for _ in range(n):
        x, y = rnd(r), rnd(r)
        # products, quotients and sums next to the limits
        if r.random() < 0.3 and x:
            y = min(2 ** 255 - 1, (2 ** 255 - 1) // abs(x) + r.choice([-1, 0, 1])) * r.choice([1, -1])
        if r.random() < 0.1:
            q = rnd(r) // (abs(y) + 1)
            x = q * y + r.choice([-1, 0, 1])
            if not -2 ** 255 <= x < 2 ** 255:
                x = rnd(r)
        if r.random() < 0.05:
            y = x + r.choice([-1, 0, 1]) if abs(x) < 2 ** 254 else x
        for o in r.sample(BIN, 3):
            if y == 0 and o in ("div", "rem"):
                continue
            lines.append("w %s %d %d" % (o, x, y))
        n1 = min(abs(rnd(r)), 2 ** 255 - 1)
        s = r.choice([0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255, r.randrange(256)])
        lines.append("w shr %d %d" % (n1, s))
        lines.append("w shl %d %d" % (n1 >> r.choice([0, s, s, s + 1]), s))
        lines.append("w1 %s %d" % (r.choice(["neg", "pos", "not", "inc", "dec", "print"]), x))
        lines.append("w1 print %d" % rnd(r))
        t = r.choice(["i32", "u32", "i64", "u64", "i128", "u128"])
        lo, hi = TYPES[t]
        v = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, r.randrange(lo, hi + 1), r.randrange(0, 2 ** r.randrange(1, hi.bit_length()))])
        v = min(max(v, lo), hi)
        lines.append("wm %s %s %d %d" % (r.choice(BIN) if v else "mul", t, x, v))
        if v >= 0 and v < 256:
            lines.append("wm %s %s %d %d" % (r.choice(["shl", "shr"]), t, n1 >> 100, v))
        t = r.choice(list(TYPES))
        lo, hi = TYPES[t]
        v = min(max(r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, r.randrange(lo, hi + 1)]), lo), hi)
        lines += ["wto %s %d" % (t, v), "wfrom %s %d" % (t, v)]
        t = r.choice(["i128", "u128"])
        lo, hi = TYPES[t]
        v = min(max(r.choice([lo + 1, hi, 0, 1, -1, 9, 10, 10 ** 19, 10 ** 38, -10 ** 38, 2 ** 64, 2 ** 64 - 1, rnd(r)]), lo + (t == "i128")), hi)
        lines.append("p128 %s %d" % (t, v))
    return lines


def run(ctx):
    r = ctx.rng
    pairs = model_pairs(r, 65536 if ctx.thorough else 5000)
    vals = values(r, 20000 if ctx.thorough else 2500)

    def a():
        ctx.model("mc/MCBigInt.tla", name="overrides BigInt", workers=2)
        ctx.model("model/Int256.tla", "../mc/MCInt256.cfg", name="model Int256, 8-bit numbers, all operand pairs", workers=4)
        for m in ("carry", "neg", "fast", "divge"):
            ctx.model("model/Int256.tla", "../mc/MCInt256.cfg", {"Mutant": '"%s"' % m, "W": 1}, name="model Int256, mutant " + m, expect_violation=True, workers=1)

    def b():
        d = ctx.driver("drv_arith.cpp", lib="none", shim=False)
        if d is None:
            return
        # the same at two optimisation levels: the type is header only and relies on wrapping
        d2 = ctx.driver("drv_arith.cpp", "arith_O3", lib="none", shim=False, flags=("-O3",))
        ctx.trace("trace/ArithTrace.tla", ctx.run_sessions(d, C.split("pairs", pairs, 8)), "model operand pairs replayed")
        ctx.trace("trace/ArithTrace.tla", ctx.run_sessions(d2, C.split("values", vals, 8)), "wide integers, values")

    ctx.parallel(a, b)
