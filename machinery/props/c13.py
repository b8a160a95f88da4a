"""C13: number expressions."""
import re
import core
import cases as C

TOK = re.compile(r"0[xX][0-9a-fA-F]+|[0-9]+|\*\*|<<|>>|.", re.S)
SMALL = ["0", "1", "2", "3", "4", "5", "7", "10", "12", "16", "30", "0x1", "0xA", "007"]
LITS = ["63", "64", "100", "126", "127", "128", "999", "0xff", "0XFF00", "65536", "1000000007", "4294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
        "0x7fffffffffffffffffffffffffffffff", "0x80000000000000000000000000000000", "99999999999999999999999999999999999999", "1000000000000000000000000000000000000000"]
OPS = ["|", "&", "<<", ">>", "+", "-", "*", "/", "%", "**", "^", "e", "E"]


def lex(s):
    return TOK.findall(s)


def tree(r, depth, big=False):
    """Random expression text; small literals keep most values in range."""
    k = r.random()
    if depth == 0 or k < 0.15:
        return r.choice(LITS if r.random() < (0.4 if big else 0.12) else SMALL)
    sp = lambda: " " * r.choice([0, 0, 0, 1, 2])
    if k < 0.3:
        return "(" + sp() + tree(r, depth - 1, big) + sp() + ")"
    if k < 0.45:
        return r.choice("-+~") + sp() + tree(r, depth - 1, big)
    o = r.choice(OPS)
    a, b = tree(r, depth - 1, big), tree(r, depth - 1, big)
    if o in ("**", "^") and r.random() < 0.7:
        a, b = r.choice(["2", "3", "-2", "10", "(-1)", "0", a]), r.choice(["0", "1", "2", "3", "(1+1)", "5", "30", "126", "127"])
    if o in ("e", "E") and r.random() < 0.8:
        b = r.choice(["0", "1", "2", "5", "18", "37", "38", "39"])
    if o in ("<<", ">>") and r.random() < 0.8:
        b = r.choice(["0", "1", "2", "31", "63", "64", "126", "127", "128"])
    return a + sp() + o + sp() + b


def limits(r):
    """Values next to the limits of the type by every operator."""
    m = 2 ** 127
    out = []
    for bits in (127, 63, 64, 31):
        m = 2 ** bits
        out += [str(m - 1), str(m), "-%d" % (m - 1), "-%d-1" % (m - 1), "-%d-2" % (m - 1), "-%d" % m, "%d+1" % (m - 1), "%d+0" % (m - 1), "-(-%d-1)" % (m - 1), "~%d" % (m - 1), "~(-%d-1)" % (m - 1),
                "2**%d" % bits, "2**%d-1" % bits, "2**%d-1+2**%d" % (bits - 1, bits - 1), "-(2**%d)*2" % (bits - 1), "2**%d*2" % (bits - 1), "(-2)**%d" % bits, "(-2)**%d" % (bits + 1),
                "1<<%d" % (bits - 1), "1<<%d" % bits, "-1<<%d" % bits, "(-1)<<%d" % (bits + 1), "(-%d-1)/-1" % (m - 1), "(-%d-1)%%-1" % (m - 1), "(-%d-1)*-1" % (m - 1),
                "-1*(-%d-1)" % (m - 1), "(-%d-1)*1" % (m - 1), "(-%d-1)-1" % (m - 1), "(-%d-1)+-1" % (m - 1), "0x%x" % (m - 1), "0x%x" % m, "0X%X+1" % (m - 1), "(-%d-1)>>%d" % (m - 1, bits), "(-%d-1)>>200" % (m - 1), "%d>>%d" % (m - 1, bits - 1), "0-(-%d-1)" % (m - 1)]
        for f in (3, 7, 10, 12345, 2 ** 32, 2 ** 61 - 1):
            q = m // f
            out += ["%d*%d" % (q, f), "%d*%d" % (q + 1, f), "-%d*%d" % (q, f), "%d*-%d" % (q + 1, f), "-%d*-%d" % (q, f), "-%d*-%d" % (q + 1, f)]
        for e in range(1, 41):
            out += ["1e%d" % e, "9e%d" % e, "-3E%d" % e, "17e%d" % e]
        for b in (2, 3, 5, 6, 7, 9, 10, 11, 15, 17, 100, 1000, 46341, 3037000500):
            k = 1
            while b ** k < 2 ** 130:
                k += 1
            for j in (k - 3, k - 2, k - 1, k):
                if j >= 0:
                    out += ["%d^%d" % (b, j), "(-%d)**%d" % (b, j), "-%d**%d" % (b, j)]
        # any digit that would make the last step overflow
        for d in range(10):
            out.append(str(m - 1)[:-1] + str(d))
            out.append("0x%x%x" % ((m - 1) >> 4, d + 6))
    return out


def malformed(r, good, n):
    out = ["", " ", "(", ")", "()", "1+", "+", "*1", "1 2", "1(2)", "(1)2", "2(3)", "((1)", "(1))", "1,000", "1.5", "1e", "e5", "1e+5", "1e-1", "5e-0", "0x", "0xg", "0x1g", "1x", "x", "abc", "1<2", "1>2", "1<", "1<<", "1=1", "1==1", "1!", "!1", "1&&1", "1||1",
           "2***3", "2**", "2^^3", "2 * * 3", "1//2", "1%%2", "1/0", "1%0", "0/0", "5/(3-3)", "5%(1-1)", "1/(2>>2)", "$1", "1;2", "1#", "--1", "-+-+1", "~~7", "- - 1", "0**0", "0**-1", "2**-1", "1**-5", "(-1)**-3", "(-1)**-4", "1<<-1", "1>>-1", "0<<500", "0e50", "0e-1", "1e1e1", "1e2e1", "2**3**2", "(2**3)**2", "2^3**2", "12345678901234567890123456789012345678901234567890", "1_000", "1'000", "٣", "0b11", "1u", "1L", "1e5.0", "-", "~", "+-", "(-)", "(+1", "1\t+\t2", "\t1", "08", "09", "00", "-0", "~0", "~-1", "1 e 5", "1 E5", "1e 5", "0x1e5", "0x1 e5", "0x1e+5", "1+-1", "1--1", "1-~1", "2*-3", "2**-0", "5*-(2**(9+7))/3+5*(1 & 0xFf123)", "(0 + ~(0xDF234 & 1000) *3) /-2", "-(2**2**2**2)", "65536 >> 15", "(2**16) + (1 << 16) >> 0X5", "(0 + 0xDf234 - 1000)*3/2%999"]
    bad = "x.,;#$ )(e*^<>=!ag_~-+/%|&0"
    for _ in range(n):
        t = r.choice(good)
        i = r.randrange(0, len(t) + 1)
        k = r.randrange(4)
        if k == 0:
            t = t[:i] + r.choice(bad) + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        elif k == 2 and i < len(t):
            t = t[:i] + r.choice(bad) + t[i + 1:]
        else:
            j = r.randrange(0, len(t) + 1)
            t = t[:min(i, j)] + t[max(i, j):]
        out.append(t)
    return out


def with_tokens(recs):
    for s in recs:
        for e in s["ev"]:
            e["t"] = lex(e["a"][0]) if e["a"] else []
    return recs


def run(ctx):
    r = ctx.rng
    n = 12000 if ctx.thorough else 1200
    sim = ctx.simulate("model/ExprGen.tla", "expressions generated by TLC", 4000 if ctx.thorough else 250, 90,
                       {"Literals": "{%s}" % ", ".join('"%s"' % x for x in LITS), "SmallLiterals": "{%s}" % ", ".join('"%s"' % x for x in SMALL), "MaxLen": 14})
    gen = ["".join(t) for t in sim]
    gen = [g for g in gen if g.strip()]
    trees = [tree(r, r.choice([1, 2, 2, 3, 3, 4, 5]), r.random() < 0.3) for _ in range(n)]
    deep = ["(" * k + "1" + ")" * k for k in (1, 10, 100, 1000)] + ["-" * k + "1" for k in (10, 101, 1000)] + ["1" + "+1" * 500, "2" + "**1" * 200, "1" + "-1" * 501, "~" * 77 + "5"]
    # NUL and non-ASCII text cannot be part of a session line
    texts = [t for t in gen + trees + limits(r) + malformed(r, trees + gen, n) + deep if all(31 < ord(c) < 127 or c == "\t" for c in t) and '"' not in t]
    mk = lambda op, ts: [('%s "%s"' % (op, t)) for t in ts]
    # one parser call after another in one process: no state may leak from a failed evaluation
    r.shuffle(texts)

    def a():
        ctx.model("mc/MCBigInt.tla", name="overrides BigInt", workers=2)
        ctx.model("model/ExprParser.tla", "../mc/MCExpr.cfg", {"MaxLen": 6 if ctx.thorough else 5}, name="model ExprParser, all token sequences", workers=6)
        ctx.model("model/ExprParser.tla", "../mc/MCExpr.cfg", {"Alphabet": '{"7", "3", "-", "/", "%", "<<", "&", "~", " "}'}, name="model ExprParser, other operators", workers=6)
        for m in ("assoc", "left"):
            ctx.model("model/ExprParser.tla", "../mc/MCExpr.cfg", {"Mutant": '"%s"' % m}, name="model ExprParser, mutant " + m, expect_violation=True, workers=2)

    def b():
        d = ctx.driver("drv_arith.cpp", lib="none", shim=False)
        if d is not None:
            ctx.trace("trace/ArithTrace.tla", with_tokens(ctx.run_sessions(d, C.split("e128", mk("eval", texts), 6) + C.split("e64", mk("eval64", texts), 2)
                                                                                   + [("deep", ["evaldeep %s %d" % (o, k) for k in (1, 2, 999, 1000, 4000, 30000, 100000, 1000000, 3000000) for o in "(-~+"])])), "expressions, parser")

    def c():
        d = core.drv(ctx)
        if d is not None:
            ctx.trace("trace/ArithTrace.tla", with_tokens(ctx.run_sessions(d, C.split("to_int128", mk("eval", texts), 4))), "expressions, to_int128")

    def e():
        d = ctx.driver("drv_pscalc.cpp", lib="none", shim=False)
        if d is not None:
            ctx.trace("trace/ArithTrace.tla", with_tokens(ctx.run_sessions(d, C.split("ps", mk("pseval", texts[::2]) + mk("psevalu", texts) + mk("pseval32", texts[1::2]), 6))), "expressions, the sieve library's copy")

    ctx.parallel(a, b, c, e)
