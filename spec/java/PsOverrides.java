// TLC operator overrides for the specification modules BigInt and NTBig.
//
// Every operator overridden here has a plain TLA+ definition in the module of
// the same name; spec/MCBigInt.tla and spec/MCNTBig.tla let TLC compare the
// two on a small domain, so that the overrides are checked, not trusted.
// All numbers are decimal strings (TLC's own integers are 32 bits wide).
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class PsOverrides implements ITLCOverrides {
  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { PsOverrides.class }; }

  // ------------------------------------------------------------ helpers
  static BigInteger B(Value v) {
    if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
    return new BigInteger(((StringValue) v).val.toString());
  }
  static long L(Value v) { return B(v).longValueExact(); }
  static StringValue S(BigInteger b) { return new StringValue(b.toString()); }
  static StringValue S(long b) { return new StringValue(Long.toString(b)); }
  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ------------------------------------------------------------ BigInt
  @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
  public static Value badd(Value a, Value b) { return S(B(a).add(B(b))); }
  @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
  public static Value bsub(Value a, Value b) { return S(B(a).subtract(B(b))); }
  @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
  public static Value bmul(Value a, Value b) { return S(B(a).multiply(B(b))); }
  @TLAPlusOperator(identifier = "NumVal", module = "BigInt", warn = false)
  public static Value numVal(Value v) {
    String t = ((StringValue) v).val.toString();
    if (t.matches("[0-9]+")) return S(new BigInteger(t));
    if (t.matches("0[xX][0-9a-fA-F]+")) return S(new BigInteger(t.substring(2), 16));
    return new StringValue("");
  }
  @TLAPlusOperator(identifier = "BInt", module = "BigInt", warn = false)
  public static Value bint(Value v) { return IntValue.gen(B(v).intValueExact()); }
  // truncating division and remainder (C semantics)
  @TLAPlusOperator(identifier = "BQuo", module = "BigInt", warn = false)
  public static Value bquo(Value a, Value b) { return S(B(a).divide(B(b))); }
  @TLAPlusOperator(identifier = "BRem", module = "BigInt", warn = false)
  public static Value brem(Value a, Value b) { return S(B(a).remainder(B(b))); }
  @TLAPlusOperator(identifier = "BLess", module = "BigInt", warn = false)
  public static Value bless(Value a, Value b) { return bool(B(a).compareTo(B(b)) < 0); }
  @TLAPlusOperator(identifier = "BEq", module = "BigInt", warn = false)
  public static Value beq(Value a, Value b) { return bool(B(a).equals(B(b))); }
  @TLAPlusOperator(identifier = "BPow", module = "BigInt", warn = false)
  public static Value bpow(Value a, Value n) { return S(B(a).pow((int) L(n))); }
  @TLAPlusOperator(identifier = "BShl", module = "BigInt", warn = false)
  public static Value bshl(Value a, Value n) { return S(B(a).shiftLeft((int) L(n))); }
  @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
  public static Value bshr(Value a, Value n) { return S(B(a).shiftRight((int) L(n))); }
  @TLAPlusOperator(identifier = "BAnd", module = "BigInt", warn = false)
  public static Value band(Value a, Value b) { return S(B(a).and(B(b))); }
  @TLAPlusOperator(identifier = "BOr", module = "BigInt", warn = false)
  public static Value bor(Value a, Value b) { return S(B(a).or(B(b))); }
  @TLAPlusOperator(identifier = "BXor", module = "BigInt", warn = false)
  public static Value bxor(Value a, Value b) { return S(B(a).xor(B(b))); }
  @TLAPlusOperator(identifier = "BNot", module = "BigInt", warn = false)
  public static Value bnot(Value a) { return S(B(a).not()); }
  @TLAPlusOperator(identifier = "BFits", module = "BigInt", warn = false)
  public static Value bfits(Value a, Value n) { return bool(B(a).bitLength() < (int) L(n)); }
  @TLAPlusOperator(identifier = "BWrap", module = "BigInt", warn = false)
  public static Value bwrap(Value a, Value n) {
    int k = (int) L(n);
    BigInteger m = BigInteger.ONE.shiftLeft(k), r = B(a).mod(m);
    return S(r.testBit(k - 1) ? r.subtract(m) : r);
  }
  @TLAPlusOperator(identifier = "BRoot", module = "BigInt", warn = false)
  public static Value broot(Value n, Value a) { return S(root((int) L(n), B(a))); }

  static BigInteger root(int n, BigInteger a) {
    if (n == 2) return a.sqrt();
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(a.bitLength() / n + 1);
    while (lo.compareTo(hi) < 0) {
      BigInteger mid = lo.add(hi).add(BigInteger.ONE).shiftRight(1);
      if (mid.pow(n).compareTo(a) <= 0) lo = mid; else hi = mid.subtract(BigInteger.ONE);
    }
    return lo;
  }

  // exact comparison of an IEEE double (decimal or hex-float text) with a
  // decimal number given as text "p/q": used for tuning factors
  @TLAPlusOperator(identifier = "DoubleEq", module = "BigInt", warn = false)
  public static Value deq(Value a, Value b) {
    return bool(Double.parseDouble(((StringValue) a).val.toString())
             == Double.parseDouble(((StringValue) b).val.toString()));
  }
  @TLAPlusOperator(identifier = "DoubleLess", module = "BigInt", warn = false)
  public static Value dless(Value a, Value b) {
    return bool(Double.parseDouble(((StringValue) a).val.toString())
              < Double.parseDouble(((StringValue) b).val.toString()));
  }

  // ------------------------------------------------------------ primes
  static int[] base = new int[0];
  static int baseMax = 1;

  static synchronized int[] basePrimes(long max) {
    if (max <= baseMax) return base;
    int m = (int) Math.max(max, 1 << 16);
    int half = m / 2 + 1;
    java.util.BitSet comp = new java.util.BitSet(half);
    for (int i = 3; (long) i * i <= m; i += 2)
      if (!comp.get(i / 2))
        for (long j = (long) i * i / 2; j < half; j += i) comp.set((int) j);
    int cnt = 1;
    for (int i = 1; i < half; i++) if (!comp.get(i) && 2 * i + 1 <= m) cnt++;
    int[] p = new int[cnt];
    p[0] = 2;
    int k = 1;
    for (int i = 1; i < half; i++) if (!comp.get(i) && 2 * i + 1 <= m) p[k++] = 2 * i + 1;
    base = p;
    baseMax = m;
    return base;
  }

  interface LongSink { void accept(long p); }

  /** All primes p with a <= p <= b in increasing order; b < 2^63. */
  static void primes(long a, long b, LongSink f) {
    if (a < 2) a = 2;
    if (b < a) return;
    if (a <= 2) f.accept(2);
    if (a < 3) a = 3;
    if ((a & 1) == 0) a++;
    if (a > b) return;
    long rt = BigInteger.valueOf(b).sqrt().longValue();
    // few candidates and a large root: test them one by one
    if (rt > 2000000 && (b - a) < rt / 40) {
      for (long n = a; n <= b && n > 0; n += 2) if (isPrime(n)) f.accept(n);
      return;
    }
    int[] bp = basePrimes(rt + 1);
    final int SEG = 1 << 20;                       // odd numbers per segment
    boolean[] comp = new boolean[SEG];
    for (long lo = a; lo <= b && lo > 0; lo += 2L * SEG) {
      long hi = Math.min(b, lo + 2L * SEG - 2);
      int n = (int) ((hi - lo) / 2) + 1;
      Arrays.fill(comp, 0, n, false);
      for (int i = 1; i < bp.length; i++) {
        long p = bp[i];
        if (p * p > hi) break;
        long m = Math.max(p * p, (lo + p - 1) / p * p);
        if ((m & 1) == 0) m += p;
        for (long j = (m - lo) / 2; j < n; j += p) comp[(int) j] = true;
      }
      for (int i = 0; i < n; i++) if (!comp[i]) f.accept(lo + 2L * i);
    }
  }

  static final int[] MR = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};

  /** Deterministic Miller-Rabin for all n < 3.3e24, here n < 2^64 given unsigned. */
  static boolean isPrimeU(BigInteger n) {
    if (n.compareTo(BigInteger.TWO) < 0) return false;
    for (int p : MR) {
      BigInteger P = BigInteger.valueOf(p);
      if (n.equals(P)) return true;
      if (n.mod(P).signum() == 0) return false;
    }
    BigInteger nm1 = n.subtract(BigInteger.ONE);
    int s = nm1.getLowestSetBit();
    BigInteger d = nm1.shiftRight(s);
    next:
    for (int p : MR) {
      BigInteger x = BigInteger.valueOf(p).modPow(d, n);
      if (x.equals(BigInteger.ONE) || x.equals(nm1)) continue;
      for (int r = 1; r < s; r++) {
        x = x.multiply(x).mod(n);
        if (x.equals(nm1)) continue next;
      }
      return false;
    }
    return true;
  }
  static long mulmod(long a, long b, long m) {
    if (m < 3037000499L) return a * b % m;
    long hi = Math.multiplyHigh(a, b), lo = a * b;
    if (hi == 0 && lo >= 0) return lo % m;
    return BigInteger.valueOf(a).multiply(BigInteger.valueOf(b)).mod(BigInteger.valueOf(m)).longValue();
  }
  static boolean isPrime(long n) {
    if (n < 2) return false;
    for (int p : MR) { if (n == p) return true; if (n % p == 0) return false; }
    if (n < 37 * 37) return true;
    if (n >= 3037000499L) return isPrimeU(BigInteger.valueOf(n));
    long d = n - 1; int s = 0;
    while ((d & 1) == 0) { d >>= 1; s++; }
    next:
    for (int a : new int[] {2, 3, 5, 7, 11, 13, 17}) {
      long x = 1, bb = a, e = d;
      while (e > 0) { if ((e & 1) == 1) x = mulmod(x, bb, n); bb = mulmod(bb, bb, n); e >>= 1; }
      if (x == 1 || x == n - 1) continue;
      for (int r = 1; r < s; r++) { x = mulmod(x, x, n); if (x == n - 1) continue next; }
      return false;
    }
    return true;
  }

  // 128-bit accumulator (two's complement, lo unsigned)
  static final class Acc {
    long hi, lo;
    void add(long v) { long o = lo; lo += v; if (Long.compareUnsigned(lo, o) < 0) hi++; if (v < 0) hi--; }
    void addMul(long a, long b) {              // signed product
      long h = Math.multiplyHigh(a, b), l = a * b, o = lo;
      lo += l;
      hi += h + (Long.compareUnsigned(lo, o) < 0 ? 1 : 0);
    }
    BigInteger get() {
      return BigInteger.valueOf(hi).shiftLeft(64).add(u64(lo));
    }
  }
  static BigInteger u64(long v) {
    BigInteger b = BigInteger.valueOf(v);
    return v < 0 ? b.add(BigInteger.ONE.shiftLeft(64)) : b;
  }

  static BigInteger sumPrimes(long a, long b) {        // a <= p <= b
    Acc acc = new Acc();
    primes(a, b, acc::add);
    return acc.get();
  }
  static long countPrimes(long a, long b) {
    long[] c = new long[1];
    primes(a, b, p -> c[0]++);
    return c[0];
  }

  // ------------------------------------------------------------ Lucy_Hedgehog
  // prefix sums / counts of primes at all values floor(x/k)
  static final class Lucy {
    final long x; final int r;
    final long[] shi, slo, bhi, blo;    // sums at v<=r and at x/k
    final long[] sc, bc;                // counts
    Lucy(long x) {
      this.x = x;
      r = (int) BigInteger.valueOf(x).sqrt().longValue();
      shi = new long[r + 2]; slo = new long[r + 2]; bhi = new long[r + 2]; blo = new long[r + 2];
      sc = new long[r + 2]; bc = new long[r + 2];
      for (int v = 1; v <= r; v++) { slo[v] = (long) v * (v + 1) / 2 - 1; sc[v] = v - 1; }
      for (int k = 1; k <= r; k++) {
        long n = x / k;
        long a = n, b = n + 1;
        if ((a & 1) == 0) a /= 2; else b /= 2;
        long h = Math.multiplyHigh(a, b), l = a * b;
        if (l == 0) h--;
        l--;
        bhi[k] = h; blo[k] = l; bc[k] = n - 1;
      }
      for (int p = 2; (long) p * p <= x && p <= r; p++) {
        if (sc[p] == sc[p - 1]) continue;
        long p2 = (long) p * p, cp = sc[p - 1], sl = slo[p - 1];
        int kmax = (int) Math.min(r, x / p2);
        long rp = r / p;
        int k = 1;
        for (; k <= kmax && k <= rp; k++) {
          int kp = k * p;
          bc[k] -= bc[kp] - cp;
          long dl = blo[kp] - sl, dh = bhi[kp] - (Long.compareUnsigned(blo[kp], sl) < 0 ? 1 : 0);
          long ml = dl * p, mh = umulh(dl, p) + dh * p;
          long o = blo[k];
          blo[k] = o - ml;
          bhi[k] -= mh + (Long.compareUnsigned(o, ml) < 0 ? 1 : 0);
        }
        long xp = x / p;
        for (; k <= kmax; k++) {
          int v = (int) (xp / k);
          bc[k] -= sc[v] - cp;
          long dl = slo[v] - sl;
          long ml = dl * p, mh = umulh(dl, p);
          long o = blo[k];
          blo[k] = o - ml;
          bhi[k] -= mh + (Long.compareUnsigned(o, ml) < 0 ? 1 : 0);
        }
        for (int v = r; v >= p2; v--) {
          int q = v / p;
          sc[v] -= sc[q] - cp;
          slo[v] -= (slo[q] - sl) * p;
        }
      }
    }
    static long umulh(long a, long b) { return Math.multiplyHigh(a, b) + ((a >> 63) & b) + ((b >> 63) & a); }
    BigInteger sum(long v) {
      if (v < 2) return BigInteger.ZERO;
      if (v <= r) return BigInteger.valueOf(slo[(int) v]);
      int k = (int) (x / v);
      if (x / k != v) throw new IllegalArgumentException("not a floor value");
      return BigInteger.valueOf(bhi[k]).shiftLeft(64).add(u64(blo[k]));
    }
    long count(long v) {
      if (v < 2) return 0;
      if (v <= r) return sc[(int) v];
      return bc[(int) (x / v)];
    }
  }
  static final Map<Long, Lucy> lucyCache = new LinkedHashMap<>(16, 0.75f, true) {
    @Override protected boolean removeEldestEntry(Map.Entry<Long, Lucy> e) { return size() > 12; }
  };
  static Lucy lucy(long x) {
    synchronized (lucyCache) { Lucy l = lucyCache.get(x); if (l != null) return l; }
    Lucy l = new Lucy(x);
    synchronized (lucyCache) { lucyCache.put(x, l); }
    return l;
  }

  // Published values (README.md of primesum; OEIS A046731): sum of the primes below 10^k.
  static final String[] ANCHOR = {
    "0", "17", "1060", "76127", "5736396", "454396537", "37550402023", "3203324994356", "279209790387276",
    "24739512092254535", "2220822432581729238", "201467077743744681014", "18435588552550705911377",
    "1699246443377779418889494", "157589260710736940541561021", "14692398516908006398225702366",
    "1376110854313351899159632866552", "129408626276669278966252031311350",
    "12212914292949226570880576733896687", "1156251260549368082781614413945980126",
    "109778913483063648128485839045703833541" };
  static final long LUCY_MAX = 400_000_000_000L;

  static BigInteger primeSum(BigInteger X) {
    if (X.compareTo(BigInteger.TWO) < 0) return BigInteger.ZERO;
    long x = X.longValueExact();
    if (x <= 3_000_000) return sumPrimes(2, x);
    long best = -1; int bk = 0;
    for (int k = 6; k < 19; k++) {
      long a = BigInteger.TEN.pow(k).longValueExact();
      long d = Math.abs(a - x);
      if (best < 0 || d < best) { best = d; bk = k; }
    }
    if (best <= 400_000_000L && (x > LUCY_MAX || best <= 20_000_000L)) {
      long a = BigInteger.TEN.pow(bk).longValueExact();
      BigInteger s = new BigInteger(ANCHOR[bk]);
      return x >= a ? s.add(sumPrimes(a + 1, x)) : s.subtract(sumPrimes(x + 1, a));
    }
    return lucy(x).sum(x);
  }
  static final Map<BigInteger, BigInteger> psCache = new LinkedHashMap<>();
  @TLAPlusOperator(identifier = "PrimeSum", module = "NTBig", warn = false)
  public static Value primeSumV(Value x) {
    BigInteger k = B(x), v;
    synchronized (psCache) { v = psCache.get(k); }
    if (v == null) { v = primeSum(k); synchronized (psCache) { psCache.put(k, v); } }
    return S(v);
  }
  @TLAPlusOperator(identifier = "PrimeSumKnown", module = "NTBig", warn = false)
  public static Value primeSumKnown(Value xv) {
    BigInteger x = B(xv);
    if (x.compareTo(BigInteger.valueOf(LUCY_MAX)) <= 0) return BoolValue.ValTrue;
    for (int k = 11; k < 19; k++)
      if (BigInteger.TEN.pow(k).subtract(x).abs().compareTo(BigInteger.valueOf(400_000_000L)) <= 0) return BoolValue.ValTrue;
    return BoolValue.ValFalse;
  }
  // sum of the primes in ]a, b]
  @TLAPlusOperator(identifier = "PrimeSumIn", module = "NTBig", warn = false)
  public static Value primeSumIn(Value a, Value b) { return S(sumPrimes(L(a) + 1, L(b))); }

  @TLAPlusOperator(identifier = "PrimeCount", module = "NTBig", warn = false)
  public static Value primeCount(Value xv) {
    long x = L(xv);
    if (x < 2) return S(0);
    if (x <= 3_000_000) return S(countPrimes(2, x));
    return S(lucy(x).count(x));
  }

  // ------------------------------------------------------------ P2, S1, phi
  // sum of p*q, p<=q primes, p > y, p*q <= x
  static BigInteger p2(BigInteger x, long y) {
    long sq = x.sqrt().longValueExact();
    if (sq <= y) return BigInteger.ZERO;
    long z = x.divide(BigInteger.valueOf(Math.max(y, 1))).longValueExact();
    boolean small = x.bitLength() < 63;
    if (small && x.longValueExact() <= (z > 2_000_000_000 ? 500_000_000_000L : 60_000_000_000L) && z > 20_000_000) {
      // S(x/p) from the floor-value table
      Lucy l = lucy(x.longValueExact());
      long xx = x.longValueExact();
      BigInteger[] r = { BigInteger.ZERO };
      primes(y + 1, sq, p -> r[0] = r[0].add(l.sum(xx / p).subtract(l.sum(p - 1)).multiply(BigInteger.valueOf(p))));
      return r[0];
    }
    // primes p in ]y, sq] descending against primes q ascending up to z
    long[] ps; int n;
    { ArrayList<long[]> chunks = new ArrayList<>(); long[] cur = new long[1 << 16]; int[] c = {0};
      long[][] cc = { cur };
      primes(y + 1, sq, p -> { if (c[0] == cc[0].length) { chunks.add(cc[0]); cc[0] = new long[1 << 16]; c[0] = 0; } cc[0][c[0]++] = p; });
      n = chunks.size() * (1 << 16) + c[0];
      ps = new long[n];
      int o = 0;
      for (long[] ch : chunks) { System.arraycopy(ch, 0, ps, o, ch.length); o += ch.length; }
      System.arraycopy(cc[0], 0, ps, o, c[0]); }
    // bound[i] = x / ps[i] (decreasing in i); process q in (y, z]; for each q ascending, keep pointer
    final int[] i = { n - 1 };
    final long[] bound = { n > 0 ? x.divide(BigInteger.valueOf(ps[n - 1])).longValueExact() : 0 };
    final Acc s = new Acc();                          // sum of primes in (y, q)
    final BigInteger[] res = { BigInteger.ZERO };
    final boolean fast = small;
    final long xs = small ? x.longValueExact() : 0;
    // sum over p of p * (sum of primes q in (y, x/p]) minus p*(sum of primes in (y, p-1])
    primes(y + 1, z, q -> {
      while (i[0] >= 0 && bound[0] < q) {
        res[0] = res[0].add(s.get().multiply(BigInteger.valueOf(ps[i[0]])));
        i[0]--;
        if (i[0] >= 0) bound[0] = fast ? xs / ps[i[0]] : x.divide(BigInteger.valueOf(ps[i[0]])).longValueExact();
      }
      if (q <= sq) res[0] = res[0].subtract(s.get().multiply(BigInteger.valueOf(q)));
      s.add(q);
    });
    while (i[0] >= 0) { res[0] = res[0].add(s.get().multiply(BigInteger.valueOf(ps[i[0]]))); i[0]--; }
    return res[0];
  }
  @TLAPlusOperator(identifier = "P2Sum", module = "NTBig", warn = false)
  public static Value p2V(Value x, Value y) { return S(p2(B(x), L(y))); }

  static final int[] TINY = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29};

  // sum of n <= x coprime to the first c primes, closed form by inclusion-exclusion
  static BigInteger phiSumTiny(BigInteger x, int c) {
    if (c == 0) { return x.signum() <= 0 ? BigInteger.ZERO : x.multiply(x.add(BigInteger.ONE)).shiftRight(1); }
    if (x.signum() <= 0) return BigInteger.ZERO;
    BigInteger p = BigInteger.valueOf(TINY[c - 1]);
    return phiSumTiny(x, c - 1).subtract(phiSumTiny(x.divide(p), c - 1).multiply(p));
  }
  // same with 64-bit x: quotient and remainder modulo the primorial
  static final class TinySum {
    final int c; final long pp; final long tot; final BigInteger per; final long[] pre; final int[] cnt;
    TinySum(int c) {
      this.c = c;
      long m = 1, t = 1;
      for (int i = 0; i < c; i++) { m *= TINY[i]; t *= TINY[i] - 1; }
      pp = m; tot = t;
      pre = new long[(int) pp]; cnt = new int[(int) pp];
      long s = 0; int k = 0;
      for (int r = 0; r < pp; r++) {
        boolean ok = r > 0 || c == 0;
        for (int i = 0; ok && i < c; i++) ok = r % TINY[i] != 0;
        if (ok) { s += r; k++; }
        pre[r] = s; cnt[r] = k;
      }
      per = BigInteger.valueOf(s);
    }
  }
  static final TinySum[] TS = new TinySum[8];
  static synchronized TinySum ts(int c) { if (TS[c] == null) TS[c] = new TinySum(c); return TS[c]; }
  // adds w * phi_sum(x, c) to acc; needs w * x^2 < 2^126
  static void addTiny(Acc acc, long x, int c, long w) {
    if (c > 7) { addTiny(acc, x, c - 1, w); addTiny(acc, x / TINY[c - 1], c - 1, -w * TINY[c - 1]); return; }
    TinySum t = ts(c);
    if (c == 0) { long a = x, b = x + 1; if ((a & 1) == 0) a /= 2; else b /= 2; addMul3(acc, a, b, w); return; }
    long q = x / t.pp; int r = (int) (x % t.pp);
    // sum = q*S + pp*tot*q(q-1)/2 + cnt[r]*pp*q + pre[r]
    long a = q, b = q - 1;
    if ((a & 1) == 0) a /= 2; else b /= 2;
    if (q > 0) {
      addMul3(acc, t.per.longValueExact() * 1L, q, w);
      addMul3(acc, a * t.pp, b * t.tot, w);
      addMul3(acc, (long) t.cnt[r] * t.pp, q, w);
    }
    acc.addMul(t.pre[r], w);
  }
  static void addMul3(Acc acc, long a, long b, long w) {
    long h = Math.multiplyHigh(a, b), l = a * b;        // a,b >= 0
    // (h,l) * w
    long lw = l * w, hw = Lucy.umulh(l, w) + h * w - (w < 0 ? l : 0);
    // umulh treats w as unsigned: correct for negative w
    long o = acc.lo;
    acc.lo += lw;
    acc.hi += hw + (Long.compareUnsigned(acc.lo, o) < 0 ? 1 : 0);
  }

  static BigInteger s1(BigInteger x, long y, int c) {
    int[] bp = basePrimes(y + 1);
    int n = 0;
    while (n < bp.length && bp[n] <= y) n++;
    if (x.bitLength() <= 50) {
      Acc acc = new Acc();
      s1rec(acc, x.longValueExact(), y, c, c, 1, 1, bp, n);
      return acc.get();
    }
    BigInteger[] r = { BigInteger.ZERO };
    s1recBig(r, x, y, c, c, 1, 1, bp, n);
    return r[0];
  }
  static void s1rec(Acc acc, long x, long y, int c, int b, long sf, int mu, int[] bp, int n) {
    addTiny(acc, x / sf, c, mu * sf);
    for (int i = b; i < n; i++) {
      long nx = sf * bp[i];
      if (nx > y) break;
      s1rec(acc, x, y, c, i + 1, nx, -mu, bp, n);
    }
  }
  static void s1recBig(BigInteger[] r, BigInteger x, long y, int c, int b, long sf, int mu, int[] bp, int n) {
    BigInteger f = BigInteger.valueOf(sf);
    BigInteger t = phiSumTinyFast(x.divide(f), c).multiply(f);
    r[0] = mu > 0 ? r[0].add(t) : r[0].subtract(t);
    for (int i = b; i < n; i++) {
      long nx = sf * bp[i];
      if (nx > y) break;
      s1recBig(r, x, y, c, i + 1, nx, -mu, bp, n);
    }
  }
  static BigInteger phiSumTinyFast(BigInteger x, int c) {
    if (c == 0) return phiSumTiny(x, 0);
    if (c > 7) {
      BigInteger p = BigInteger.valueOf(TINY[c - 1]);
      return phiSumTinyFast(x, c - 1).subtract(phiSumTinyFast(x.divide(p), c - 1).multiply(p));
    }
    TinySum t = ts(c);
    BigInteger[] qr = x.divideAndRemainder(BigInteger.valueOf(t.pp));
    BigInteger q = qr[0]; int r = qr[1].intValue();
    BigInteger res = q.multiply(t.per);
    res = res.add(q.multiply(q.subtract(BigInteger.ONE)).shiftRight(1).multiply(BigInteger.valueOf(t.pp * t.tot)));
    res = res.add(q.multiply(BigInteger.valueOf((long) t.cnt[r] * t.pp)));
    return res.add(BigInteger.valueOf(t.pre[r]));
  }
  @TLAPlusOperator(identifier = "S1Sum", module = "NTBig", warn = false)
  public static Value s1V(Value x, Value y, Value c) { return S(s1(B(x), L(y), (int) L(c))); }

  // difference S1(x, y2, c) - S1(x, y1, c): the leaves y1 < n <= y2
  @TLAPlusOperator(identifier = "S1Between", module = "NTBig", warn = false)
  public static Value s1Between(Value xv, Value y1v, Value y2v, Value cv) {
    BigInteger x = B(xv), r = BigInteger.ZERO; long y1 = L(y1v), y2 = L(y2v); int c = (int) L(cv);
    int[] bp = basePrimes((long) Math.sqrt((double) y2) + 2);
    for (long n = y1 + 1; n <= y2; n++) {
      long m = n; int mu = 1; boolean ok = true; int idx = 0;
      for (int p : bp) {
        if ((long) p * p > m) break;
        idx++;
        if (m % p == 0) {
          m /= p; mu = -mu;
          if (m % p == 0 || idx <= c) { ok = false; break; }
        }
      }
      if (ok && m > 1) { mu = -mu; if (c > 0 && m <= TINY[c - 1]) ok = false; }
      if (!ok) continue;
      BigInteger f = BigInteger.valueOf(n);
      BigInteger t = phiSumTinyFast(x.divide(f), c).multiply(f);
      r = mu > 0 ? r.add(t) : r.subtract(t);
    }
    return S(r);
  }

  // count / sum of n<=x free of the first a primes
  static long phi(long x, int a, int[] bp) {
    if (x < 1) return 0;
    if (a == 0) return x;
    if (a <= 6) { TinySum t = ts(a); return x / t.pp * t.tot + t.cnt[(int) (x % t.pp)]; }
    long r = 0;
    // phi(x,a) = phi(x,6) - sum_{i=7..a} phi(x/p_i, i-1)
    r = phi(x, 6, bp);
    for (int i = 6; i < a; i++) {
      long p = bp[i];
      if (p > x) break;
      if (p > x / p) { r -= countIdx(bp, Math.min(a, bp.length), i, x); break; }
      r -= phi(x / p, i, bp);
    }
    return r;
  }
  // number of j in [i, a[ with bp[j] <= x : each phi(x/p_j, j) there is 1
  static long countIdx(int[] bp, int a, int i, long x) {
    int lo = i, hi = a;
    while (lo < hi) { int m = (lo + hi) >>> 1; if (bp[m] <= x) lo = m + 1; else hi = m; }
    return lo - i;
  }
  static int[] firstPrimes(long a) {
    long m = 100;
    int[] bp = basePrimes(m);
    while (bp.length < a + 2) { m = Math.max(m * 2, baseMax * 2L); bp = basePrimes(m); }
    return bp;
  }
  @TLAPlusOperator(identifier = "Phi", module = "NTBig", warn = false)
  public static Value phiV(Value xv, Value av) {
    long a = L(av);
    if (B(xv).bitLength() > 63 || (B(xv).bitLength() > 40 && a <= 8)) return S(phiWide(B(xv), (int) a));
    long x = L(xv);
    if (x < 1) return S(0);
    if (a < 1) return S(x);
    if (a >= x) return S(1);
    int[] bp = firstPrimes(a);
    // Legendre range: all primes up to sqrt(x) are removed
    if (bp[(int) a - 1] >= BigInteger.valueOf(x).sqrt().longValue()) {
      long pix = x <= 3_000_000 ? countPrimes(2, x) : lucy(x).count(x);
      return S(Math.max(1, pix - a + 1));
    }
    if (a > 8 && x > 20_000_000L && x <= LUCY_MAX) return S(phiSieve(x, (int) a, bp));
    return S(phi(x, (int) a, bp));
  }
  static BigInteger phiWide(BigInteger x, int a) {
    if (a < 1) return x;
    return phiWide(x, a - 1).subtract(phiWide(x.divide(BigInteger.valueOf(firstPrimes(a)[a - 1])), a - 1));
  }
  // phi(x, a) for a < pi(sqrt x): the sieve of Legendre on the values x / k, stopped after a primes
  static long phiSieve(long x, int a, int[] bp) {
    int r = (int) BigInteger.valueOf(x).sqrt().longValue();
    long[] sc = new long[r + 2], bc = new long[r + 2];
    for (int v = 1; v <= r; v++) sc[v] = v - 1;
    for (int k = 1; k <= r; k++) bc[k] = x / k - 1;
    // sc[v], bc[k]: count of the numbers 2..v (2..x/k) that are prime or free of the primes so far
    for (int i = 0; i < a; i++) {
      long p = bp[i], p2 = p * p;
      if (p2 > x) break;
      long cp = sc[(int) p - 1];
      int kmax = (int) Math.min(r, x / p2);
      int rp = (int) (r / p), k = 1;
      for (; k <= kmax && k <= rp; k++) bc[k] -= bc[(int) (k * p)] - cp;
      long xp = x / p;
      for (; k <= kmax; k++) bc[k] -= sc[(int) (xp / k)] - cp;
      for (int v = r; v >= p2; v--) sc[v] -= sc[(int) (v / p)] - cp;
    }
    return bc[1] - a + 1;       // without the first a primes, with 1
  }
  static BigInteger phiSum(BigInteger x, int a, int[] bp) {
    if (x.signum() <= 0) return BigInteger.ZERO;
    if (a <= 6) return phiSumTinyFast(x, a);
    BigInteger r = phiSumTinyFast(x, 6);
    for (int i = 6; i < a; i++) {
      BigInteger p = BigInteger.valueOf(bp[i]);
      if (p.compareTo(x) > 0) break;
      r = r.subtract(phiSum(x.divide(p), i, bp).multiply(p));
    }
    return r;
  }
  @TLAPlusOperator(identifier = "PhiSum", module = "NTBig", warn = false)
  public static Value phiSumV(Value xv, Value av) {
    BigInteger x = B(xv); long a = L(av);
    if (x.signum() <= 0) return S(0);
    if (a < 0) a = 0;
    if (x.bitLength() < 32 && a >= x.longValueExact()) return S(1);
    return S(phiSum(x, (int) a, firstPrimes(a)));
  }

  // ------------------------------------------------------------ special leaves
  // classes of the leaves n = p_b * m, m <= y < n, lpf(m) > p_b, mu(m) != 0, b > c
  //   trivial: x/n < p_b     easy: not trivial, p_b > sqrt(y), x/n < y     hard: all other
  static final Map<String, BigInteger[]> leafCache = new LinkedHashMap<>() {
    @Override protected boolean removeEldestEntry(Map.Entry<String, BigInteger[]> e) { return size() > 64; }
  };
  static BigInteger[] leaves(long x, long y, int c) {
    String key = x + "/" + y + "/" + c;
    synchronized (leafCache) { BigInteger[] r = leafCache.get(key); if (r != null) return r; }
    int yy = (int) y;
    int z = (int) (x / Math.max(y, 1));
    // Fenwick tree over 1..z of the numbers still present, as sums
    long[] t = new long[z + 1];
    for (int i = 1; i <= z; i++) { t[i] += i; int j = i + (i & -i); if (j <= z) t[j] += t[i]; }
    boolean[] gone = new boolean[z + 1];
    int[] lpf = new int[yy + 1]; byte[] mu = new byte[yy + 1];
    Arrays.fill(mu, (byte) 1);
    for (int p = 2; p <= yy; p++) if (lpf[p] == 0)
      for (int k = p; k <= yy; k += p) { if (lpf[k] == 0) lpf[k] = p; mu[k] = (byte) ((k / p) % p == 0 ? 0 : -mu[k]); }
    Acc[] acc = { new Acc(), new Acc(), new Acc() };
    int b = 0;
    for (int p = 2; p <= yy; p++) {
      if (lpf[p] != p) continue;
      b++;
      if (b > c) {
        boolean big = (long) p * p > y;
        for (int m = yy; (long) m * p > y && m > p; m--) {
          if (mu[m] == 0 || lpf[m] <= p) continue;
          long n = (long) m * p, xn = x / n;
          long s = 0;
          for (int i = (int) xn; i > 0; i -= i & -i) s += t[i];
          int cls = xn < p ? 0 : (big && xn < y) ? 1 : 2;
          mulAdd(acc[cls], s, n, -mu[m]);
        }
      }
      for (int k = p; k <= z && k > 0; k += p) if (!gone[k]) {
        gone[k] = true;
        for (int i = k; i <= z; i += i & -i) t[i] -= k;
      }
    }
    BigInteger[] r = { acc[0].get(), acc[1].get(), acc[2].get() };
    synchronized (leafCache) { leafCache.put(key, r); }
    return r;
  }
  static void mulAdd(Acc a, long s, long n, int sign) { addMul3(a, s, n, sign); }
  @TLAPlusOperator(identifier = "S2TrivialSum", module = "NTBig", warn = false)
  public static Value s2t(Value x, Value y, Value c) { return S(leaves(L(x), L(y), (int) L(c))[0]); }
  @TLAPlusOperator(identifier = "S2EasySum", module = "NTBig", warn = false)
  public static Value s2e(Value x, Value y, Value c) { return S(leaves(L(x), L(y), (int) L(c))[1]); }
  @TLAPlusOperator(identifier = "S2HardSum", module = "NTBig", warn = false)
  public static Value s2h(Value x, Value y, Value c) { return S(leaves(L(x), L(y), (int) L(c))[2]); }

  // hard leaves p*m with p <= sqrt(y) and x/(p*m) <= z, for any x; sieves 1..z only
  @TLAPlusOperator(identifier = "S2HardUpTo", module = "NTBig", warn = false)
  public static Value s2hUpTo(Value xv, Value yv, Value zv, Value cv) {
    BigInteger x = B(xv); int yy = (int) L(yv), z = (int) L(zv), c = (int) L(cv);
    long[] t = new long[z + 1];
    for (int i = 1; i <= z; i++) { t[i] += i; int j = i + (i & -i); if (j <= z) t[j] += t[i]; }
    java.util.BitSet gone = new java.util.BitSet(z + 1);
    ensureTab(yy);
    BigInteger res = BigInteger.ZERO;
    int b = 0;
    for (int p = 2; (long) p * p <= yy; p++) {
      if (lpfTab[p] != p) continue;
      b++;
      if (b > c) {
        BigInteger x2 = x.divide(BigInteger.valueOf(p));
        boolean small = x2.bitLength() < 63; long x2l = small ? x2.longValueExact() : 0;
        Acc acc = new Acc();
        for (int m = yy; (long) m * p > yy && m > p; m--) {
          if (muTab[m] == 0 || lpfTab[m] <= p) continue;
          long xn = small ? x2l / m : x2.divide(BigInteger.valueOf(m)).min(BigInteger.valueOf(Long.MAX_VALUE)).longValue();
          if (xn > z) break;                       // x/(p*m) grows as m shrinks
          if (xn < p) continue;
          long s = 0;
          for (int i = (int) xn; i > 0; i -= i & -i) s += t[i];
          acc.addMul(s, -muTab[m] * (long) m);
        }
        res = res.add(acc.get().multiply(BigInteger.valueOf(p)));
      }
      for (int k = p; k <= z && k > 0; k += p) if (!gone.get(k)) {
        gone.set(k);
        for (int i = k; i <= z; i += i & -i) t[i] -= k;
      }
    }
    return S(res);
  }

  // trivial leaves for any x: sum over primes p, p > p_c, of p * sum of primes q, max(p, x/p^2) < q <= y
  @TLAPlusOperator(identifier = "S2TrivialBig", module = "NTBig", warn = false)
  public static Value s2tBig(Value xv, Value yv, Value cv) {
    BigInteger x = B(xv); long y = L(yv); int c = (int) L(cv);
    long z = x.divide(BigInteger.valueOf(y)).longValueExact();
    long lo = Math.max(c > 0 ? TINY[c - 1] : 1, BigInteger.valueOf(z).sqrt().longValueExact());
    // all primes in ]lo, y] with prefix sums
    int n = (int) countPrimes(lo + 1, y);
    long[] ps = new long[n]; int[] k = {0};
    primes(lo + 1, y, p -> ps[k[0]++] = p);
    BigInteger r = BigInteger.ZERO;
    // as p grows x/p^2 shrinks; q-bound = max(p, x/p^2)
    Acc suf = new Acc(); int j = n;             // suf = sum ps[j..n-1]
    int i = 0;
    // phase with x/p^2 decreasing: pointer j moves down; then bound = p: recompute from prefix
    long[] preHi = new long[n + 1], preLo = new long[n + 1];
    Acc a = new Acc();
    for (int q = 0; q < n; q++) { preHi[q] = a.hi; preLo[q] = a.lo; a.add(ps[q]); }
    preHi[n] = a.hi; preLo[n] = a.lo;
    BigInteger tot = a.get();
    Acc acc = new Acc();
    boolean small = tot.bitLength() < 63;
    for (i = 0; i < n; i++) {
      long p = ps[i];
      BigInteger b1 = x.divide(BigInteger.valueOf(p).multiply(BigInteger.valueOf(p)));
      long bound = b1.bitLength() > 62 ? Long.MAX_VALUE : Math.max(p, b1.longValue());
      if (bound >= y) continue;
      int pos = Arrays.binarySearch(ps, bound);
      pos = pos >= 0 ? pos + 1 : -pos - 1;      // first index with ps > bound
      if (small) acc.addMul(preLo[n] - preLo[pos], p);
      else {
        BigInteger s = tot.subtract(BigInteger.valueOf(preHi[pos]).shiftLeft(64).add(u64(preLo[pos])));
        r = r.add(s.multiply(BigInteger.valueOf(p)));
      }
    }
    return S(r.add(acc.get()));
  }

  // easy leaves for any x, with phi computed from primes <= y:
  // sum over b > max(c, pi(sqrt y)), p = p_b, primes q in ]max(p, z/p), min(y, x/p^2)], of
  //   p*q*(1 + sum of primes in [p, x/(p*q)])
  @TLAPlusOperator(identifier = "S2EasyBig", module = "NTBig", warn = false)
  public static Value s2eBig(Value xv, Value yv, Value cv) {
    BigInteger x = B(xv); long y = L(yv); long c = L(cv);
    BigInteger z = x.divide(BigInteger.valueOf(y));
    int[] bp = basePrimes(y + 1);
    int n = 0;
    while (n < bp.length && bp[n] <= y) n++;
    int[] pi = new int[(int) y + 1];
    for (int v = 0, i = 0; v <= y; v++) { while (i < n && bp[i] <= v) i++; pi[v] = i; }
    long[] pre = new long[n + 1];
    for (int i = 0; i < n; i++) pre[i + 1] = pre[i] + bp[i];
    long sqy = BigInteger.valueOf(y).sqrt().longValue();
    BigInteger r = BigInteger.ZERO;
    for (int b = (int) Math.max(c, pi[(int) sqy]); b < n; b++) {       // 0-based: prime number b+1
      long p = bp[b];
      BigInteger P = BigInteger.valueOf(p);
      if (P.pow(3).compareTo(x) > 0) break;
      BigInteger x2 = x.divide(P);
      BigInteger hiB = x2.divide(P);
      long hi = hiB.compareTo(BigInteger.valueOf(y)) > 0 ? y : hiB.longValueExact();
      long lo = Math.max(p, z.divide(P).min(BigInteger.valueOf(y)).longValueExact());
      Acc acc = new Acc(); BigInteger rb = BigInteger.ZERO; int cntAcc = 0;
      boolean x2small = x2.bitLength() < 63; long x2l = x2small ? x2.longValueExact() : 0;
      for (int j = pi[(int) hi] - 1; j >= 0 && bp[j] > lo; j--) {
        long q = bp[j];
        long xn = x2small ? x2l / q : x2.divide(BigInteger.valueOf(q)).longValueExact();
        long phi = 1 + pre[pi[(int) xn]] - pre[b];
        acc.addMul(phi, q);
      }
      r = r.add(acc.get().multiply(P));
    }
    return S(r);
  }

  // ------------------------------------------------------------ elementary
  static BigInteger U(Value v) { return B(v); }
  @TLAPlusOperator(identifier = "IsPrimeB", module = "NTBig", warn = false)
  public static Value isPrimeV(Value v) { return bool(isPrimeU(B(v))); }
  static final BigInteger U64MAX = BigInteger.ONE.shiftLeft(64).subtract(BigInteger.ONE);
  @TLAPlusOperator(identifier = "NextPrimeB", module = "NTBig", warn = false)
  public static Value nextPrime(Value v) {         // smallest prime > v
    BigInteger n = B(v).add(BigInteger.ONE);
    if (n.compareTo(BigInteger.TWO) <= 0) return S(2);
    if (!n.testBit(0)) n = n.add(BigInteger.ONE);
    while (!isPrimeU(n)) n = n.add(BigInteger.TWO);
    return S(n);
  }
  @TLAPlusOperator(identifier = "PrevPrimeB", module = "NTBig", warn = false)
  public static Value prevPrime(Value v) {         // largest prime < v, 0 if none
    BigInteger n = B(v).subtract(BigInteger.ONE);
    if (n.compareTo(BigInteger.TWO) < 0) return S(0);
    if (n.equals(BigInteger.TWO)) return S(2);
    if (!n.testBit(0)) n = n.subtract(BigInteger.ONE);
    while (!isPrimeU(n)) n = n.subtract(BigInteger.TWO);      // ends at 3
    return S(n);
  }

  // primes in [a, b] for any 0 <= a <= b < 2^64 (as unsigned)
  static void primesU(BigInteger a, BigInteger b, java.util.function.Consumer<BigInteger> f) {
    if (b.bitLength() < 63) {
      primes(Math.max(0, a.longValueExact()), b.longValueExact(), p -> f.accept(BigInteger.valueOf(p)));
      return;
    }
    BigInteger n = a;
    if (n.compareTo(BigInteger.TWO) <= 0) { f.accept(BigInteger.TWO); n = BigInteger.valueOf(3); }
    if (!n.testBit(0)) n = n.add(BigInteger.ONE);
    // trial divide by small primes with a little sieve, then Miller-Rabin
    for (; n.compareTo(b) <= 0; n = n.add(BigInteger.TWO)) if (isPrimeU(n)) f.accept(n);
  }
  static final int[][][] TUP = {
    {}, {{0}}, {{0, 2}}, {{0, 2, 6}, {0, 4, 6}}, {{0, 2, 6, 8}},
    {{0, 2, 6, 8, 12}, {0, 4, 6, 10, 12}}, {{0, 4, 6, 10, 12, 16}} };
  // prime k-tuplets wholly inside [a, b]
  static ArrayList<long[]> tuplets(int k, BigInteger a, BigInteger b) {
    ArrayList<long[]> out = new ArrayList<>();
    if (a.compareTo(b) > 0) return out;
    long[] win = new long[8]; int[] cnt = {0};
    primesU(a.max(BigInteger.ZERO), b, P -> {
      long p = P.longValue();
      System.arraycopy(win, 1, win, 0, 7); win[7] = p; cnt[0]++;
      for (int[] pat : TUP[k]) {
        int len = pat.length;
        if (cnt[0] < len) continue;
        boolean ok = true; long s = win[8 - len];
        for (int i = 0; i < len && ok; i++) ok = win[8 - len + i] - s == pat[i];
        if (ok) { long[] t = new long[len]; System.arraycopy(win, 8 - len, t, 0, len); out.add(t); }
      }
    });
    return out;
  }
  // number of primes (k=1) or k-tuplets in [a,b]; the sieve library does not count
  // tuplets that start at 2 (none exists) and treats (3,5),(5,7).. as ordinary ones
  static final Map<String, Long> tupCache = new LinkedHashMap<>();
  @TLAPlusOperator(identifier = "CountTuplets", module = "NTBig", warn = false)
  public static Value countTuplets(Value kv, Value av, Value bv) {
    int k = (int) L(kv); BigInteger a = B(av), b = B(bv);
    if (a.compareTo(b) > 0) return S(0);
    String key = k + ":" + a + ":" + b;
    synchronized (tupCache) { Long r = tupCache.get(key); if (r != null) return S(r); }
    long[] r = new long[1];
    if (k == 1) {
      if (b.bitLength() < 60 && b.subtract(a).bitLength() > 31) r[0] = lucy(b.longValue()).count(b.longValue()) - (a.signum() > 0 ? lucyCount(a.longValue() - 1) : 0);
      else primesU(a, b, p -> r[0]++);
    }
    else r[0] = tuplets(k, a, b).size();
    synchronized (tupCache) { tupCache.put(key, r[0]); }
    return S(r[0]);
  }
  static long lucyCount(long x) { return x < 2 ? 0 : x <= 3_000_000 ? countPrimes(2, x) : lucy(x).count(x); }
  // text that printing the k-tuplets of [a,b] must produce, hashed to stay small in traces
  @TLAPlusOperator(identifier = "TupletText", module = "NTBig", warn = false)
  public static Value tupletText(Value kv, Value av, Value bv) {
    int k = (int) L(kv);
    StringBuilder sb = new StringBuilder();
    for (long[] t : tuplets(k, B(av), B(bv))) {
      if (k == 1) sb.append(Long.toUnsignedString(t[0])).append('\n');
      else {
        sb.append('(');
        for (int i = 0; i < t.length; i++) { if (i > 0) sb.append(", "); sb.append(Long.toUnsignedString(t[i])); }
        sb.append(")\n");
      }
    }
    return new StringValue(digest(sb.toString()));
  }
  static String digest(String s) {                  // FNV-1a 64 over the bytes, plus length
    long h = 0xcbf29ce484222325L;
    for (int i = 0; i < s.length(); i++) { h ^= s.charAt(i); h *= 0x100000001b3L; }
    return Long.toUnsignedString(h) + "/" + s.length();
  }
  // digest of the primes in [a,b] as decimal text, one per line
  @TLAPlusOperator(identifier = "PrimesDigest", module = "NTBig", warn = false)
  public static Value primesDigest(Value av, Value bv) {
    if (B(av).compareTo(B(bv)) > 0) return new StringValue(digest(""));
    return tupletText(IntValue.gen(1), av, bv);
  }
  // digest of the first n primes >= start (as text)
  @TLAPlusOperator(identifier = "NPrimesDigest", module = "NTBig", warn = false)
  public static Value nPrimesDigest(Value nv, Value sv) {
    long n = L(nv); BigInteger p = B(sv).subtract(BigInteger.ONE);
    StringBuilder sb = new StringBuilder();
    if (n > 2000 && p.bitLength() < 40) {
      long[] k = {0}; long a = Math.max(0, p.longValue() + 1);
      while (k[0] < n) {
        long b = a + Math.max(1000000, n * 4);
        primes(a, b, q -> { if (k[0]++ < n) sb.append(q).append('\n'); });
        a = b + 1;
      }
    } else
      for (long i = 0; i < n; i++) { p = B(nextPrime(S(p))); sb.append(p).append('\n'); }
    return new StringValue(digest(sb.toString()));
  }
  // n-th prime after (n > 0) or before (n < 0) start, 0 if it does not exist
  // n = 0: the first prime >= start (as the library documents: n = 0 is treated like n = 1)
  @TLAPlusOperator(identifier = "NthPrimeFrom", module = "NTBig", warn = false)
  public static Value nthPrimeFrom(Value nv, Value sv) {
    long n = L(nv); BigInteger s = B(sv);
    if (n >= 0) {
      if (n == 0) { n = 1; s = s.subtract(BigInteger.ONE); }
      if (n > 20_000_000 && s.bitLength() < 36 && n < 8_000_000_000L) {
        // count below a guess, correct it, then step from there
        long c0 = lucyCount(s.longValue()), m = c0 + n;
        double L1 = Math.log(m), x = m * (L1 + Math.log(L1) - 1);
        for (int i = 0; i < 2; i++) x += (m - lucyCount((long) x)) * Math.log(x);
        long a = Math.max(2, (long) x - 2_000_000), c = lucyCount(a - 1);
        while (c >= m) { a = Math.max(2, a - 10_000_000); c = lucyCount(a - 1); }
        long[] k = {c, 0}; final long mm = m;
        while (k[0] < mm) { primes(a, a + 1_000_000, q -> { if (++k[0] == mm) k[1] = q; }); a += 1_000_001; }
        return S(k[1]);
      }
      if (s.bitLength() < 40 && n > 5000) {
        long[] k = {0, 0}; long a = s.longValue() + 1; final long nn = n;
        while (k[0] < nn) {
          long b = a + Math.max(1000000, n * 6);
          primes(a, b, q -> { if (++k[0] == nn) k[1] = q; });
          a = b + 1;
        }
        return S(k[1]);
      }
      for (long i = 0; i < n; i++) s = B(nextPrime(S(s)));
      return S(s);
    }
    n = -n;
    if (s.bitLength() < 37 && n > 5000) {
      long[] c = { lucyCount(s.longValue() - 1) };
      long idx = c[0] - n + 1;                     // 1-based index from below
      if (idx < 1) return S(0);
      return nthPrimeFrom(S(idx), S(0));
    }
    for (long i = 0; i < n && s.signum() > 0; i++) s = B(prevPrime(S(s)));
    return S(s);
  }

  // ------------------------------------------------------------ table entries
  static int[] lpfTab = new int[0]; static byte[] muTab = new byte[0];
  static synchronized void ensureTab(int n) {
    if (lpfTab.length > n) return;
    int m = Math.max(n + 1, 1 << 20);
    int[] lp = new int[m + 1]; byte[] mu = new byte[m + 1];
    int[] pr = new int[m / 5 + 100]; int k = 0;
    mu[1] = 1;
    for (int i = 2; i <= m; i++) {
      if (lp[i] == 0) { lp[i] = i; mu[i] = -1; pr[k++] = i; }
      for (int j = 0; j < k; j++) {
        long v = (long) pr[j] * i;
        if (pr[j] > lp[i] || v > m) break;
        lp[(int) v] = pr[j];
        mu[(int) v] = (byte) (pr[j] == lp[i] ? 0 : -mu[i]);
      }
    }
    lpfTab = lp; muTab = mu;
  }
  // the values of a table for lo..hi: as text "v,v,...", or as a digest (one event binds a whole table)
  static void table(String kind, int lo, int hi, java.util.function.LongConsumer put) {
    ensureTab(hi);
    if (kind.equals("mu")) for (int i = lo; i <= hi; i++) put.accept(muTab[i]);
    else if (kind.equals("lpf")) for (int i = lo; i <= hi; i++) put.accept(lpfTab[i]);
    else if (kind.equals("pi")) {
      int c = 0;
      for (int i = 2; i < lo; i++) if (lpfTab[i] == i) c++;
      for (int i = lo; i <= hi; i++) { if (i >= 2 && lpfTab[i] == i) c++; put.accept(c); }
    } else if (kind.equals("primes")) { for (int i = Math.max(lo, 2); i <= hi; i++) if (lpfTab[i] == i) put.accept(i); }
    else if (kind.equals("primesums")) { long s = 0; for (int i = 2; i <= hi; i++) if (lpfTab[i] == i) { s += i; if (i >= lo) put.accept(s); } }
    else if (kind.equals("factor")) {
      // for the numbers n <= hi coprime to 2,3,5,7 (n >= lo): mu, and when mu != 0 the least prime
      // factor of composites (primes and 1 count as "no small factor" = 0)
      for (int i = Math.max(lo, 1); i <= hi; i++) {
        if (i % 2 == 0 || i % 3 == 0 || i % 5 == 0 || i % 7 == 0) continue;
        put.accept(muTab[i]);
        put.accept(muTab[i] == 0 || i == 1 || lpfTab[i] == i ? 0 : lpfTab[i]);
      }
    } else throw new IllegalArgumentException(kind);
  }
  @TLAPlusOperator(identifier = "TableDigest", module = "NTBig", warn = false)
  public static Value tableDigest(Value kindV, Value loV, Value hiV) {
    Dig d = new Dig();
    table(((StringValue) kindV).val.toString(), (int) L(loV), (int) L(hiV), d::put);
    return new StringValue(d.get());
  }
  @TLAPlusOperator(identifier = "TableText", module = "NTBig", warn = false)
  public static Value tableText(Value kindV, Value loV, Value hiV) {
    StringBuilder b = new StringBuilder();
    table(((StringValue) kindV).val.toString(), (int) L(loV), (int) L(hiV), v -> { if (b.length() > 0) b.append(','); b.append(v); });
    return new StringValue(b.toString());
  }
  static final class Dig {
    long h = 0xcbf29ce484222325L, n = 0;
    void put(long v) { h ^= v; h *= 0x100000001b3L; h ^= h >>> 29; n++; }
    String get() { return Long.toUnsignedString(h) + "/" + n; }
  }
  @TLAPlusOperator(identifier = "MuB", module = "NTBig", warn = false)
  public static Value muV(Value v) { int n = (int) L(v); ensureTab(n); return IntValue.gen(muTab[n]); }
  @TLAPlusOperator(identifier = "LpfB", module = "NTBig", warn = false)
  public static Value lpfV(Value v) { int n = (int) L(v); ensureTab(n); return S(lpfTab[n]); }

  // sum of the members of the set {low <= n <= hi : n odd-indexed relative to low, coprime to the
  // first c primes beyond 2, and with no divisor in the list}: used for segment sieves
  @TLAPlusOperator(identifier = "SieveSum", module = "NTBig", warn = false)
  public static Value sieveSum(Value cV, Value lowV, Value aV, Value bV, Value offV) {
    // numbers low+i, a <= i <= b, i even, not divisible by prime 2..c, not in off (tuple of strings)
    int c = (int) L(cV); BigInteger low = B(lowV); long a = L(aV), b = L(bV);
    java.util.HashSet<Long> off = new java.util.HashSet<>();
    TupleValue tv = (TupleValue) offV.toTuple();
    for (Value e : tv.elems) off.add(L(e));
    BigInteger s = BigInteger.ZERO;
    for (long i = a + (a & 1); i <= b; i += 2) {
      BigInteger v = low.add(BigInteger.valueOf(i));
      boolean ok = !off.contains(i);
      for (int k = 1; ok && k < c; k++) ok = v.mod(BigInteger.valueOf(TINY[k])).signum() != 0;
      if (ok) s = s.add(v);
    }
    return S(s);
  }

  // ------------------------------------------------------------ doubles
  // pow(2^61 * alpha, 1.5) truncated; returned exactly as the real number's enclosure [lo, hi]
  @TLAPlusOperator(identifier = "MaxXLow", module = "NTBig", warn = false)
  public static Value maxXLow(Value alpha) { return S(maxX(alpha, -1)); }
  @TLAPlusOperator(identifier = "MaxXHigh", module = "NTBig", warn = false)
  public static Value maxXHigh(Value alpha) { return S(maxX(alpha, +1)); }
  static BigInteger maxX(Value alpha, int dir) {
    java.math.BigDecimal a = new java.math.BigDecimal(Double.parseDouble(((StringValue) alpha).val.toString()));
    java.math.BigDecimal v = a.multiply(new java.math.BigDecimal(BigInteger.ONE.shiftLeft(61)));
    java.math.MathContext mc = new java.math.MathContext(80);
    java.math.BigDecimal r = v.multiply(v.sqrt(mc), mc);
    // allow a relative error of 2^-48 of the floating point evaluation
    java.math.BigDecimal e = r.divide(new java.math.BigDecimal(BigInteger.ONE.shiftLeft(48)), mc);
    return (dir < 0 ? r.subtract(e) : r.add(e)).toBigInteger();
  }
  static java.math.BigDecimal bd(Value v) { return new java.math.BigDecimal(((StringValue) v).val.toString()); }
  @TLAPlusOperator(identifier = "DFloorMul", module = "NTBig", warn = false)
  public static Value dfloormul(Value r, Value d) {
    java.math.BigDecimal a = new java.math.BigDecimal(Double.parseDouble(((StringValue) d).val.toString()));
    return S(bd(r).multiply(a).toBigInteger());
  }
  @TLAPlusOperator(identifier = "DNear", module = "NTBig", warn = false)
  public static Value dnear(Value d, Value y, Value r, Value tol) {
    java.math.MathContext mc = new java.math.MathContext(60);
    java.math.BigDecimal a = bd(d), t = bd(tol);
    java.math.BigDecimal lo = bd(y).divide(bd(r), mc).subtract(t), hi = bd(y).add(java.math.BigDecimal.ONE).divide(bd(r), mc).add(t);
    return bool(a.compareTo(lo) >= 0 && a.compareTo(hi) <= 0);
  }
}
