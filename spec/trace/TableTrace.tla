----------------------------- MODULE TableTrace -----------------------------
(* Validation of recorded lookup tables (drv_tables) against their definitions. *)
EXTENDS NTBig, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(T) /\ l = 1
E == T[s].ev[l]

Coprime(r) == r % 2 # 0 /\ r % 3 # 0 /\ r % 5 # 0 /\ r % 7 # 0
Units == { r \in 1..210 : Coprime(r) }
\* index of the largest number <= n coprime to 210; number 1 has index 0
IndexOf(n) ==
  LET r == BInt(BRem(n, "210"))
  IN  BAdd(BMul("48", BQuo(n, "210")), ToString(Cardinality({ u \in Units : u <= r }) - 1))
\* the (i+1)-th number coprime to 210
NumberOf(i) ==
  LET k == BInt(BRem(i, "48"))
      u == CHOOSE u \in Units : Cardinality({ w \in Units : w < u }) = k
  IN  BAdd(BMul("210", BQuo(i, "48")), ToString(u))
Values(kind, lo, hi, fmt) == IF fmt = "text" THEN TableText(kind, lo, hi) ELSE TableDigest(kind, lo, hi)
\* composites up to here have a least prime factor that fits 16 / 32 bits
FMax(bits) == LET p == NextPrimeB(BPow("2", bits)) IN BSub(BMul(p, p), "1")

R(op, a) ==
  CASE op = "pitable" -> Values("pi", a[2], a[3], a[4])
    [] op = "pigen" -> Values("pi", a[2], a[3], a[4])
    [] op = "primes" -> Values("primes", a[3], a[4], a[5])
    [] op = "sums" -> Values("primesums", a[3], a[4], a[5])
    [] op = "moebius" -> Values("mu", a[2], a[3], a[4])
    [] op = "lpf" -> Values("lpf", a[2], a[3], a[4])
    [] op = "lpf1" -> "1"
    [] op = "primecount" -> PrimeCount(a[1])
    [] op = "nprimes" -> LET p == NthPrimeFrom(a[1], "0") IN a[1] \o "/" \o p \o "/" \o TableDigest("primes", "2", p)
    [] op = "factor" -> Values("factor", a[4], a[5], a[6])
    [] op = "fidx" -> IndexOf(a[1])
    [] op = "toidx" -> IndexOf(a[1])
    [] op = "fnum" -> NumberOf(a[1])

Call == /\ l <= Len(T[s].ev) /\ E.op \notin {"CRASH", "HANG"} /\ l' = l + 1 /\ UNCHANGED s
        /\ IF E.op \in {"sched", "force"} THEN TRUE
           ELSE IF E.op = "factormake" THEN E.e = ""
           ELSE IF E.op = "factorover" THEN E.e = "error"     \* above the stated maximum
           ELSE IF E.op = "fmax" THEN E.e = "" /\ BLeq(E.r, FMax(E.a[1]))
           ELSE E.e = "" /\ E.r = R(E.op, E.a)
Done == l > Len(T[s].ev) /\ UNCHANGED <<s, l>>
Next == Call \/ Done
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
