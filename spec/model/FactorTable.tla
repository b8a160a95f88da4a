----------------------------- MODULE FactorTable -----------------------------
(***************************************************************************)
(* The compressed factor table: one small integer per number coprime to    *)
(* the wheel primes, encoding the sign of mu (lowest bit), squarefreeness  *)
(* (0) and the least prime factor (exact or minus one; TMax for primes).   *)
(* The numbers are divided among threads by consecutive intervals.         *)
(***************************************************************************)
EXTENDS NumberTheory
CONSTANTS WP, TMax, YMin, YMax, MaxThreads, Mutant
VARIABLES y, threads, t, p, f
vars == <<y, threads, t, p, f>>

Coprime(n) == \A q \in WP : n % q # 0
Numbers == { n \in 1..y : Coprime(n) }
First == CHOOSE n \in 2..50 : Coprime(n) /\ \A k \in 2..n - 1 : ~ Coprime(k)
Limit == (TMax - 1) * (TMax - 1) - 1
CeilDiv(a, b) == (a + b - 1) \div b
Dist == CeilDiv(y, threads)
Low == 1 + Dist * t
High == IF Low + Dist <= y THEN Low + Dist ELSE y
Xor1(v) == IF v % 2 = 1 THEN v - 1 ELSE v + 1
NextPrime(n) == CHOOSE q \in n + 1..2 * n + 3 : IsPrime(q) /\ \A k \in n + 1..q - 1 : ~ IsPrime(k)

Init == /\ y \in YMin..YMax /\ threads \in 1..MaxThreads
        /\ t = 0 /\ p = First /\ f = [n \in Numbers |-> TMax]
\* one sieving prime of one thread: multiples in ]low, high] with a cofactor coprime to the wheel
\* (not 1 the first time), then the multiples of its square
InRange(m) == IF Mutant = "low" THEN Low + 1 < m /\ m <= High ELSE IF Mutant = "high" THEN Low < m /\ m < High ELSE Low < m /\ m <= High
Multiples(d, least) == { m \in Numbers : m % d = 0 /\ InRange(m) /\ m \div d >= least }
Step ==
  /\ t < threads /\ p * First <= High
  /\ LET ms == Multiples(p, IF Mutant = "prime" THEN 1 ELSE First)
         g == [n \in Numbers |-> IF n \notin ms THEN f[n]
                                 ELSE IF f[n] = TMax THEN p % (TMax + 1)
                                 ELSE IF f[n] # 0 THEN Xor1(f[n]) ELSE 0]
         sq == IF p <= (IF Mutant = "sqrt" THEN ISqrt(y) - 1 ELSE ISqrt(y)) THEN Multiples(p * p, 1) ELSE {}
     IN  f' = [n \in Numbers |-> IF n \in sq THEN 0 ELSE g[n]]
  /\ p' = NextPrime(p) /\ UNCHANGED <<y, threads, t>>
NextThread == t < threads /\ p * First > High /\ t' = t + 1 /\ p' = First /\ UNCHANGED <<y, threads, f>>
Next == Step \/ NextThread
Spec == Init /\ [][Next]_vars

\* what users of the table read (a prime has no factor up to sqrt(y))
Correct ==
  t = threads =>
    \A n \in Numbers \ {1} :
      IF Mu(n) = 0 THEN f[n] = 0
      ELSE /\ f[n] # 0 /\ (f[n] % 2 = 1) = (Mu(n) = -1)
           /\ \A q \in Primes(ISqrt(y)) : Coprime(q) => (IF IsPrime(n) THEN q < f[n] ELSE (q < f[n]) = (q < Lpf(n)))
\* no thread touches a number of another one
Apart == \A m \in Numbers : m > 1 => Cardinality({ u \in 0..threads - 1 :
            LET lo == 1 + Dist * u hi == IF lo + Dist <= y THEN lo + Dist ELSE y IN lo < m /\ m <= hi }) = 1
=============================================================================
