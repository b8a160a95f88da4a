------------------------------- MODULE NTBig -------------------------------
(***************************************************************************)
(* The definitions of NumberTheory on decimal strings, for arguments of    *)
(* any size. TLC evaluates them by the Java overrides; MCNTBig.tla compares *)
(* those with the definitions below (plain TLA+) on a small domain.        *)
(***************************************************************************)
EXTENDS NumberTheory, BigInt

LOCAL V(s) == CHOOSE i \in -4096..4096 : ToString(i) = s
LOCAL T(i) == ToString(i)
LOCAL PS == PrimeSeq(311)
LOCAL Class(x, y, c, P(_)) ==
  LET ps == PrimeSeq(y + 1)
  IN  SumOver({ l \in Leaves(x, y, c, ps, Pi(y)) : P(l) }, LAMBDA l : LeafValue(x, l, ps))

PrimeSum(x) == T(SumPrimes(V(x)))
PrimeSumKnown(x) == TRUE          \* the oracle can evaluate PrimeSum(x) in reasonable time
PrimeSumIn(a, b) == T(SumSet({ p \in Primes(V(b)) : p > V(a) }))
PrimeCount(x) == T(Pi(V(x)))
P2Sum(x, y) == T(P2Of(V(x), V(y)))
S1Sum(x, y, c) == T(S1Of(V(x), V(y), V(c), PS))
S1Between(x, y1, y2, c) == BSub(S1Sum(x, y2, c), S1Sum(x, y1, c))
Phi(x, a) == IF V(x) < 1 THEN "0" ELSE T(PhiCount(V(x), V(a), PS))
PhiSum(x, a) == IF V(x) < 1 THEN "0" ELSE T(PhiSumOf(V(x), V(a), PS))
S2TrivialSum(x, y, c) == T(Class(V(x), V(y), V(c), LAMBDA l : IsTrivial(V(x), l, PrimeSeq(V(y) + 1))))
S2EasySum(x, y, c) == T(Class(V(x), V(y), V(c), LAMBDA l : IsEasy(V(x), V(y), l, PrimeSeq(V(y) + 1))))
S2HardSum(x, y, c) == T(Class(V(x), V(y), V(c), LAMBDA l : IsHard(V(x), V(y), l, PrimeSeq(V(y) + 1))))
\* the same classes for large x: evaluated from tables up to y only
S2TrivialBig(x, y, c) == S2TrivialSum(x, y, c)
S2EasyBig(x, y, c) == S2EasySum(x, y, c)
\* hard leaves n = p * m with p <= sqrt(y) and x / n <= z only
S2HardUpTo(x, y, z, c) ==
  LET ps == PrimeSeq(V(y) + 1)
  IN  T(SumOver({ l \in Leaves(V(x), V(y), V(c), ps, Pi(V(y))) :
                    IsHard(V(x), V(y), l, ps) /\ ps[l[1]] * ps[l[1]] <= V(y)
                    /\ V(x) \div (ps[l[1]] * l[2]) <= V(z) }, LAMBDA l : LeafValue(V(x), l, ps)))

IsPrimeB(n) == IsPrime(V(n))
NextPrimeB(n) == T(CHOOSE p \in 2..(2 * V(n) + 3) : IsPrime(p) /\ p > V(n) /\ \A q \in 2..p - 1 : q <= V(n) \/ ~ IsPrime(q))
PrevPrimeB(n) == LET S == { p \in Primes(V(n)) : p < V(n) }
                 IN  IF S = {} THEN "0" ELSE T(CHOOSE p \in S : \A q \in S : q <= p)

\* prime k-tuplets (k = 1: primes) wholly inside [a, b]
Patterns(k) == CASE k = 1 -> { {0} } [] k = 2 -> { {0, 2} } [] k = 3 -> { {0, 2, 6}, {0, 4, 6} }
                 [] k = 4 -> { {0, 2, 6, 8} } [] k = 5 -> { {0, 2, 6, 8, 12}, {0, 4, 6, 10, 12} }
                 [] k = 6 -> { {0, 4, 6, 10, 12, 16} }
\* a constellation consists of consecutive primes: no other prime between its members
Tuplets(k, a, b) ==
  { <<p, pat>> \in Primes(b) \X Patterns(k) :
      p >= a /\ \A n \in 0..16 :
        (\A d \in pat : p + d <= b) /\
        ((\E d \in pat : d >= n) => ((n \in pat) <=> IsPrime(p + n))) }
CountTuplets(k, a, b) == IF V(b) < 2 THEN "0" ELSE T(Cardinality(Tuplets(V(k), V(a), V(b))))
\* digests of printed lists and of whole tables: see PsOverrides.java (opaque here)
TupletText(k, a, b) == "opaque"
PrimesDigest(a, b) == "opaque"
NPrimesDigest(n, start) == "opaque"
TableDigest(kind, lo, hi) == "opaque"      \* digest of the values listed by TableText
RECURSIVE NthFrom(_, _)
NthFrom(n, s) == IF n = 0 THEN s ELSE IF n > 0 THEN NthFrom(n - 1, V(NextPrimeB(T(s))))
                 ELSE IF s = 0 THEN 0 ELSE NthFrom(n + 1, V(PrevPrimeB(T(s))))
NthPrimeFrom(n, s) == T(NthFrom(V(n), V(s)))
MuB(n) == Mu(V(n))
LpfB(n) == IF n = "1" THEN "0" ELSE T(Lpf(V(n)))
\* the values of a table for lo..hi; "factor": for the numbers coprime to 210, mu and (mu # 0, composite) the least prime factor
TableValues(kind, lo, hi) ==
  CASE kind = "mu" -> [i \in 1..hi - lo + 1 |-> Mu(lo + i - 1)]
    [] kind = "lpf" -> [i \in 1..hi - lo + 1 |-> Lpf(lo + i - 1)]
    [] kind = "pi" -> [i \in 1..hi - lo + 1 |-> Pi(lo + i - 1)]
    [] kind = "primes" -> SelectSeq(PrimeSeq(hi), LAMBDA p : p >= lo)
    [] kind = "primesums" -> LET q == PrimeSeq(hi) k == Pi(lo - 1)
                             IN  [i \in 1..Len(q) - k |-> SumPrimes(q[i + k])]
    [] kind = "factor" -> LET q == SelectSeq([i \in 1..hi - lo + 1 |-> lo + i - 1], LAMBDA n : \A p \in {2, 3, 5, 7} : n % p # 0)
                          IN  [i \in 1..2 * Len(q) |-> LET n == q[(i + 1) \div 2]
                                                       IN  IF i % 2 = 1 THEN Mu(n) ELSE IF Mu(n) = 0 \/ n = 1 \/ IsPrime(n) THEN 0 ELSE Lpf(n)]
RECURSIVE JoinedText(_, _)
JoinedText(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o T(q[i]) \o JoinedText(q, i + 1)
TableText(kind, lo, hi) == JoinedText(TableValues(kind, V(lo), V(hi)), 1)
\* sum of the members low + i, a <= i <= b, of a segment sieve: i even, coprime to the
\* primes number 2..c and not in off
SieveSum(c, low, a, b, off) ==
  T(SumOver({ i \in V(a)..V(b) : i % 2 = 0 /\ (\A k \in 2..V(c) : ~ Divides(PS[k], V(low) + i))
                               /\ \A k \in 1..Len(off) : V(off[k]) # i }, LAMBDA i : V(low) + i))
\* bounds of (2^61 * alpha)^(3/2) allowing for double rounding
MaxXLow(alpha) == "opaque"
MaxXHigh(alpha) == "opaque"
\* floor(r * d), d a double; is d within tol of some f with y <= r * f < y + 1?
DFloorMul(r, d) == "opaque"
DNear(d, y, r, tol) == TRUE
=============================================================================
