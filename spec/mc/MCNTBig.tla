------------------------------ MODULE MCNTBig ------------------------------
(* The Java overrides of NTBig agree with the set definitions of NumberTheory. *)
EXTENDS NTBig
CONSTANT Kinds
VARIABLES k, x, y, c
vars == <<k, x, y, c>>
XDom(q) == CASE q = "sum" -> 0..130 [] q = "p2" -> 0..90 [] q = "s1" -> 10..40 [] q = "phi" -> 0..60
             [] q = "s2" -> {20, 27, 36, 50, 63, 64, 81, 100, 125} [] q = "tup" -> 0..60 [] q = "iter" -> 0..120
             [] q = "fact" -> 1..150 [] q = "sieve" -> {0, 7, 16, 30} [] q = "table" -> {2, 3, 10, 120, 121, 122, 200}
Dom(q) == CASE q \in {"sum", "fact"} -> {0} \X {0}
            [] q = "p2" -> (1..10) \X {0}
            [] q = "s1" -> (1..9) \X (0..3)
            [] q = "phi" -> {0} \X (0..9)
            [] q = "s2" -> { d \in (3..11) \X (0..4) : d[1] * d[1] * d[1] >= x /\ d[1] * d[1] <= x /\ d[2] <= Pi(d[1]) }
            [] q = "tup" -> {61, 75, 103} \X (1..6)
            [] q = "iter" -> {0} \X (-3..3)
            [] q = "table" -> {x - 1, x, x + 30} \X (1..6)
            [] q = "sieve" -> {5, 12, 31} \X (0..4)
\* two steps, so that TLC's workers share the work
Init == k \in Kinds /\ x = -1 /\ y = -1 /\ c = 0
Next == /\ UNCHANGED k
        /\ IF x = -1 THEN x' \in XDom(k) /\ UNCHANGED <<y, c>>
           ELSE y = -1 /\ UNCHANGED x /\ \E d \in Dom(k) : y' = d[1] /\ c' = d[2]
Spec == Init /\ [][Next]_vars
S(i) == ToString(i)
NextP(n) == CHOOSE p \in (n + 1)..(2 * n + 3) : IsPrime(p) /\ \A q \in (n + 1)..(p - 1) : ~ IsPrime(q)
PrevP(n) == IF n <= 2 THEN 0 ELSE CHOOSE p \in 2..(n - 1) : IsPrime(p) /\ \A q \in (p + 1)..(n - 1) : ~ IsPrime(q)
RECURSIVE Walk(_, _)
Walk(n, s) == IF n = 0 THEN s ELSE IF n > 0 THEN Walk(n - 1, NextP(s)) ELSE IF s = 0 THEN 0 ELSE Walk(n + 1, PrevP(s))
ps == PrimeSeq(100)
Sum(P(_)) == LET q == PrimeSeq(y + 1) IN SumOver({ l \in Leaves(x, y, c, q, Pi(y)) : P(l) }, LAMBDA l : LeafValue(x, l, q))
RECURSIVE Join(_, _)
Join(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o S(q[i]) \o Join(q, i + 1)
Agree ==
  y >= 0 =>
  CASE k = "sum" -> PrimeSum(S(x)) = S(SumPrimes(x)) /\ PrimeCount(S(x)) = S(Pi(x)) /\ PrimeSumIn("13", S(x + 13)) = S(SumPrimes(x + 13) - SumPrimes(13))
    [] k = "p2" -> P2Sum(S(x), S(y)) = S(P2Of(x, y))
    [] k = "s1" -> S1Sum(S(x), S(y), S(c)) = S(S1Of(x, y, c, ps)) /\ S1Between(S(x), "2", S(y + 1), S(c)) = S(S1Of(x, y + 1, c, ps) - S1Of(x, 2, c, ps))
    [] k = "phi" -> Phi(S(x), S(c)) = S(PhiCount(x, c, ps)) /\ PhiSum(S(x), S(c)) = S(PhiSumOf(x, c, ps))
    [] k = "s2" ->
         LET q == PrimeSeq(y + 1)
             t == Sum(LAMBDA l : IsTrivial(x, l, q)) e == Sum(LAMBDA l : IsEasy(x, y, l, q)) h == Sum(LAMBDA l : IsHard(x, y, l, q))
         IN  /\ S2TrivialSum(S(x), S(y), S(c)) = S(t) /\ S2TrivialBig(S(x), S(y), S(c)) = S(t)
             /\ S2EasySum(S(x), S(y), S(c)) = S(e) /\ S2EasyBig(S(x), S(y), S(c)) = S(e)
             /\ S2HardSum(S(x), S(y), S(c)) = S(h)
             /\ \A z \in {x \div y, (x \div y) \div 2} :
                  S2HardUpTo(S(x), S(y), S(z), S(c)) = S(Sum(LAMBDA l : IsHard(x, y, l, q) /\ q[l[1]] * q[l[1]] <= y /\ x \div (q[l[1]] * l[2]) <= z))
             \* the partition itself: every leaf in exactly one class, and the algorithm's identity
             /\ S1Of(x, y, c, ps) + t + e + h = PhiSumOf(x, Pi(y), ps)
             /\ PhiSumOf(x, Pi(y), ps) + SumPrimes(y) - 1 - P2Of(x, y) = SumPrimes(x)
    [] k = "tup" -> CountTuplets(S(c), S(x), S(y)) = S(Cardinality(Tuplets(c, x, y)))
    [] k = "iter" -> /\ IsPrimeB(S(x)) = IsPrime(x)
                     /\ NextPrimeB(S(x)) = S(NextP(x)) /\ PrevPrimeB(S(x)) = S(PrevP(x))
                     /\ c # 0 => NthPrimeFrom(S(c), S(x)) = S(Walk(c, x))
    [] k = "fact" -> MuB(S(x)) = Mu(x) /\ (x > 1 => LpfB(S(x)) = S(Lpf(x)))
    [] k = "table" -> LET kind == <<"mu", "lpf", "pi", "primes", "primesums", "factor">>[c]
                          v == TableValues(kind, x, y)
                      IN  TableText(kind, S(x), S(y)) = Join(v, 1)
    [] k = "sieve" -> SieveSum(S(c), S(x), "2", S(y), <<"4", "10">>) =
         S(SumOver({ i \in 2..y : i % 2 = 0 /\ i # 4 /\ i # 10 /\ \A j \in 2..c : ~ Divides(ps[j], x + i) }, LAMBDA i : x + i))
=============================================================================
