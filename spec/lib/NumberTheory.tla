---------------------------- MODULE NumberTheory ----------------------------
(***************************************************************************)
(* The mathematics the system computes, defined directly (by sets), on     *)
(* TLC integers. Everything else in this specification is measured against *)
(* these definitions.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL FSE == INSTANCE FiniteSetsExt

SumOver(S, f(_)) == FSE!MapThenSumSet(f, S)
SumSet(S) == SumOver(S, LAMBDA e : e)

Divides(d, n) == n % d = 0
RECURSIVE SqrtFrom(_, _)
SqrtFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE SqrtFrom(n, r + 1)
ISqrt(n) == SqrtFrom(n, 0)
IsPrime(n) == n >= 2 /\ \A d \in 2..ISqrt(n) : ~ Divides(d, n)
Primes(n) == { p \in 2..n : IsPrime(p) }
Pi(n) == Cardinality(Primes(n))

\* the sequence of the primes <= n, first prime at index 1
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE m \in S : \A e \in S : m <= e IN <<m>> \o Ascending(S \ {m})
PrimeSeq(n) == Ascending(Primes(n))

\* sum of the primes <= x: what the program is for
SumPrimes(x) == SumSet(Primes(x))

\* Moebius function and least / largest prime factor (1 has none)
PrimeFactors(n) == { p \in Primes(n) : Divides(p, n) }
SquareFree(n) == \A p \in PrimeFactors(n) : ~ Divides(p * p, n)
Mu(n) == IF ~ SquareFree(n) THEN 0 ELSE IF Cardinality(PrimeFactors(n)) % 2 = 0 THEN 1 ELSE -1
Lpf(n) == CHOOSE p \in PrimeFactors(n) : \A q \in PrimeFactors(n) : p <= q

\* numbers 1..x free of the first a primes ps[1..a]
Rough(x, a, ps) == { n \in 1..x : \A i \in 1..a : ~ Divides(ps[i], n) }
PhiCount(x, a, ps) == Cardinality(Rough(x, a, ps))
PhiSumOf(x, a, ps) == SumSet(Rough(x, a, ps))

\* semiprimes p*q <= x with primes y < p <= q
Semiprimes(x, y) == { n \in 1..x : \E p \in Primes(ISqrt(n)) : p > y /\ Divides(p, n) /\ IsPrime(n \div p) }
P2Of(x, y) == SumSet(Semiprimes(x, y))

\* ordinary leaves: squarefree n <= y coprime to the first c primes
Ordinary(y, c, ps) == { n \in 1..y : Mu(n) # 0 /\ \A i \in 1..c : ~ Divides(ps[i], n) }
S1Of(x, y, c, ps) == SumOver(Ordinary(y, c, ps), LAMBDA n : Mu(n) * n * PhiSumOf(x \div n, c, ps))

(***************************************************************************)
(* Special leaves: <<b, m>> stands for n = ps[b] * m with c < b <= pi(y),  *)
(* lpf(m) > ps[b] (m = 1 has no factor, so it is not a leaf), mu(m) # 0,   *)
(* m <= y < n. Its contribution is -mu(m) * n * phi_sum(x / n, b - 1).     *)
(***************************************************************************)
Leaves(x, y, c, ps, piy) ==
  { l \in ((c + 1)..piy) \X (2..y) :
      LET p == ps[l[1]] m == l[2] IN m > p /\ Mu(m) # 0 /\ Lpf(m) > p /\ p * m > y }
LeafValue(x, l, ps) == LET n == ps[l[1]] * l[2] IN -Mu(l[2]) * n * PhiSumOf(x \div n, l[1] - 1, ps)
IsTrivial(x, l, ps) == x \div (ps[l[1]] * l[2]) < ps[l[1]]
IsEasy(x, y, l, ps) == ~ IsTrivial(x, l, ps) /\ ps[l[1]] * ps[l[1]] > y /\ x \div (ps[l[1]] * l[2]) < y
IsHard(x, y, l, ps) == ~ IsTrivial(x, l, ps) /\ ~ IsEasy(x, y, l, ps)
=============================================================================
