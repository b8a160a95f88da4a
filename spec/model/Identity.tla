------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The decomposition the whole program rests on: for every x, every y in    *)
(* [x^(1/3), x^(1/2)] and every number c of primes treated in closed form,   *)
(*                                                                         *)
(*    sum of primes <= x = S1 + S2 + (sum of primes <= y) - 1 - P2           *)
(*                                                                         *)
(* where S2 = trivial + easy + hard special leaves (Deleglise-Rivat), the    *)
(* three classes being disjoint and covering all leaves; and Legendre's      *)
(* count of primes. The reference definitions are plain sets.                *)
(***************************************************************************)
EXTENDS NumberTheory
CONSTANTS XMax, CMax
VARIABLES x, y, c
vars == <<x, y, c>>
PS == PrimeSeq(XMax)
Init == x \in 4..XMax /\ y = 0 /\ c = 0
Next == /\ y = 0 /\ UNCHANGED x
        /\ \E v \in 1..ISqrt(x) : v * v * v >= x /\ y' = v
        /\ c' \in 0..CMax /\ c' <= Pi(y')
Spec == Init /\ [][Next]_vars
Class(P(_)) == { l \in Leaves(x, y, c, PS, Pi(y)) : P(l) }
T == Class(LAMBDA l : IsTrivial(x, l, PS))
E == Class(LAMBDA l : IsEasy(x, y, l, PS))
H == Class(LAMBDA l : IsHard(x, y, l, PS))
Sum(S) == SumOver(S, LAMBDA l : LeafValue(x, l, PS))
Partition == y > 0 => /\ T \cap E = {} /\ T \cap H = {} /\ E \cap H = {}
                      /\ T \cup E \cup H = Leaves(x, y, c, PS, Pi(y))
PhiIdentity == y > 0 => S1Of(x, y, c, PS) + Sum(T) + Sum(E) + Sum(H) = PhiSumOf(x, Pi(y), PS)
SumIdentity == y > 0 => S1Of(x, y, c, PS) + Sum(T) + Sum(E) + Sum(H) + SumPrimes(y) - 1 - P2Of(x, y) = SumPrimes(x)
Legendre == PhiCount(x, Pi(ISqrt(x)), PS) + Pi(ISqrt(x)) - 1 = Pi(x)
\* every trivial leaf has a value that needs no sieve: no number in 2..x/n is free of the first b - 1 primes
TrivialValue == y > 0 => \A l \in T : PhiSumOf(x \div (PS[l[1]] * l[2]), l[1] - 1, PS) = 1
\* easy leaves: the rough numbers up to x/n are 1 and the primes >= p_b
EasyValue == y > 0 => \A l \in E : LET v == x \div (PS[l[1]] * l[2])
                                   IN  PhiSumOf(v, l[1] - 1, PS) = 1 + SumPrimes(v) - (IF l[1] = 1 THEN 0 ELSE SumPrimes(PS[l[1] - 1]))
=============================================================================
