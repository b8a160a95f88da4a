------------------------------ MODULE NthPrime ------------------------------
(***************************************************************************)
(* The n-th prime search: count the primes of estimated intervals forwards *)
(* or backwards until the remaining number is small, then walk on with the *)
(* iterator. The estimates are nondeterministic. The answer must be the    *)
(* n-th prime after start (n > 0), before start (n < 0), the first prime   *)
(* >= start (n = 0), or an error if there is none in 2..Top.               *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS Top, MaxN, Dists, Tinys, Mutant
VARIABLES n0, s0, n, start, stop, count, tiny, pc, result
vars == <<n0, s0, n, start, stop, count, tiny, pc, result>>
PSet == Primes(Top)
Up(a, d) == IF a + d < Top THEN a + d ELSE Top
Down(a, d) == IF a > d THEN a - d ELSE 0
InRange(a, b) == Cardinality({ p \in PSet : a <= p /\ p <= b })
NthAbove(k, a) == LET S == { p \in PSet : p > a /\ InRange(a + 1, p) = k } IN IF S = {} THEN -1 ELSE CHOOSE p \in S : TRUE
NthBelow(k, a) == LET S == { p \in PSet : p < a /\ InRange(p, a - 1) = k } IN IF S = {} THEN -1 ELSE CHOOSE p \in S : TRUE
Wanted == IF n0 = 0 THEN NthAbove(1, s0 - 1) ELSE IF n0 > 0 THEN NthAbove(n0, s0) ELSE NthBelow(-n0, s0)

Init ==
  /\ n0 \in -MaxN..MaxN /\ s0 \in 0..Top
  /\ n = (IF n0 = 0 THEN 1 ELSE n0)
  /\ start = (IF n0 = 0 THEN s0 ELSE IF n0 > 0 THEN Up(s0, 1) ELSE Down(s0, 1))
  /\ stop = start /\ count = 0 /\ tiny \in Tinys /\ pc = "test" /\ result = 0
Backwards == count >= n /\ (Mutant = "two" \/ ~ (count = n /\ stop < 2))
Error == pc' = "done" /\ result' = -1 /\ UNCHANGED <<n0, s0, n, start, stop, count, tiny>>
Test ==
  /\ pc = "test" /\ UNCHANGED <<n0, s0, n, start, stop, count, tiny, result>>
  /\ pc' = IF n - count > tiny \/ Backwards THEN (IF count < n THEN "fwd" ELSE "bwd") ELSE "walk"
Forward ==
  /\ pc = "fwd"
  /\ IF start >= Top THEN Error
     ELSE \E d \in Dists :
            /\ stop' = Up(start, d) /\ count' = count + InRange(start, stop')
            /\ start' = Up(stop', IF Mutant = "restart" THEN 0 ELSE 1)
            /\ pc' = "maybe" /\ UNCHANGED <<n0, s0, n, tiny, result>>
Maybe == /\ pc = "maybe" /\ pc' = (IF Backwards THEN "bwd" ELSE "test") /\ UNCHANGED <<n0, s0, n, start, stop, count, tiny, result>>
Backward ==
  /\ pc = "bwd"
  /\ IF stop = 0 THEN Error
     ELSE \E d \in Dists :
            /\ start' = Down(stop, d) /\ count' = count - InRange(start', stop)
            /\ stop' = Down(start', 1) /\ pc' = "test" /\ UNCHANGED <<n0, s0, n, tiny, result>>
Walk ==
  /\ pc = "walk" /\ UNCHANGED <<n0, s0, n, start, stop, count, tiny>>
  /\ pc' = "done"
  /\ LET c == IF n < 0 /\ Mutant # "negative" THEN count - 1 ELSE count
     IN  result' = IF start >= Top THEN -1 ELSE IF c >= n THEN 0 ELSE NthAbove(n - c, Down(start, 1))
Done == pc = "done" /\ UNCHANGED vars
Next == Test \/ Forward \/ Maybe \/ Backward \/ Walk \/ Done
Spec == Init /\ [][Next]_vars
Right == pc = "done" => result = Wanted
=============================================================================
