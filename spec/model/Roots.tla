------------------------------- MODULE Roots -------------------------------
(***************************************************************************)
(* isqrt and iroot: a floating point estimate, wrong by at most Eps in      *)
(* either direction, corrected with integer arithmetic of a type whose      *)
(* largest value is Max. The result is the exact root, and no intermediate  *)
(* value leaves the type.                                                   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Max, Eps, Mutant
VARIABLES n, x, r, pc, over
vars == <<n, x, r, pc, over>>

RECURSIVE Pow(_, _), RootFrom(_, _, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RootFrom(k, v, c) == IF Pow(c + 1, k) > v THEN c ELSE RootFrom(k, v, c + 1)
Root(k, v) == RootFrom(k, v, 0)
Use(v) == v > Max                 \* leaves the type

\* n = 2: isqrt with its own loops (the estimate is clamped to the root of Max); n > 2: iroot
Init == /\ n \in 2..4 /\ x \in 0..Max /\ pc = "low" /\ over = FALSE
        /\ \E d \in -Eps..Eps :
             LET e == Root(n, x) + d c == IF e < 0 THEN 0 ELSE e
             IN  r = (IF n = 2 /\ Mutant # "clamp" /\ c > Root(2, Max) THEN Root(2, Max) ELSE c)

\* too large?
Lower == /\ pc = "low" /\ UNCHANGED <<n, x>>
         /\ IF n = 2 THEN /\ over' = (over \/ Use(r * r))
                          /\ IF r * r > x THEN r' = r - 1 /\ UNCHANGED pc ELSE pc' = "up" /\ UNCHANGED r
            ELSE IF r > 0 /\ Pow(r, n - 1) > x \div r THEN r' = r - 1 /\ UNCHANGED <<pc, over>>
            ELSE pc' = "up" /\ UNCHANGED <<r, over>>
\* too small?
Raise == /\ pc = "up" /\ UNCHANGED <<n, x>>
         /\ IF n = 2 THEN /\ over' = (over \/ Use(r * 2))
                          /\ IF x - r * r > r * 2 - (IF Mutant = "up" THEN 1 ELSE 0) THEN r' = r + 1 /\ UNCHANGED pc ELSE pc' = "done" /\ UNCHANGED r
            ELSE IF Mutant # "down" /\ Pow(r + 1, n - 1) <= x \div (r + 1) THEN r' = r + 1 /\ UNCHANGED <<pc, over>>
            ELSE pc' = "done" /\ UNCHANGED <<r, over>>
Next == Lower \/ Raise
Spec == Init /\ [][Next]_vars
Exact == pc = "done" => r = Root(n, x)
InType == ~ over
=============================================================================
