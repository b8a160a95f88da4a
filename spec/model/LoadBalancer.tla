---------------------------- MODULE LoadBalancer ----------------------------
(***************************************************************************)
(* The load balancer of the special leaves as a state machine. Measured     *)
(* times enter only through three decisions (grow, shrink, keep; and, for   *)
(* segments per thread, by which factor), so every history of times is one  *)
(* path of this machine. The master loop cuts threads and segments per      *)
(* thread to what is left of the range.                                     *)
(*                                                                         *)
(* Checked for every history: segment sizes are powers of two >= the        *)
(* minimum, every round makes progress, the range is reached after finitely  *)
(* many rounds, and the last round does not overshoot by more than the       *)
(* intervals of one round.                                                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS ZMax, MaxThreads, Unit, Mutant     \* Unit: smallest minimum size (512 in the code)
VARIABLES z, shl, minsize, low, threads, seg, spt
vars == <<z, shl, minsize, low, threads, seg, spt>>
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
InBetween(lo, v, hi) == IF v < lo \/ hi < lo THEN lo ELSE IF v > hi THEN hi ELSE v
RECURSIVE Sqrt(_, _)
Sqrt(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Sqrt(n, r + 1)
SqrtZ == Sqrt(z, 0)
RECURSIVE Pow2From(_, _)
Pow2From(n, p) == IF p >= n THEN p ELSE Pow2From(n, p * 2)
IsPow2(n) == \E k \in 0..20 : n = 2 ^ k
Limit == z + 1
\* the possible minimum sizes: sqrt(z) divided by some logarithm >= 1
MinSizes == { Pow2From(Max(Unit, SqrtZ \div d), 1) : d \in 1..4 }

Init == /\ z \in 1..ZMax /\ shl \in {0, z \div 3, z, 2 * z}       \* position of the smallest hard leaf
        /\ minsize \in MinSizes /\ seg = minsize /\ spt = 1 /\ low = 1
        /\ threads \in 1..MaxThreads
\* the master loop, first half of a round
Segments == CeilDiv(Limit - low, seg)
T2 == InBetween(1, threads, Segments)
S2_ == IF Mutant = "nocut" THEN spt ELSE InBetween(1, spt, CeilDiv(Segments, T2))
\* the balancer's answer, low2 being the position reached
Answers(low2, t2, s2) ==
  LET resized == IF seg < SqrtZ
                 THEN { <<seg * 2, s2>>, <<seg, s2>>, <<IF seg > minsize \/ Mutant = "halve" THEN seg \div 2 ELSE seg, s2>> }
                 ELSE IF low2 > shl THEN { <<seg, s2 * 2>>, <<seg, s2>>, <<seg, IF Mutant = "zero" THEN s2 \div 2 ELSE Max(1, s2 \div 2)>>, <<seg, (3 * s2) \div 2>> }
                 ELSE { <<seg, s2>> }
      High(r) == low2 + r[1] * r[2] * t2
      near == { <<IF low2 <= shl /\ High(r) > shl THEN minsize ELSE r[1], r[2]>> : r \in resized }
  IN  UNION { IF High(r) >= shl THEN { <<Max(m, r[1]), r[2], m>> : m \in { k \in MinSizes : k >= minsize } }
              ELSE { <<r[1], r[2], minsize>> } : r \in near }
Round == /\ low < Limit
         /\ low' = low + S2_ * T2 * seg
         /\ threads' = T2
         /\ \E a \in Answers(low', T2, S2_) : seg' = a[1] /\ spt' = a[2] /\ minsize' = a[3]
         /\ UNCHANGED <<z, shl>>
Done == low >= Limit /\ UNCHANGED vars
Next == Round \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Round)

Legal == IsPow2(seg) /\ seg >= Unit /\ spt >= 1 /\ threads >= 1
NotBelowMin == seg >= minsize
\* an overshoot is less than one interval per thread
Bounded == low < Limit + MaxThreads * 4 * Max(seg, Pow2From(SqrtZ, 1) * 2) + MaxThreads * seg * spt
Terminates == <>(low >= Limit)
=============================================================================
