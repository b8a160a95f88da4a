----------------------------- MODULE P2Windows -----------------------------
(***************************************************************************)
(* Design of P2(x, y) = sum of the semiprimes p*q <= x with y < p <= q.     *)
(* The range [2, z[, z = x / y, is processed in rounds; a round gives every *)
(* thread one window of `dist` numbers. A thread knows nothing of the       *)
(* primes before its window: it reports its own part, the sum of the primes *)
(* of its window and a correction factor by which the sum of all earlier    *)
(* primes has to be multiplied; the master merges the reports in thread     *)
(* order. After each round the distance is doubled, halved or kept,         *)
(* depending on the measured time, within [MinDist, remaining / threads].   *)
(*                                                                         *)
(* Checked: for every x, y, number of threads and every sequence of clock   *)
(* readings the result is exact, the windows tile [2, z[ and the loop ends. *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS XMax, MaxThreads, MinDist, Mutant

VARIABLES x, y, low, dist, threads, p2, psum, mark
vars == <<x, y, low, dist, threads, p2, psum, mark>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
InBetween(lo, v, hi) == IF v < lo \/ hi < lo THEN lo ELSE IF v > hi THEN hi ELSE v
PT == [n \in 0..XMax |-> IsPrime(n)]           \* primality, tabulated once
Z == x \div y
Root == ISqrt(x)

\* the report of thread i
LoOf(i) == low + dist * i
HiOf(i) == IF Mutant = "clip" THEN LoOf(i) + dist ELSE Min(LoOf(i) + dist, Z)
Window(i) == { n \in LoOf(i)..(HiOf(i) - 1) : PT[n] }
Partners(i) == LET start == Max(x \div HiOf(i), y)
                   stop == Min(x \div LoOf(i), Root)
               IN  { p \in (start + 1)..stop : PT[p] /\ x \div p < HiOf(i) }
Divisors(i) == { n \in Window(i) : n > y /\ n <= Root }
PrimeSumOf(i) == SumSet(Window(i))
PartOf(i) == SumOver(Partners(i), LAMBDA p : p * SumSet({ n \in Window(i) : n <= x \div p }))
             - SumOver(Divisors(i), LAMBDA n : n * SumSet({ m \in Window(i) : m < n }))
CorrectOf(i) == IF Mutant = "correct" THEN SumSet(Partners(i)) ELSE SumSet(Partners(i)) - SumSet(Divisors(i))

\* merge in thread order (Mutant "order": the sum of earlier windows of the same round is missing)
RECURSIVE Merge(_, _, _)
Merge(i, acc, sum) ==
  IF i = threads THEN <<acc, sum>>
  ELSE Merge(i + 1, acc + PartOf(i) + (IF Mutant = "order" THEN psum ELSE sum) * CorrectOf(i), sum + PrimeSumOf(i))

TypeOK == dist >= 1 /\ threads >= 1
Init == /\ x \in 4..XMax /\ y \in 1..ISqrt(x) /\ threads \in 1..MaxThreads
        /\ \E p \in Primes(ISqrt(x)) : p > y          \* otherwise the result is 0 at once
        /\ low = 2 /\ dist = MinDist /\ p2 = 0 /\ psum = SumPrimes(y) /\ mark = 2
\* number of threads of this round, never raised again
Limit == /\ low < Z /\ threads > CeilDiv(Z - low, dist)
         /\ threads' = InBetween(1, threads, CeilDiv(Z - low, dist))
         /\ UNCHANGED <<x, y, low, dist, p2, psum, mark>>
NewDist(clock, l) ==
  LET d == CASE clock = "fast" -> dist * 2 [] clock = "slow" -> dist \div 2 [] OTHER -> dist
  IN  InBetween(MinDist, d, CeilDiv(Z - l, threads))
Round == /\ low < Z /\ threads <= CeilDiv(Z - low, dist)
         /\ LET m == Merge(0, p2, psum) IN p2' = m[1] /\ psum' = m[2]
         /\ low' = low + dist * threads
         \* end of the numbers covered so far, 0 once there is a gap or an overlap
         /\ mark' = IF mark = LoOf(0) /\ \A i \in 1..(threads - 1) : HiOf(i - 1) = LoOf(i) THEN HiOf(threads - 1) ELSE 0
         /\ \E clock \in {"fast", "exact", "slow"} :
              dist' = IF Mutant = "shrink" /\ clock = "slow" THEN dist \div 2 ELSE NewDist(clock, low')
         /\ UNCHANGED <<x, y, threads>>
Done == low >= Z /\ UNCHANGED vars
Next == Limit \/ Round \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Limit \/ Round)

\* the windows are disjoint, contiguous and reach from 2 to exactly z at the end
Tiles == mark = Min(low, Max(Z, 2))
Exact == low >= Z => p2 = P2Of(x, y)
\* while running: everything merged so far is the sum over complete pairs below low
Prefix == psum = SumPrimes(y) + SumSet({ n \in 2..(Min(low, Max(Z, 2)) - 1) : PT[n] })
Terminates == <>(low >= Z)
=============================================================================
