----------------------------- MODULE HardLeaves -----------------------------
(***************************************************************************)
(* Design of the hard special leaves: the numbers [1, z] are sieved in      *)
(* rounds. In a round thread i gets `spt` segments of `seg` numbers each,   *)
(* following those of thread i - 1. A leaf n = p_b * m belongs to the       *)
(* segment that contains x / n; its contribution needs the sum of all       *)
(* numbers <= x / n free of the first b - 1 primes, of which a thread knows *)
(* only the part inside its own interval. It reports, for each b, the sum   *)
(* of its interval (phi) and the sum of its leaves (mu_sum); the master     *)
(* adds what is missing in thread order. A segment stops at the first b     *)
(* without leaves, and a thread considers only b <= pi(min(sqrt(x / low),   *)
(* sqrt z, y)).                                                             *)
(*                                                                         *)
(* Segment size and segments per thread change after every round in any     *)
(* way the load balancer may choose: the result must not depend on it.      *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS XMin, XMax, MaxThreads, MinSeg, CS, Mutant

VARIABLES x, y, c, low, seg, spt, threads, phiTotal, sum, mark
vars == <<x, y, c, low, seg, spt, threads, phiTotal, sum, mark>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
InBetween(lo, v, hi) == IF v < lo \/ hi < lo THEN lo ELSE IF v > hi THEN hi ELSE v

PS == PrimeSeq(XMax)
PiT == [n \in 0..XMax |-> Cardinality({ i \in DOMAIN PS : PS[i] <= n })]
MuT == [n \in 1..XMax |-> Mu(n)]
LpfT == [n \in 2..XMax |-> Lpf(n)]
\* 0: prime 1, else the index of the least prime factor
RoughT == [n \in 1..XMax |-> IF n = 1 THEN 1000000 ELSE LpfT[n]]
Rough_(b, n) == b = 1 \/ RoughT[n] > PS[b - 1]      \* free of the first b - 1 primes
RoughSum(b, lo, hi) == SumSet({ n \in lo..hi : Rough_(b, n) })

Z == x \div y
Limit == Z + 1
PiSqrtY == PiT[ISqrt(y)]
MaxBAt(l) == PiT[Min(Min(ISqrt(x \div l), ISqrt(Z)), y)]

\* m of the leaves p_b * m with low <= x / n < high
LeavesIn(b, lo, hi) ==
  LET p == PS[b]
  IN  IF b <= PiSqrtY
      THEN { m \in (Max(Min((x \div p) \div hi, y), y \div p) + 1)..Min((x \div p) \div lo, y) : m > 1 /\ MuT[m] # 0 /\ p < LpfT[m] }
      ELSE { m \in (Max(Max(Min((x \div p) \div hi, y), y \div p), p) + 1)..Min(Min((x \div p) \div lo, y), Z \div p) : m > 1 /\ LpfT[m] = m }
\* the loop over b ends at the first prime without leaves in this and any later segment
Stop(b, lo) ==
  LET p == PS[b]
  IN  IF b <= PiSqrtY THEN p >= Min((x \div p) \div lo, y)
      ELSE LET l == PiT[Min(Min((x \div p) \div lo, y), Z \div p)] IN l = 0 \/ p >= PS[l]
RECURSIVE LastB(_, _, _)
LastB(b, lo, maxb) == IF b > maxb \/ Stop(b, lo) THEN b - 1 ELSE LastB(b + 1, lo, maxb)

\* report of a thread: <<own sum, phi, mu_sum>> with functions on 1..maxb
RECURSIVE Segments(_, _, _, _)
Segments(lo, limit, maxb, r) ==
  IF lo >= limit THEN r
  ELSE LET hi == Min(lo + seg, limit)
           last == LastB(c + 1, lo, maxb)
           Part(b) == SumOver(LeavesIn(b, lo, hi),
                        LAMBDA m : LET n == PS[b] * m IN -MuT[m] * n * (r[2][b] + RoughSum(b, lo, x \div n)))
           MuPart(b) == SumOver(LeavesIn(b, lo, hi), LAMBDA m : -MuT[m] * PS[b] * m)
           phi2 == [b \in DOMAIN r[2] |-> IF b > c /\ b <= last THEN r[2][b] + RoughSum(b, lo, hi - 1) ELSE r[2][b]]
           mu2 == [b \in DOMAIN r[3] |-> IF b > c /\ b <= last THEN r[3][b] + MuPart(b) ELSE r[3][b]]
       IN  Segments(lo + seg, limit, maxb, <<r[1] + SumOver((c + 1)..last, Part), phi2, mu2>>)
LoOf(i) == low + seg * spt * i
HiOf(i) == Min(LoOf(i) + seg * spt, Limit)
Report(i) ==
  LET maxb == MaxBAt(IF Mutant = "maxb" THEN HiOf(i) ELSE LoOf(i))
      none == [b \in 1..maxb |-> 0]
  IN  IF c > maxb THEN <<0, <<>>, <<>>>> ELSE Segments(LoOf(i), HiOf(i), maxb, <<0, none, none>>)

RECURSIVE Merge(_, _, _)
Merge(i, acc, tot) ==
  IF i = threads THEN <<acc, tot>>
  ELSE LET r == Report(i)
           use == IF Mutant = "order" THEN phiTotal ELSE tot
           acc2 == acc + r[1] + SumOver(DOMAIN r[3], LAMBDA b : r[3][b] * use[b])
           tot2 == [b \in DOMAIN tot |-> IF b \in DOMAIN r[2] THEN tot[b] + r[2][b] ELSE tot[b]]
       IN  Merge(i + 1, acc2, tot2)

Init == /\ x \in XMin..XMax
        /\ y \in { v \in 2..ISqrt(x) : v * v * v >= x \/ (v + 1) * (v + 1) * (v + 1) > x }
        /\ c \in { k \in CS : k <= PiT[y] }
        /\ threads \in 1..MaxThreads /\ seg = MinSeg /\ spt = 1 /\ low = 1 /\ sum = 0 /\ mark = 1
        /\ phiTotal = [b \in 1..PiT[ISqrt(Z)] |-> 0]
Clamp == LET s == CeilDiv(Limit - low, seg)
             t == InBetween(1, threads, s)
         IN  <<t, InBetween(1, spt, CeilDiv(s, t))>>
Shrink == /\ low < Limit /\ Clamp # <<threads, spt>>
          /\ threads' = Clamp[1] /\ spt' = Clamp[2]
          /\ UNCHANGED <<x, y, c, low, seg, phiTotal, sum, mark>>
Round == /\ low < Limit /\ Clamp = <<threads, spt>>
         /\ LET m == Merge(0, sum, phiTotal) IN sum' = m[1] /\ phiTotal' = m[2]
         \* the last threads of the last round may find nothing left (their interval starts beyond the limit)
         /\ mark' = IF mark = LoOf(0) /\ \A i \in 1..(threads - 1) : HiOf(i - 1) = Min(LoOf(i), Limit) THEN HiOf(threads - 1) ELSE 0
         /\ low' = low + (IF Mutant = "advance" THEN 1 ELSE spt) * threads * seg
         /\ seg' \in { Max(MinSeg, seg \div 2), seg, seg * 2 }
         /\ spt' \in { Max(1, spt \div 2), spt, spt * 2 }
         /\ UNCHANGED <<x, y, c, threads>>
Done == low >= Limit /\ UNCHANGED vars
Next == Shrink \/ Round \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Shrink \/ Round)

HardNow == SumOver({ l \in Leaves(x, y, c, PS, PiT[y]) :
                       IsHard(x, y, l, PS) \/ (PS[l[1]] * PS[l[1]] <= y /\ ~ IsTrivial(x, l, PS)) },
                   LAMBDA l : LeafValue(x, l, PS))
Exact == low >= Limit => sum = HardNow
Tiles == mark = Min(low, Limit)
Terminates == <>(low >= Limit)
=============================================================================
