---------------------------- MODULE SegmentSieve ----------------------------
(***************************************************************************)
(* The abstract segment sieve: a segment is a set of positions 0..size-1    *)
(* (position i stands for the number low + i; low is odd and may have 62    *)
(* bits, so it is a decimal string; residues of low are TLC integers).      *)
(* Only even positions (odd numbers) are members.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigInt
LOCAL FSE == INSTANCE FiniteSetsExt

VARIABLES low, size, alive, c,      \* the segment
          wprimes, upto             \* the wheel: primes and, per prime, the number up to which multiples are done
vars == <<low, size, alive, c, wprimes, upto>>

FirstPrimes == <<2, 3, 5, 7, 11, 13, 17, 19, 23>>
Res(p) == BInt(BRem(low, ToString(p)))

Positions(n) == { i \in 0..n - 1 : i % 2 = 0 }
\* positions of numbers not divisible by the first k primes (2 aside: low is odd)
Presieved(k, n, lo) ==
  LET r == [j \in 1..k |-> BInt(BRem(lo, ToString(FirstPrimes[j])))]
  IN  { i \in Positions(n) : \A j \in 2..k : (r[j] + i) % FirstPrimes[j] # 0 }

Members(a, b) == { i \in alive : a <= i /\ i <= b }
\* sum of the numbers at the positions in P
SumAt(P) == BAdd(BMul(low, ToString(Cardinality(P))), ToString(FSE!MapThenSumSet(LAMBDA i : i, P)))

\* the multiples m of p with low <= m < low + h and m / p coprime to 2, 3, 5, 7 (p itself is)
Visited(p, h) ==
  LET rp == IF BLess(p, "2147483647") THEN BInt(BRem(low, p)) ELSE 0
      first == IF BLess(p, "2147483647") THEN (IF rp = 0 THEN "0" ELSE BSub(p, ToString(rp)))
               ELSE BSub(BMul(BQuo(BAdd(low, BSub(p, "1")), p), p), low)
      r210 == BInt(BRem(low, "210"))
      Ok(i) == LET v == (r210 + i) % 210 IN v % 2 # 0 /\ v % 3 # 0 /\ v % 5 # 0 /\ v % 7 # 0
  IN  IF BLess(ToString(h - 1), first) THEN {}
      ELSE LET f == BInt(first) pp == IF BLess(p, "100000") THEN BInt(p) ELSE 100000     \* at most one multiple per segment then
           IN  IF pp = 100000 THEN (IF Ok(f) THEN {f} ELSE {})
               ELSE { i \in { f + pp * k : k \in 0..((h - 1 - f) \div pp) } : Ok(i) }

Init == low = "1" /\ size = 0 /\ alive = {} /\ c = 0 /\ wprimes = <<>> /\ upto = <<>>

New(n) == /\ size' = n /\ alive' = {} /\ c' = 0 /\ low' = "1" /\ wprimes' = <<>> /\ upto' = <<>>
Presieve(k, lo) == /\ low' = lo /\ c' = k /\ alive' = Presieved(k, size, lo) /\ UNCHANGED <<size, wprimes, upto>>
Unset(i) == alive' = alive \ {i} /\ UNCHANGED <<low, size, c, wprimes, upto>>
MakeWheel(lo, ps) == wprimes' = ps /\ upto' = [k \in 1..Len(ps) |-> lo] /\ UNCHANGED <<low, size, alive, c>>
\* a prime's multiples are crossed off segment after segment without gaps
CanCross(b, h) == b \in 1..Len(wprimes) /\ upto[b] = low /\ h <= size
Cross(b, h) == /\ CanCross(b, h)
               /\ alive' = alive \ Visited(wprimes[b], h)
               /\ upto' = [upto EXCEPT ![b] = BAdd(low, ToString(h))]
               /\ UNCHANGED <<low, size, c, wprimes>>
=============================================================================
