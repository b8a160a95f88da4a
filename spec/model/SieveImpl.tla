----------------------------- MODULE SieveImpl -----------------------------
(***************************************************************************)
(* The data structures behind the segment sieve, for small parameters:     *)
(*  - a wheel (modulus Mod, wheel primes WP) with per-prime state           *)
(*    <<next multiple, wheel index>> carried across segments,               *)
(*  - a binary indexed tree of prefix sums, updated on first crossing,      *)
(*  - incremental range sums that count forwards or backwards.              *)
(* Each is compared with the plain set of members after every step.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL FSE == INSTANCE FiniteSetsExt
CONSTANTS Mod, WP, Sieving, Size, Segments, Start, Mutant
\* Sieving: ascending sequence of primes coprime to Mod; Start: odd first numbers

VARIABLES low, seg, k, alive, fen, wheel, visited
vars == <<low, seg, k, alive, fen, wheel, visited>>

Coprime(n) == \A p \in WP : n % p # 0
Residues == { r \in 0..Mod - 1 : Coprime(r) }
\* distance from n to the next number coprime to the wheel primes
RECURSIVE Gap(_, _)
Gap(n, d) == IF Coprime(n + d) THEN d ELSE Gap(n, d + 1)
N == Size \div 2
Slot(i) == i \div 2
Sum(S) == FSE!MapThenSumSet(LAMBDA i : i, S)
CeilDiv(a, b) == (a + b - 1) \div b

\* initial wheel items for a segment starting at lo: next multiple and residue of its cofactor
Item(p, lo) == LET q == CeilDiv(lo, p) IN <<p * (q + Gap(q, 0)), (q + Gap(q, 0)) % Mod>>

PresievedSet(lo) == { i \in 0..Size - 1 : i % 2 = 0 /\ Coprime(lo + i) }
\* x & (x - 1), i.e. clear the lowest set bit
RECURSIVE Low1(_)
Low1(x) == IF x % 2 = 1 THEN 1 ELSE 2 * Low1(x \div 2)
ClearLow(x) == IF x = 0 THEN 0 ELSE x - Low1(x)
\* x | (x + 1): set the lowest clear bit
RECURSIVE Clear1(_)
Clear1(x) == IF x % 2 = 0 THEN 1 ELSE 2 * Clear1(x \div 2)
SetLow(x) == x + Clear1(x)

\* tree node i holds the sum of slots ClearLow(i + 1) .. i
TreeOf(A, lo) == [i \in 0..N - 1 |-> FSE!MapThenSumSet(LAMBDA j : lo + 2 * j, { j \in ClearLow(i + 1)..i : 2 * j \in A })]
RECURSIVE Update(_, _, _)
Update(t, pos, n) == IF pos >= N THEN t
                     ELSE Update([t EXCEPT ![pos] = @ - n], IF Mutant = "tree" THEN pos + Low1(pos + 1) + (IF pos = 2 THEN 1 ELSE 0) ELSE SetLow(pos), n)
RECURSIVE PrefixFrom(_, _)
PrefixFrom(t, q) == IF q = 0 THEN 0 ELSE t[q - 1] + PrefixFrom(t, ClearLow(q))
Prefix(t, i) == LET p == Slot(i) + 1 IN PrefixFrom(t, p)

Init == /\ low \in Start /\ seg = 1 /\ k = 1
        /\ alive = PresievedSet(low) /\ fen = TreeOf(alive, low)
        /\ wheel = [j \in 1..Len(Sieving) |-> Item(Sieving[j], low)]
        /\ visited = <<>>

\* cross off the multiples of prime number k in this segment, walking the wheel
RECURSIVE Walk(_, _, _, _, _, _)
Walk(p, m, res, A, t, vis) ==
  IF m >= low + Size THEN <<m, res, A, t, vis>>
  ELSE LET i == m - low
           hit == i \in A
           g == Gap(res, 1)
       IN  Walk(p, m + p * g, (res + g) % Mod, A \ {i}, IF hit THEN Update(t, Slot(i), m) ELSE t, Append(vis, m))
CrossNext ==
  /\ k <= Len(Sieving)
  /\ LET p == Sieving[k] w == Walk(p, wheel[k][1], wheel[k][2], alive, fen, <<>>)
     IN  /\ alive' = w[3] /\ fen' = w[4] /\ visited' = w[5]
         /\ wheel' = [wheel EXCEPT ![k] = <<w[1], IF Mutant = "wheel" THEN (w[2] + 1) % Mod ELSE w[2]>>]
  /\ k' = k + 1 /\ UNCHANGED <<low, seg>>
NextSegment ==
  /\ k > Len(Sieving) /\ seg < Segments
  /\ low' = low + Size /\ seg' = seg + 1 /\ k' = 1 /\ visited' = <<>>
  /\ alive' = PresievedSet(low') /\ fen' = TreeOf(alive', low') /\ UNCHANGED wheel
Next == CrossNext \/ NextSegment
Spec == Init /\ [][Next]_vars

\* the multiples just visited: exactly those with a cofactor coprime to the wheel, in order
VisitedOk ==
  (k > 1) =>
    LET p == Sieving[k - 1]
        V == { m \in low..low + Size - 1 : m % p = 0 /\ Coprime(m \div p) }
    IN  /\ { visited[j] : j \in 1..Len(visited) } = V /\ Len(visited) = Cardinality(V)
        /\ \A j \in 1..Len(visited) - 1 : visited[j] < visited[j + 1]
\* the members are the numbers not crossed off by any prime so far
MembersOk ==
  alive = { i \in 0..Size - 1 : Coprime(low + i) /\ \A j \in 1..k - 1 : (low + i) % Sieving[j] # 0 }
PrefixOk == \A i \in 0..Size - 1 : Prefix(fen, i) = FSE!MapThenSumSet(LAMBDA j : low + j, { j \in alive : j <= i })
\* sum over [a, b] by counting forwards, or backwards from the total and the sum of [0, a[
Range(a, b) == FSE!MapThenSumSet(LAMBDA j : low + j, { j \in alive : a <= j /\ j <= b })
BackwardOk == \A a \in 0..Size - 1 : \A b \in a..Size - 1 :
                Range(a, b) = Range(0, Size - 1) - Range(0, a - 1) - Range(IF Mutant = "back" THEN b ELSE b + 1, Size - 1)
=============================================================================
