------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* Parallel counting of primes and prime k-tuplets: the interval is cut    *)
(* into chunks of ThreadDist numbers whose ends are aligned to 2 modulo    *)
(* 30; threads claim chunks from a shared counter and add up what they     *)
(* count. Every number must be sieved once, no k-tuplet may be cut, and    *)
(* the sum over the threads must be the count of the whole interval.       *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS Starts, MaxDist, MinDist, NThreads, Mutant
VARIABLES start, stop, dist, next, doing, done
vars == <<start, stop, dist, next, doing, done>>
Min2(a, b) == IF a < b THEN a ELSE b
Distance == stop - start
Iters == (Distance - 1) \div dist + 1
Align(n) == IF n + 32 >= stop THEN stop
            ELSE n + 32 - ((IF Mutant = "align" THEN n + 14 ELSE n) % 30)
From(i) == LET s == start + dist * i
           IN  IF s > start THEN Align(s) + (IF Mutant = "edge" THEN 0 ELSE 1) ELSE s
To(i) == Align(Min2(start + dist * i + dist, 10000))

\* chunk lengths the program can choose: a multiple of 30, at least MinDist, for at least one round
Choices(d) == { c \in MinDist..(d + MinDist + 60) : c % 30 = 0 }
Init ==
  /\ start \in Starts /\ stop \in { start + d : d \in 1..MaxDist }
  /\ dist \in Choices(stop - start)
  /\ next = 0 /\ doing = [t \in 1..NThreads |-> -1] /\ done = {}
\* the residues of k-tuplets: a cut between b and b + 1 must not fall inside one
All == { {0, 2}, {0, 2, 6}, {0, 4, 6}, {0, 2, 6, 8}, {0, 2, 6, 8, 12}, {0, 4, 6, 10, 12}, {0, 4, 6, 10, 12, 16} }
Coprime(n) == n % 2 # 0 /\ n % 3 # 0 /\ n % 5 # 0
Cuts(b, k) == \E o \in 1..16 : /\ b + 1 - o > 5 /\ \A e \in k : Coprime(b + 1 - o + e)
                               /\ \E e \in k : e >= o
Claim(t) ==
  /\ doing[t] = -1 /\ next < Iters
  /\ doing' = [doing EXCEPT ![t] = next]
  /\ next' = next + 1
  /\ UNCHANGED <<start, stop, dist, done>>
\* reading and advancing the counter in two steps: two threads can get the same chunk
ClaimLate(t) ==
  /\ Mutant = "claim" /\ doing[t] = -1 /\ next < Iters
  /\ doing' = [doing EXCEPT ![t] = next]
  /\ UNCHANGED <<start, stop, dist, done, next>>
Work(t) ==
  /\ doing[t] >= 0
  /\ done' = done \cup { <<doing[t], t>> }
  /\ next' = IF Mutant = "claim" /\ next = doing[t] THEN next + 1 ELSE next
  /\ doing' = [doing EXCEPT ![t] = -1]
  /\ UNCHANGED <<start, stop, dist>>
Finish == next >= Iters /\ (\A t \in 1..NThreads : doing[t] = -1) /\ UNCHANGED vars
Next == (\E t \in 1..NThreads : Claim(t) \/ ClaimLate(t) \/ Work(t)) \/ Finish
Spec == Init /\ [][Next]_vars
Finished == next >= Iters /\ \A t \in 1..NThreads : doing[t] = -1
\* every number exactly once: in the chunk of exactly one claim of exactly one thread
Once == Finished => /\ \A n \in start..stop : Cardinality({ w \in done : From(w[1]) <= n /\ n <= To(w[1]) }) = 1
                    /\ \A w \in done : From(w[1]) > To(w[1]) \/ (From(w[1]) >= start /\ To(w[1]) <= stop)
Whole == \A i \in 0..(Iters - 1) : To(i) < stop => \A k \in All : ~ Cuts(To(i), k)
=============================================================================
