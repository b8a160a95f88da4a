---------------------------- MODULE PrimeIterator ----------------------------
(***************************************************************************)
(* The prime iterator of the sieve library: it sieves intervals of a       *)
(* tuned length, keeps some of the primes in a buffer, and moves within    *)
(* the buffer. The lengths (and how many primes a refill delivers) are     *)
(* nondeterministic. It must behave like a cursor on the primes.           *)
(* Numbers go up to Top, which stands for 2^64 - 1 (and is not a prime).   *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS Top, Fill, Dists, Gap, Mutant
ASSUME ~ IsPrime(Top)
\* start, stop: the interval; hint; buf, i: the buffer (0-based index); gen: the primes
\* the generator of the interval has still to deliver, or <<>> with live = FALSE
VARIABLES start, stop, hint, buf, i, gen, live, cur, out
vars == <<start, stop, hint, buf, i, gen, live, cur, out>>
PSet == Primes(Top)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Up(n, d) == Min2(n + d, Top)
Down(n, d) == Max2(n - d, 0)
\* any length is fine; no gap between primes below Top is longer than Gap
Between(a, b) == SelectSeq([k \in 1..Max2(0, b - a + 1) |-> a + k - 1], LAMBDA n : n \in PSet)

Fresh(s, h) == /\ start' = s /\ stop' = s /\ hint' = h /\ buf' = <<>> /\ i' = 0 /\ gen' = <<>> /\ live' = FALSE
Init == /\ start \in 0..Top /\ stop = start /\ hint \in 0..Top /\ buf = <<>> /\ i = 0 /\ gen = <<>> /\ live = FALSE
        /\ cur = start /\ out = "none"
Skip == \E s \in 0..Top : \E h \in {0, s, Top, Down(s, 3), Up(s, 4)} : Fresh(s, h) /\ cur' = s /\ out' = "none"

(* Refilling forwards: the generator delivers its next primes; when it has *)
(* none left the next interval follows.                                    *)
RECURSIVE FillNext(_, _, _, _)
\* result: start, stop, buf, gen
FillNext(a, b, g, l) ==
  IF l /\ g # <<>>
  THEN { <<a, b, SubSeq(g, 1, k), SubSeq(g, k + 1, Len(g))>> : k \in 1..Min2(Fill, Len(g)) }
  ELSE IF b >= Top /\ l THEN { <<a, b, <<Top>>, <<>>>> }              \* no prime left: the error value
  ELSE LET a2 == IF Mutant = "overlap" THEN b ELSE Up(b, 1)
       IN  UNION { FillNext(a2, b2, Between(a2, b2), TRUE) :
                     b2 \in { Up(a2, d) : d \in Dists }
                            \cup (IF hint >= a2 THEN { Up(hint, Gap) } ELSE {}) }
NextOp ==
  /\ out # "past"
  /\ UNCHANGED hint
  /\ IF buf # <<>> /\ i < Len(buf) - 1
     THEN /\ i' = i + 1 /\ UNCHANGED <<start, stop, buf, gen, live>>
     ELSE \E f \in FillNext(start, stop, gen, live) :
            /\ start' = f[1] /\ stop' = f[2] /\ buf' = f[3] /\ gen' = f[4] /\ live' = TRUE /\ i' = 0
  /\ LET p == buf'[i' + 1]
         S == { q \in PSet : q > cur }
         want == IF S = {} THEN Top ELSE CHOOSE q \in S : \A t \in S : q <= t
     IN  /\ cur' = want
         /\ out' = IF p = want THEN (IF p = Top THEN "past" ELSE "ok") ELSE "wrong"
(* Backwards: whole intervals below the first prime of the buffer. *)
RECURSIVE FillPrev(_)
FillPrev(a) ==
  LET b == Down(a, IF Mutant = "below" THEN 2 ELSE 1)
      As == { Down(b, d) : d \in Dists }
            \cup (IF hint <= b /\ \E d \in Dists : Down(b, d) <= hint THEN { Down(hint, Gap) } ELSE {})
  IN  UNION { LET q == (IF c <= 2 /\ Mutant # "zero" THEN <<0>> ELSE <<>>) \o Between(c, b)
              IN  IF q # <<>> THEN { <<c, b, q>> }
                  ELSE IF c = 0 THEN { <<0, b, <<Top>>>> } ELSE FillPrev(c) : c \in As }
PrevOp ==
  /\ UNCHANGED hint
  /\ IF buf # <<>> /\ i > 0
     THEN /\ i' = i - 1 /\ UNCHANGED <<start, stop, buf, gen, live>>
     ELSE \E f \in FillPrev(IF live /\ Mutant # "front" THEN buf[1] ELSE start) :
            /\ start' = f[1] /\ stop' = f[2] /\ buf' = f[3] /\ gen' = <<>> /\ live' = FALSE /\ i' = Len(f[3]) - 1
  /\ LET p == buf'[i' + 1]
         S == { q \in PSet : q < cur }
         want == IF S = {} THEN 0 ELSE CHOOSE q \in S : \A t \in S : t <= q
     IN  /\ cur' = want /\ out' = IF p = want THEN "ok" ELSE "wrong"
Next == NextOp \/ PrevOp \/ Skip
Spec == Init /\ [][Next]_vars
Cursor == out # "wrong"
\* next after an error is not bounded by the model (the caller stops there)
=============================================================================
