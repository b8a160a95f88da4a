------------------------------ MODULE PhiCache ------------------------------
(***************************************************************************)
(* Design of the partial sieve function phi(x, a): the top-level terms      *)
(* phi(x / p_{i+1}, i) are handed out one by one to threads, each of which   *)
(* has its own copy of a cache of earlier results (absolute values, 0 for    *)
(* "unknown", arguments up to CacheMax only). Results reach the cache in     *)
(* whatever order the schedule produces. Checked: every cached value is the  *)
(* true phi, and the total is exact under every assignment of terms to       *)
(* threads.                                                                  *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS XMin, XMax, AMax, TinyA, MaxA, CacheMax, MaxThreads, Mutant
VARIABLES x, a, threads, i, cache, sum
vars == <<x, a, threads, i, cache, sum>>
Min(p, q) == IF p < q THEN p ELSE q
Max(p, q) == IF p > q THEN p ELSE q
Abs(n) == IF n < 0 THEN -n ELSE n
PS == PrimeSeq(60)
PiT == [n \in 0..XMax |-> Cardinality({ k \in DOMAIN PS : PS[k] <= n })]
PhiT == [k \in 0..AMax |-> [n \in 0..XMax |-> IF n = 0 THEN 0 ELSE PhiCount(n, k, PS)]]
SqrtT == [n \in 0..XMax |-> ISqrt(n)]
PiSize == Max(SqrtT[x], PS[a]) + 1          \* exclusive limit of the pi table
Tiny(n) == Min(PiT[n], TinyA)

IsPix(n, k) == n < PiSize /\ n < PS[k + 1] * PS[k + 1]
Cached(c, n, k) == k < MaxA /\ n <= CacheMax /\ c[k][n] # 0
Store(c, n, k, v) ==
  IF k >= MaxA \/ n > CacheMax THEN c
  ELSE [c EXCEPT ![k][n] = IF Mutant = "signed" THEN v ELSE Abs(v)]

\* <<value, cache afterwards>>; sg is the sign of the term
RECURSIVE Eval(_, _, _, _), Loop(_, _, _, _, _, _)
Eval(n, k, sg, c) ==
  CASE n <= PS[k] -> <<sg, c>>
    [] k <= TinyA -> <<PhiT[k][n] * sg, c>>
    [] IsPix(n, k) -> <<(PiT[n] - k + 1) * sg, c>>
    [] Cached(c, n, k) -> <<c[k][n] * sg, c>>
    [] OTHER ->
       LET r == SqrtT[n]
           pr == IF r < PiSize THEN Min(PiT[r], k) ELSE k
           c0 == Tiny(r)
           res == Loop(n, c0, pr, sg, (pr - k) * sg + PhiT[c0][n] * sg, c)
       IN  <<res[1], Store(res[2], n, IF Mutant = "index" THEN pr ELSE k, res[1])>>
Loop(n, k, last, sg, acc, c) ==
  IF k >= last THEN <<acc, c>>
  ELSE LET n2 == n \div PS[k + 1]
       IN  IF IsPix(n2, k) THEN Loop(n, k + 1, last, sg, acc - (PiT[n2] - k + 1) * sg, c)
           ELSE LET e == Eval(n2, k, -sg, c) IN Loop(n, k + 1, last, sg, acc + e[1], e[2])

None == [k \in 0..(MaxA - 1) |-> [n \in 0..CacheMax |-> 0]]
Init == /\ x \in XMin..XMax /\ a \in (TinyA + 1)..AMax /\ PS[a] < x
        /\ threads \in 1..MaxThreads /\ cache = [t \in 1..threads |-> None]
        /\ i = Tiny(SqrtT[x])
        /\ sum = PhiT[Tiny(SqrtT[x])][x] - a + Min(PiT[SqrtT[x]], a)
Last == Min(PiT[SqrtT[x]], a)
Term(t) == /\ i < Last
           /\ LET e == Eval(x \div PS[i + 1], i, -1, cache[IF Mutant = "shared" THEN 1 ELSE t])
              IN  sum' = sum + e[1] /\ cache' = [cache EXCEPT ![t] = e[2]]
           /\ i' = i + 1 /\ UNCHANGED <<x, a, threads>>
Done == i >= Last /\ UNCHANGED vars
Next == (\E t \in 1..threads : Term(t)) \/ Done
Spec == Init /\ [][Next]_vars
CacheSound == \A t \in 1..threads : \A k \in 0..(MaxA - 1) : \A n \in 0..CacheMax :
                cache[t][k][n] # 0 => cache[t][k][n] = PhiT[k][n]
Exact == i >= Last => sum = PhiT[a][x]
=============================================================================
