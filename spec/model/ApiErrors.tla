----------------------------- MODULE ApiErrors -----------------------------
(***************************************************************************)
(* Settings and error reports of the sieve library, for numbers up to Top  *)
(* (which stands for 2^64 - 1). A list is built prime by prime; a prime    *)
(* that does not fit the type, or the end of the number range, abandons    *)
(* the call. The C wrapper turns that into NULL, size 0 and errno.         *)
(***************************************************************************)
EXTENDS NumberTheory, TLC
CONSTANTS Top, Maxima, MaxCount, MinSize, MaxSize, MaxThreads, Mutant
VARIABLES size, threads, errno, call, built, next, reply
vars == <<size, threads, errno, call, built, next, reply>>
PSet == Primes(Top)
None == [op |-> "none"]
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Pow2(v) == CHOOSE p \in {1, 2, 4, 8, 16, 32} : p <= v /\ v < 2 * p
Init == size = MinSize /\ threads = 1 /\ errno = 0 /\ call = None /\ built = <<>> /\ next = 0 /\ reply = None
Idle == call = None
SetSize == /\ Idle /\ \E v \in -1..40 :
                /\ size' = (IF Mutant = "size" THEN Clamp(v, MinSize, MaxSize) ELSE Pow2(Clamp(v, MinSize, MaxSize)))
                /\ reply' = [op |-> "setsize", v |-> v]
           /\ UNCHANGED <<threads, errno, call, built, next>>
SetThreads == /\ Idle /\ \E v \in -2..9 : threads' = Clamp(v, 1, MaxThreads) /\ reply' = [op |-> "setthreads", v |-> v]
              /\ UNCHANGED <<size, errno, call, built, next>>
Begin == /\ Idle /\ size = MinSize /\ threads = 1 /\ built' = <<>> /\ reply' = None
         /\ errno' = 0                                       \* the caller resets errno
         /\ \E t \in Maxima : \E a \in 0..Top :
              \/ \E b \in 0..Top : call' = [op |-> "gen", t |-> t, a |-> a, b |-> b, n |-> 0]
              \/ \E n \in 0..MaxCount : call' = [op |-> "genn", t |-> t, a |-> a, b |-> 0, n |-> n]
         /\ next' = call'.a
         /\ UNCHANGED <<size, threads>>
NextP(c) == LET S == { p \in PSet : p >= c } IN IF S = {} THEN Top ELSE CHOOSE p \in S : \A q \in S : p <= q
Finish(r) == call' = None /\ reply' = r /\ UNCHANGED <<size, threads, built, next>>
Fail == /\ errno' = (IF Mutant = "errno" THEN 0 ELSE 1)
        /\ Finish([op |-> call.op, c |-> call, p |-> <<>>, null |-> TRUE, len |-> IF Mutant = "stale" THEN Len(built) ELSE 0])
Succeed == errno' = errno /\ Finish([op |-> call.op, c |-> call, p |-> built, null |-> FALSE, len |-> Len(built)])
Step ==
  /\ call # None
  /\ LET p == NextP(next)
     IN  IF call.op = "gen" /\ (p > call.b \/ p = Top) THEN Succeed
         ELSE IF call.op = "genn" /\ Len(built) = call.n THEN Succeed
         ELSE IF p = Top THEN Fail
         ELSE IF p > call.t /\ Mutant # "truncate" THEN Fail
         ELSE /\ built' = Append(built, p % (call.t + 1)) /\ next' = p + 1
              /\ UNCHANGED <<size, threads, errno, call, reply>>
Next == SetSize \/ SetThreads \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

Ascend(S) == Ascending(S)
FirstN(n, a) == LET q == Ascend({ p \in PSet : p >= a }) IN IF Len(q) < n THEN <<-1>> ELSE SubSeq(q, 1, n)
Want(c) == LET w == IF c.op = "gen" THEN Ascend({ p \in PSet : c.a <= p /\ p <= c.b }) ELSE FirstN(c.n, c.a)
           IN  IF \E i \in 1..Len(w) : w[i] > c.t THEN <<-1>> ELSE w
Documented ==
  CASE reply.op = "setsize" -> size = Pow2(Clamp(reply.v, MinSize, MaxSize))
    [] reply.op = "setthreads" -> threads = Clamp(reply.v, 1, MaxThreads)
    [] reply.op \in {"gen", "genn"} ->
         IF Want(reply.c) = <<-1>> THEN reply.null /\ reply.len = 0 /\ errno = 1
         ELSE ~ reply.null /\ reply.p = Want(reply.c) /\ reply.len = Len(reply.p) /\ errno = 0
    [] OTHER -> TRUE
=============================================================================
