----------------------------- MODULE SieveTrace -----------------------------
(* Validation of recorded operations on the real segment sieve (drv_sieve). *)
EXTENDS SegmentSieve, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, tree          \* tree: the positions counted by the prefix-sum tree
TInit == Init /\ s \in 1..Len(T) /\ l = 1 /\ tree = {}
E == T[s].ev[l]
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ E.e = "" /\ l' = l + 1 /\ UNCHANGED s
A(i) == BInt(E.a[i])
Query == UNCHANGED <<vars, tree>>
RECURSIVE DumpText(_)
DumpText(i) == IF i >= size THEN "" ELSE (IF i \in alive THEN "1" ELSE "0") \o DumpText(i + 2)

DoNew == Is("new") /\ E.r = E.a[1] /\ New(A(1)) /\ tree' = {}
DoPre == Is("presieve") /\ Presieve(A(1), E.a[2]) /\ UNCHANGED tree
DoUnset == Is("unset") /\ Unset(A(1)) /\ UNCHANGED tree
DoGet == Is("get") /\ (E.r = "1") = (A(1) \in alive) /\ Query
DoDump == Is("dump") /\ E.r = DumpText(0) /\ Query
DoSum == Is("sum") /\ E.r = SumAt(Members(A(1), A(2))) /\ Query
DoSum6 == Is("sum6") /\ E.r = SumAt(Members(A(1), A(2))) /\ Query
DoWheel == Is("wheel") /\ MakeWheel(E.a[1], Tail(E.a)) /\ UNCHANGED tree
\* the recorded visits are the multiples, each once and in order
DoCross == /\ Is("cross") /\ Cross(A(1), A(2)) /\ UNCHANGED tree
           /\ LET V == Visited(wprimes[A(1)], A(2)) n == Len(E.vis)
              IN  /\ n = Cardinality(V) /\ \A k \in 1..n : BInt(E.vis[k]) \in V
                  /\ \A k \in 1..n - 1 : BInt(E.vis[k]) < BInt(E.vis[k + 1])
\* returns the sum of the numbers crossed off for the first time
DoHCross == /\ Is("hcross") /\ Cross(A(1), A(2)) /\ UNCHANGED tree
            /\ E.r = SumAt(alive \cap Visited(wprimes[A(1)], A(2)))
DoTCross == /\ Is("tcross") /\ Cross(A(1), A(2)) /\ tree' = tree \ (alive \cap Visited(wprimes[A(1)], A(2)))
DoTInit == Is("tinit") /\ tree' = alive /\ UNCHANGED vars
DoTUnset == Is("tunset") /\ Unset(A(1)) /\ tree' = tree \ (alive \cap {A(1)})
DoTSum == Is("tsum") /\ E.r = SumAt({ i \in tree : i <= A(1) }) /\ Query
Done == l > Len(T[s].ev) /\ UNCHANGED <<vars, s, l, tree>>
Next == DoNew \/ DoPre \/ DoUnset \/ DoGet \/ DoDump \/ DoSum \/ DoSum6 \/ DoWheel \/ DoCross \/ DoHCross \/ DoTCross
        \/ DoTInit \/ DoTUnset \/ DoTSum \/ Done
Spec == TInit /\ [][Next]_<<vars, s, l, tree>>
=============================================================================
