------------------------------- MODULE OmpRace -------------------------------
(***************************************************************************)
(* Small parallel regions: threads accessing locations, taking and releasing *)
(* locks, atomic operations, in every order. Checked: the clocks of module      *)
(* Race order two segments exactly if a chain of program order and hand-overs   *)
(* of locks leads from one to the other; and the scan of module Race finds a     *)
(* race exactly if some pair races.                                               *)
(***************************************************************************)
EXTENDS Race, FiniteSets, TLC

CONSTANTS Threads, Locks, Steps, Accesses, Mutant

VARIABLES owner,   \* owner[l]: thread holding lock l or 0
          acts     \* what started each segment: [t, op, l]
vars == <<clock, held, segs, owner, acts>>
Tid == 1..Threads

Init == /\ clock = [t \in Tid |-> [u \in Tid |-> 0]] /\ held = << >> /\ segs = << >>
        /\ owner = [l \in 1..Locks |-> 0] /\ acts = << >>
Act(t, op, l) == acts' = Append(acts, [t |-> t, op |-> op, l |-> l])
More == Len(segs) < Steps
DoBegin(t) == More /\ Begin(t) /\ Act(t, "begin", 0) /\ UNCHANGED owner
DoAcquire(t, l) == More /\ owner[l] = 0 /\ Acquire(t, l) /\ Act(t, "acquire", l) /\ owner' = [owner EXCEPT ![l] = t]
DoRelease(t, l) == /\ More /\ owner[l] = t /\ Act(t, "release", l) /\ owner' = [owner EXCEPT ![l] = 0]
                   /\ IF Mutant = "release forgets" THEN held' = With(l, clock[t]) /\ clock[t][t] > 0 /\ NewSegment(t, [u \in Tid |-> IF u = t THEN clock[t][u] ELSE 0])
                      ELSE Release(t, l)
DoAtomic(t) == More /\ Atomic(t, 100) /\ Act(t, "atomic", 100) /\ UNCHANGED owner
Next == \E t \in Tid : \/ DoBegin(t) \/ DoAtomic(t)
                       \/ \E l \in 1..Locks : DoAcquire(t, l) \/ DoRelease(t, l)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Happens-before by its definition: a segment is ended by the action that     *)
(* starts the next segment of its thread.                                        *)
N == Len(acts)
NextOf(i) == {j \in i + 1..N : acts[j].t = acts[i].t /\ \A m \in i + 1..j - 1 : acts[m].t # acts[i].t}
Gives(a) == a.op \in {"release", "atomic"}
Takes(a) == a.op \in {"acquire", "atomic"}
Direct(i, j) == \/ j \in NextOf(i)
                \* segment i is ended by giving l, segment j begun by taking l later
                \/ \E e \in NextOf(i) : e < j /\ Gives(acts[e]) /\ Takes(acts[j]) /\ acts[e].l = acts[j].l
RECURSIVE Reach(_, _)
Reach(S, j) == LET R == S \cup {m \in 1..N : \E i \in S : i < m /\ Direct(i, m)} IN IF R = S THEN j \in S ELSE Reach(R, j)
HB(i, j) == Reach({i}, j)
ClocksRight == \A i, j \in 1..N : i < j /\ acts[i].t # acts[j].t => (Before(i, j) <=> HB(i, j))
\* accesses to a location, at most Accesses, in any segments
Access == [s : 1..N, k : {"r", "w", "aw"}]
Sorted(q) == \A i \in 1..Len(q) - 1 : q[i].s <= q[i + 1].s
ScanRight == \A n \in 2..Accesses : \A q \in [1..n -> Access] : Sorted(q) => FoundRace(q) = HasRace(q)
=============================================================================
