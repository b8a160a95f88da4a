-------------------------------- MODULE Race --------------------------------
(***************************************************************************)
(* Happens-before in one parallel region. A segment is a stretch of a thread *)
(* between two synchronisations; all accesses of a segment share its clock.   *)
(* Kinds of access: "r", "w", and "ar", "aw" for atomic operations.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES clock,   \* clock[t][u]: how much of thread u thread t has seen
          held,    \* held[l]: clock carried by lock l (a function with a finite domain)
          segs     \* segments in order of their beginning: [t, vc]
rvars == <<clock, held, segs>>

Larger(a, b) == IF a < b THEN b ELSE a
Join(f, g) == [u \in DOMAIN f |-> Larger(f[u], g[u])]
Carried(l, f) == IF l \in DOMAIN held THEN held[l] ELSE [u \in DOMAIN f |-> 0]
With(l, f) == [k \in DOMAIN held \cup {l} |-> IF k = l THEN f ELSE held[k]]
\* thread t goes on in a new segment, having seen f
NewSegment(t, f) == LET g == [f EXCEPT ![t] = @ + 1]
                    IN  clock' = [clock EXCEPT ![t] = g] /\ segs' = Append(segs, [t |-> t, vc |-> g])

Fork(n) == clock' = [t \in 1..n |-> [u \in 1..n |-> 0]] /\ held' = << >> /\ segs' = << >>
Begin(t) == clock[t][t] = 0 /\ NewSegment(t, clock[t]) /\ UNCHANGED held
Acquire(t, l) == clock[t][t] > 0 /\ NewSegment(t, Join(clock[t], Carried(l, clock[t]))) /\ UNCHANGED held
Release(t, l) == clock[t][t] > 0 /\ held' = With(l, Join(Carried(l, clock[t]), clock[t])) /\ NewSegment(t, clock[t])
Atomic(t, l) == LET f == Join(clock[t], Carried(l, clock[t]))
                IN  clock[t][t] > 0 /\ held' = With(l, f) /\ NewSegment(t, f)

---------------------------------------------------------------------------
(* i and j are numbers of segments, i < j. *)
Before(i, j) == segs[i].vc[segs[i].t] <= segs[j].vc[segs[i].t]
IsAtomic(k) == k \in {"ar", "aw"}
Conflict(k, m) == (k \in {"w", "aw"} \/ m \in {"w", "aw"}) /\ ~ (IsAtomic(k) /\ IsAtomic(m))
\* acc: accesses [s |-> segment, k |-> kind] to one location, in order of segments
RacesWith(a, b) == segs[a.s].t # segs[b.s].t /\ Conflict(a.k, b.k) /\ ~ Before(a.s, b.s)
HasRace(acc) == \E i, j \in 1..Len(acc) : i < j /\ RacesWith(acc[i], acc[j])
(* The same, looking only at the last access of each kind of each thread: an  *)
(* earlier segment of a thread is before whatever a later one is before.       *)
Ks == {"r", "w", "ar", "aw"}
Step(a, st) == [racy |-> st.racy \/ \E u \in DOMAIN clock \ {segs[a.s].t} : \E k \in Ks :
                            st.last[u][k] # 0 /\ Conflict(k, a.k) /\ ~ Before(st.last[u][k], a.s),
                last |-> [st.last EXCEPT ![segs[a.s].t][a.k] = a.s]]
FoundRace(acc) == FoldLeft(LAMBDA st, a : Step(a, st), [racy |-> FALSE, last |-> [u \in DOMAIN clock |-> [k \in Ks |-> 0]]], acc).racy
=============================================================================
