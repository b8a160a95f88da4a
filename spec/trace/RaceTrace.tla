------------------------------ MODULE RaceTrace ------------------------------
(***************************************************************************)
(* Recorded parallel regions of the real code: synchronisations, then every  *)
(* history of accesses in which two threads occur. A history with two          *)
(* conflicting accesses not ordered by happens-before is a race.                *)
(***************************************************************************)
EXTENDS Race, Json, IOUtils, TLC

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l,
          regions   \* regions since the last call
tvars == <<s, l, regions, rvars>>
Init == s \in 1..Len(T) /\ l = 1 /\ regions = 0 /\ clock = << >> /\ held = << >> /\ segs = << >>
E == T[s].ev[l]
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED s

DoFork == Is("fork") /\ regions' = regions + 1 /\ Fork(E.n)
DoBegin == Is("begin") /\ UNCHANGED regions /\ Begin(E.t)
DoAcquire == Is("acquire") /\ UNCHANGED regions /\ Acquire(E.t, E.l)
DoRelease == Is("release") /\ UNCHANGED regions /\ Release(E.t, E.l)
DoAtomic == Is("atomic") /\ UNCHANGED regions /\ Atomic(E.t, E.l)
Sound(acc) == /\ \A i \in 1..Len(acc) : acc[i].s \in 1..Len(segs)
              /\ \A i \in 1..Len(acc) - 1 : acc[i].s <= acc[i + 1].s
DoLoc == Is("loc") /\ UNCHANGED <<regions, rvars>> /\ Sound(E.acc) /\ ~ FoundRace(E.acc)
DoJoin == Is("join") /\ UNCHANGED <<regions, rvars>>
\* calls of the library between the regions
Region == {"fork", "begin", "acquire", "release", "atomic", "loc", "join"}
\* (every region of the call has been recorded)
Other == /\ l <= Len(T[s].ev) /\ E.op \notin Region /\ E.e \in {"", "error"} /\ l' = l + 1 /\ UNCHANGED <<s, rvars>>
         /\ E.par = regions /\ regions' = 0
Done == l > Len(T[s].ev) /\ UNCHANGED tvars
Next == DoFork \/ DoBegin \/ DoAcquire \/ DoRelease \/ DoAtomic \/ DoLoc \/ DoJoin \/ Other \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
