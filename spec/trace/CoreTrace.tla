------------------------------ MODULE CoreTrace ------------------------------
(***************************************************************************)
(* Validation of recorded sessions of the real library against             *)
(* PrimeSumSystem. One record per event: op, arguments a, result r and      *)
(* error class e. An event no action allows is a deadlock.                  *)
(***************************************************************************)
EXTENDS PrimeSumSystem, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l            \* session, next event
tvars == <<vars, s, l>>

Init == s \in 1..Len(T) /\ l = 1 /\ SystemInit
E == T[s].ev[l]
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED s
Setting(op) == Is(op) /\ E.e = ""

DoSetAlpha == Setting("setalpha") /\ SetAlpha(E.a[1])
DoSetThreads == Setting("setthreads") /\ SetThreads(E.a[1])
DoSetPrec == Setting("setprec") /\ SetPrecision(E.a[1])
DoCores == Setting("cores") /\ SetCores(E.a[1])
\* schedules, clocks and print mode are environment: they change nothing
DoEnv == (Setting("sched") \/ Setting("clock") \/ Setting("setprint") \/ Setting("limits") \/ Setting("force")) /\ UNCHANGED vars
Settings == {"setalpha", "setthreads", "setprec", "cores", "sched", "clock", "setprint", "limits", "force"}
DoCall == /\ l <= Len(T[s].ev) /\ E.op \notin Settings /\ l' = l + 1 /\ UNCHANGED <<s, vars>>
          /\ Allows(E.op, E.a, E.r, E.e)
Done == l > Len(T[s].ev) /\ UNCHANGED tvars

Next == DoSetAlpha \/ DoSetThreads \/ DoSetPrec \/ DoCores \/ DoEnv \/ DoCall \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
