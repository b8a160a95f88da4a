------------------------------ MODULE AlphaTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the tuning script: the factors it measured and the lines *)
(* it printed. Numbers are thousandths.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l,
          ph,           \* "new", "up" (runs and lines), "done"
          n,            \* next exponent, counted from 0
          runs,         \* measurements with this exponent
          best, bestA   \* their smallest time, and the first factor that had it
tvars == <<s, l, ph, n, runs, best, bestA>>
Init == s \in 1..Len(T) /\ l = 1 /\ ph = "new" /\ n = 0 /\ runs = 0 /\ best = -1 /\ bestA = 0
E == T[s].ev[l]
S == T[s].ev[1]
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED s
Absol(a) == IF a < 0 THEN -a ELSE a
Bigger(a, b) == IF a > b THEN a ELSE b

Start == Is("start") /\ ph = "new" /\ ph' = "up" /\ UNCHANGED <<n, runs, best, bestA>>
Time == /\ Is("time") /\ ph = "up" /\ S.kind = "search"
        /\ n < Len(S.plan) /\ E.n = S.n + n
        /\ E.threads = S.threads
        /\ E.a >= 1000
        /\ runs < 100
        /\ runs' = runs + 1
        /\ best' = (IF runs = 0 \/ E.ms < best THEN E.ms ELSE best)
        /\ bestA' = (IF runs = 0 \/ E.ms < best THEN E.a ELSE bestA)
        /\ UNCHANGED <<n, ph>>
Line == /\ Is("line") /\ ph = "up" /\ S.kind = "search"
        /\ n < Len(S.plan) /\ E.n = S.n + n
        /\ E.threads = S.threads
        /\ E.old = S.plan[n + 1].own
        /\ runs > 0 /\ E.ms = best
        /\ E.a = (IF bestA = 1000 \/ best = 0 THEN -1 ELSE bestA)
        /\ best > 3000 => runs <= 32
        /\ best > 20000 => runs <= 16
        /\ (S.plan[n + 1].c > 0 /\ E.a # -1) => Absol(E.a - S.plan[n + 1].c) <= Bigger(200, S.plan[n + 1].c \div 6)
        /\ n' = n + 1 /\ runs' = 0 /\ best' = -1 /\ bestA' = 0
        /\ UNCHANGED ph
End == /\ Is("end") /\ ph = "up" /\ ph' = "done"
       /\ IF S.kind = "search" THEN E.r = "0" /\ n = Len(S.plan) /\ runs = 0 /\ E.other = 0
          ELSE E.r = "1" /\ E.other > 0   \* an unknown option, or no program
       /\ UNCHANGED <<n, runs, best, bestA>>
Done == l > Len(T[s].ev) /\ UNCHANGED tvars
Next == Start \/ Time \/ Line \/ End \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
