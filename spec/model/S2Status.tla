------------------------------- MODULE S2Status -------------------------------
(***************************************************************************)
(* Progress reports of one computation phase by several threads. A thread    *)
(* reports its numbers in increasing order (a dynamic loop hands them out);    *)
(* a report tries the lock, reads the clock, checks the time since the last    *)
(* output and the progress since then, and writes. The clock may advance at    *)
(* any moment. Checked: what is written never decreases, whatever the order.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads,    \* number of threads
          Max,        \* numbers reported: 0..Max, percent = number
          Reports,    \* reports per thread
          Gap,        \* least time between outputs
          Step,       \* least progress between outputs
          Clock,      \* time runs from 1 to Clock
          Mutant

VARIABLES pc, num, left, t, lock, last, shown, out, now
vars == <<pc, num, left, t, lock, last, shown, out, now>>
Tid == 1..Threads

Init == /\ pc = [i \in Tid |-> "idle"] /\ num = [i \in Tid |-> 0] /\ left = [i \in Tid |-> Reports]
        /\ t = [i \in Tid |-> 0] /\ lock = 0 /\ last = 0 /\ shown = -Step - 1 /\ out = << >> /\ now = 1

Goto(i, l) == pc' = [pc EXCEPT ![i] = l]
\* the next number of this thread: larger than all it had
Call(i) == /\ pc[i] = "idle" /\ left[i] > 0
           /\ \E n \in num[i]..Max : num' = [num EXCEPT ![i] = n]
           /\ left' = [left EXCEPT ![i] = @ - 1]
           /\ Goto(i, IF Mutant = "unlocked check" THEN "time" ELSE "try")
           /\ UNCHANGED <<t, lock, last, shown, out, now>>
Try(i) == /\ pc[i] = "try"
          /\ IF lock = 0 THEN lock' = i /\ Goto(i, IF Mutant = "unlocked check" THEN "write" ELSE "time")
             ELSE UNCHANGED lock /\ Goto(i, "idle")
          /\ UNCHANGED <<num, left, t, last, shown, out, now>>
ReadTime(i) == /\ pc[i] = "time" /\ t' = [t EXCEPT ![i] = now] /\ Goto(i, "due")
               /\ UNCHANGED <<num, left, lock, last, shown, out, now>>
Due(i) == last = 0 \/ t[i] - last >= Gap
CheckTime(i) == /\ pc[i] = "due"
                /\ IF Due(i) THEN last' = t[i] /\ Goto(i, "progress") ELSE UNCHANGED last /\ Goto(i, "leave")
                /\ UNCHANGED <<num, left, t, lock, shown, out, now>>
CheckProgress(i) ==
  /\ pc[i] = "progress"
  /\ IF num[i] - shown >= Step \/ Mutant = "no comparison"
     THEN /\ Goto(i, IF Mutant = "unlocked check" THEN "try" ELSE "write")
          /\ shown' = (IF Mutant = "stale" THEN shown ELSE num[i])
     ELSE Goto(i, "leave") /\ UNCHANGED shown
  /\ UNCHANGED <<num, left, t, lock, last, out, now>>
Write(i) == pc[i] = "write" /\ out' = Append(out, num[i]) /\ Goto(i, "leave") /\ UNCHANGED <<num, left, t, lock, last, shown, now>>
Leave(i) == /\ pc[i] = "leave" /\ lock' = (IF lock = i THEN 0 ELSE lock) /\ Goto(i, "idle")
            /\ UNCHANGED <<num, left, t, last, shown, out, now>>
Tick == now < Clock /\ now' = now + 1 /\ UNCHANGED <<pc, num, left, t, lock, last, shown, out>>
AllDone == (\A i \in Tid : pc[i] = "idle" /\ left[i] = 0) /\ now = Clock /\ UNCHANGED vars
Next == (\E i \in Tid : Call(i) \/ Try(i) \/ ReadTime(i) \/ CheckTime(i) \/ CheckProgress(i) \/ Write(i) \/ Leave(i)) \/ Tick \/ AllDone
Spec == Init /\ [][Next]_vars

Monotone == \A i, j \in 1..Len(out) : i < j => out[i] < out[j]
Bounded == \A i \in 1..Len(out) : out[i] \in 0..Max
Exclusive == Cardinality({i \in Tid : pc[i] \in {"time", "due", "progress", "write"}}) <= 1
Owner == lock = 0 \/ pc[lock] \notin {"idle", "try"}
=============================================================================
