----------------------------- MODULE Histories ------------------------------
(***************************************************************************)
(* Histories of use of the library, generated by TLC in simulation mode and *)
(* replayed on the real code: a process whose settings change between        *)
(* calls, while the environment (schedule, clock, number of cores) changes   *)
(* as well. Actions may follow each other in any order; the generated        *)
(* behaviour is the variable hist, one driver command per step.              *)
(***************************************************************************)
EXTENDS PrimeSumSystem
CONSTANTS Xs,          \* arguments
          Ops,         \* calls taking <<x, threads>>
          Alphas, Threads, Cores, Length
VARIABLES hist, turn
hvars == <<vars, hist, turn>>

Cmd(c) == hist' = Append(hist, c)
Init == SystemInit /\ hist = <<>> /\ turn = "setup"
\* a call follows at most a few changes of the settings
DoAlpha == turn # "call" /\ \E a \in Alphas : SetAlpha(a) /\ Cmd("setalpha " \o a) /\ turn' \in {"setup", "call"}
DoThreads == turn # "call" /\ \E n \in Threads : SetThreads(n) /\ Cmd("setthreads " \o n) /\ turn' \in {"setup", "call"}
DoCores == turn # "call" /\ \E n \in Cores : SetCores(n) /\ Cmd("cores " \o n) /\ turn' \in {"setup", "call"}
DoSched == turn # "call" /\ \E m \in {"0", "1", "2", "3", "5"}, k \in 1..50 : Cmd("sched " \o m \o " " \o ToString(k)) /\ turn' = "call" /\ UNCHANGED vars
DoClock == turn # "call" /\ \E m \in {"0", "1", "2", "3", "4", "5", "6"}, k \in 1..20 : Cmd("clock " \o m \o " " \o ToString(k)) /\ turn' = "setup" /\ UNCHANGED vars
DoPrint == turn # "call" /\ \E b \in {"0", "1"} : Cmd("setprint " \o b) /\ turn' = "setup" /\ UNCHANGED vars
DoCall == \E op \in Ops, x \in Xs, t \in Threads :
            /\ Cmd(op \o " " \o x \o " " \o t) /\ UNCHANGED vars /\ turn' \in {"call", "setup", "setup"}
DoRead == \E op \in {"getthreads", "getalpha"} : Cmd(op) /\ UNCHANGED vars /\ turn' = "setup"
Next == Len(hist) < Length /\ (DoAlpha \/ DoThreads \/ DoCores \/ DoSched \/ DoClock \/ DoPrint \/ DoCall \/ DoCall \/ DoCall \/ DoRead)
Spec == Init /\ [][Next]_hvars
=============================================================================
