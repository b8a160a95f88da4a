------------------------------- MODULE Worktodo -------------------------------
(***************************************************************************)
(* The batch script: a work file of lines (0: blank or comment, otherwise    *)
(* an item, items numbered in order), the program run for the first item,     *)
(* then a copy without the first line is written to a temporary file and       *)
(* renamed. The script may be interrupted between any two steps and started    *)
(* again; the program or the copy may fail.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Lines,      \* most lines of the work file
          Crashes,    \* most interruptions
          Fails,      \* most failures of the program or of the copy
          Mutant

VARIABLES file, tmp, pc, log, crashes, fails, n,
          held,   \* the first line, in hand
          k,      \* lines copied
          hist    \* choices, for generating histories
vars == <<file, tmp, pc, log, crashes, fails, n, held, k, hist>>
View == <<file, tmp, pc, log, crashes, fails, n, held, k>>
None == <<-1>>
H(s) == hist' = Append(hist, s)
NoH == UNCHANGED hist

\* the k-th mark is an item: numbered in order
Number(m) == [i \in 1..Len(m) |-> IF m[i] = 0 THEN 0 ELSE Cardinality({j \in 1..i : m[j] = 1})]
Marks == UNION {[1..j -> {0, 1}] : j \in 0..Lines}
Items == {i \in 1..Lines : i <= n}
Init == /\ \E m \in Marks : file = Number(m) /\ n = Cardinality({i \in 1..Len(m) : m[i] = 1}) /\ hist = [i \in 1..Len(m) |-> IF m[i] = 0 THEN "blank" ELSE "item"]
        /\ tmp = None /\ pc = "read" /\ log = << >> /\ crashes = 0 /\ fails = 0 /\ held = 0 /\ k = 0

Read == /\ pc = "read" /\ NoH
        /\ IF file = << >> THEN pc' = "finished" /\ UNCHANGED held
           ELSE held' = Head(file) /\ pc' = (IF Head(file) = 0 \/ Mutant = "remove first" THEN "open" ELSE "run")
        /\ UNCHANGED <<file, tmp, log, crashes, fails, n, k>>
\* the program: it succeeds or fails
AfterRun == IF Mutant = "remove first" THEN "read" ELSE "open"
RunOK == /\ pc = "run" /\ log' = Append(log, <<held, "ok">>) /\ pc' = AfterRun /\ H("ok") /\ UNCHANGED <<file, tmp, crashes, fails, n, held, k>>
RunFail == /\ pc = "run" /\ fails < Fails /\ fails' = fails + 1
           /\ log' = Append(log, <<held, "failed">>) /\ H("fail")
           /\ pc' = (IF Mutant = "ignore failure" THEN AfterRun ELSE "failed")
           /\ UNCHANGED <<file, tmp, crashes, n, held, k>>
\* the copy: the temporary file is emptied, written in any number of pieces, then renamed
Rest == Tail(file)
Open == /\ pc = "open" /\ NoH /\ k' = 0
        /\ IF Mutant = "in place" THEN file' = << >> /\ tmp' = Rest /\ pc' = "piece"
           ELSE /\ tmp' = (IF Mutant = "append" /\ tmp # None THEN tmp ELSE << >>)
                /\ UNCHANGED file
                /\ pc' = "write"
        /\ UNCHANGED <<log, crashes, fails, n, held>>
Write == /\ pc = "write" /\ NoH
         /\ IF k < Len(Rest)
            THEN k' = k + 1 /\ tmp' = Append(tmp, Rest[k + 1]) /\ UNCHANGED pc
            ELSE pc' = "rename" /\ UNCHANGED <<tmp, k>>
         /\ UNCHANGED <<file, log, crashes, fails, n, held>>
\* mutant: the work file itself is emptied and written (tmp: what the process holds)
Piece == /\ pc = "piece" /\ NoH
         /\ IF Len(file) < Len(tmp) THEN file' = Append(file, tmp[Len(file) + 1]) /\ UNCHANGED pc
            ELSE pc' = "read" /\ UNCHANGED file
         /\ UNCHANGED <<tmp, log, crashes, fails, n, held, k>>
CopyFails == /\ pc \in {"open", "write"} /\ fails < Fails /\ fails' = fails + 1 /\ H("fault")
             /\ pc' = (IF Mutant = "rename anyway" /\ tmp # None THEN "rename" ELSE "failed")
             /\ UNCHANGED <<file, tmp, log, crashes, n, held, k>>
Rename == /\ pc = "rename" /\ file' = tmp /\ tmp' = None /\ NoH
          /\ pc' = (IF Mutant = "remove first" /\ held # 0 THEN "run" ELSE "read")
          /\ UNCHANGED <<log, crashes, fails, n, held, k>>
Crash == /\ pc \notin {"finished", "failed", "down"} /\ crashes < Crashes /\ crashes' = crashes + 1 /\ H("crash")
         /\ pc' = "down" /\ UNCHANGED <<file, tmp, log, fails, n, held, k>>
Restart == /\ pc \in {"failed", "down"} /\ pc' = "read" /\ H("start") /\ UNCHANGED <<file, tmp, log, crashes, fails, n, held, k>>
Finished == pc = "finished" /\ UNCHANGED vars
Next == Read \/ RunOK \/ RunFail \/ Open \/ Write \/ Piece \/ CopyFails \/ Rename \/ Crash \/ Restart \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ RunOK \/ Open \/ Write \/ Piece \/ Rename \/ Restart)

OK == {log[i][1] : i \in {j \in 1..Len(log) : log[j][2] = "ok"}}
InFile == {file[i] : i \in 1..Len(file)}
\* no item leaves the file before its run succeeded
NothingLost == \A i \in Items : i \in OK \/ i \in InFile
\* what is left is the end of the list, in order
LeftInOrder == \A i, j \in 1..Len(file) : i < j /\ file[i] # 0 /\ file[j] # 0 => file[i] < file[j]
\* runs: in order; the next run is the next item after a success, or, after a failure or interruption, the same item
RunsInOrder == \A i \in 1..Len(log) - 1 : \/ log[i + 1][1] = log[i][1] + 1 /\ log[i][2] = "ok"
                                          \/ log[i + 1][1] = log[i][1]
FirstFirst == log # << >> => log[1][1] = 1
\* without interruption or failing copy each item succeeds once
Once == crashes = 0 /\ fails = 0 => \A i \in Items : Cardinality({j \in 1..Len(log) : log[j] = <<i, "ok">>}) <= 1
AllDone == pc = "finished" => OK = Items
\* every start gets on: in the end everything is done
Finishes == <>(pc = "finished")
\* what an interrupted run can cost: one more run of an item per interruption
Repeats == Len(log) <= n + crashes + fails
=============================================================================
