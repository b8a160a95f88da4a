------------------------------ MODULE WorkTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the batch script: started with a work file, the program  *)
(* run with arguments while the work file has some content, and ended         *)
(* (finished, failed, interrupted); then started again.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l,
          todo,    \* items (sequences of words) not yet removed
          ph       \* "new", "idle", "up" (started), "ran" (first of todo succeeded), "failed"
tvars == <<s, l, todo, ph>>
Init == s \in 1..Len(T) /\ l = 1 /\ todo = << >> /\ ph = "new"
E == T[s].ev[l]
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED s

\* words of a line, separated by blanks
Sep(c) == c = " " \/ c = "\t"
RECURSIVE WordsFrom(_, _, _)
WordsFrom(t, i, w) ==
  IF i > Len(t) THEN IF w = "" THEN << >> ELSE <<w>>
  ELSE LET c == SubSeq(t, i, i)
       IN  IF ~ Sep(c) THEN WordsFrom(t, i + 1, w \o c)
           ELSE IF w = "" THEN WordsFrom(t, i + 1, "") ELSE <<w>> \o WordsFrom(t, i + 1, "")
Words(t) == WordsFrom(t, 1, "")
IsItem(t) == LET w == Words(t) IN w # << >> /\ SubSeq(w[1], 1, 1) # "#"
Items(file) == LET q == SelectSeq(file, IsItem) IN [i \in 1..Len(q) |-> Words(q[i])]

\* the list without the item that succeeded
Left == IF ph = "ran" THEN Tail(todo) ELSE todo
\* when interrupted or when the work file cannot be rewritten the item may still be there
Possible == {todo, Left}

Start == /\ Is("start")
         /\ \/ ph = "new" /\ todo' = Items(E.file)
            \/ ph = "idle" /\ Items(E.file) = todo /\ UNCHANGED todo
         /\ ph' = "up"
Run == /\ Is("run") /\ ph \in {"up", "ran"}
       /\ Left # << >>
       /\ E.a = Head(Left) \/ (T[s].log /\ E.a = Append(Head(Left), "--log"))
       /\ Items(E.file) = Left
       /\ todo' = Left
       /\ ph' = IF E.r = "ok" THEN "ran" ELSE "failed"
End == /\ Is("end") /\ ph \in {"up", "ran", "failed"} /\ ph' = "idle" /\ todo' = Items(E.file)
       /\ \/ \* everything done
             E.r = "0" /\ ph # "failed" /\ Left = << >> /\ (todo' = << >> \/ (E.fault /\ todo' = todo))
          \/ \* the program failed
             E.r # "0" /\ ph = "failed" /\ todo' = todo
          \/ \* interrupted, or a file operation failed
             E.r # "0" /\ ph # "failed" /\ E.fault /\ todo' \in Possible
          \/ \* no program to run
             E.r # "0" /\ ph = "up" /\ E.noprog /\ todo' = todo
Done == l > Len(T[s].ev) /\ UNCHANGED tvars
Next == Start \/ Run \/ End \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
