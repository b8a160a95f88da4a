-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line as a state machine: arguments arrive one by one, then   *)
(* the program finishes. Checked over all argument lists up to a length:     *)
(* the documented effects of CliSem are order independent where they should  *)
(* be, and every list ends in exactly one way. The lists of its behaviours   *)
(* are also given to the real program (see CliTrace).                        *)
(***************************************************************************)
EXTENDS CliSem, FiniteSets

CONSTANTS Words,      \* the arguments that may be given
          Length,     \* number of arguments
          Mutant
VARIABLES args, sts, done
vars == <<args, sts, done>>

Init == args = << >> /\ sts = {Start} /\ done = FALSE

\* wrong command lines
Wrong(st, w) ==
  CASE Mutant = "first algorithm" /\ Split(w).id \in DOMAIN AlgNames /\ st.alg # "pi" /\ st.end = "" -> {st}
    [] Mutant = "last number" /\ Split(w).id = "" /\ st.end = "" -> {[s EXCEPT !.xs = SubSeq(@, Len(@), Len(@))] : s \in ReadArg(st, w)}
    [] Mutant = "no time" /\ Split(w).id = "-s" -> {[s EXCEPT !.time = st.time] : s \in ReadArg(st, w)}
    [] OTHER -> ReadArg(st, w)

Give(w) == /\ ~ done /\ Len(args) < Length
           /\ args' = Append(args, w)
           /\ sts' = UNION {Wrong(st, w) : st \in sts}
           /\ UNCHANGED done
Run == ~ done /\ done' = TRUE /\ sts' = {Finish(st) : st \in sts} /\ UNCHANGED args
Next == (\E w \in Words : Give(w)) \/ Run \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
IsNumber(w) == Len(w) > 0 /\ Ch(w, 1) \in Dec
AlgsOf(as) == SelectSeq(as, LAMBDA w : Split(w).id \in DOMAIN AlgNames)
\* an unlimited list without doubtful arguments has one outcome
Certain == \A i \in 1..Len(args) : Cardinality(ReadArg(Start, args[i])) = 1
TypeOK == sts # {} /\ (Certain => Cardinality(sts) = 1)
Ends == done => \A st \in sts : st.end \in {"help", "version", "test", "run"}

\* a computation needs exactly one well-formed number and no unknown argument
OneNumber == done => \A st \in sts : st.end = "run" =>
  /\ Len(st.xs) = 1
  /\ Cardinality({i \in 1..Len(args) : Split(args[i]).id \in {"", "--number"}}) = 1
  /\ \A i \in 1..Len(args) : LET id == Split(args[i]).id IN id = "" \/ Known(id)
LastAlgorithm == (done /\ Certain) => \A st \in sts : st.end = "run" =>
  st.alg = IF AlgsOf(args) = << >> THEN "pi" ELSE AlgNames[Split(AlgsOf(args)[Len(AlgsOf(args))]).id]
StatusTimes == \A st \in sts : st.status => st.time
\* two neighbours that are not the same kind of setting can be exchanged
Kind(w) == LET id == Split(w).id IN IF id = "" THEN "number" ELSE IF id \in DOMAIN AlgNames THEN "alg" ELSE IF id \in DOMAIN Names THEN Names[id] ELSE "unknown"
Terminal == {"help", "version", "test", "unknown"}
Swapped(i) == [args EXCEPT ![i] = args[i + 1], ![i + 1] = args[i]]
Commute == done => \A i \in 1..Len(args) - 1 :
  (Kind(args[i]) # Kind(args[i + 1]) /\ Kind(args[i]) \notin Terminal /\ Kind(args[i + 1]) \notin Terminal)
     => {[st EXCEPT !.xs = << >>, !.alpha = ""] : st \in {s \in Outcomes(Swapped(i)) : s.end = "run"}}
      = {[st EXCEPT !.xs = << >>, !.alpha = ""] : st \in {s \in sts : s.end = "run"}}
=============================================================================
