-------------------------------- MODULE PsCli --------------------------------
(***************************************************************************)
(* The command line of the primesieve program as a state machine: arguments *)
(* arrive one by one, then the program reads them. Checked over all argument *)
(* lists up to a length; its behaviours are also given to the real program.  *)
(***************************************************************************)
EXTENDS PsCliSem

CONSTANTS Words, Length, Mutant
VARIABLES args, sts, done
vars == <<args, sts, done>>

Init == args = << >> /\ sts = {} /\ done = FALSE

RECURSIVE WrongAll(_, _, _)
WrongRead(st, o) ==
  CASE Mutant = "steals" /\ o.id \in {"-q", "--time"} -> ReadWord(st, [o EXCEPT !.used = TRUE])
    [] Mutant = "wrap" /\ st.end = "" /\ o.id \in {"-d", "--dist"} /\ st.nums # << >> -> {[s EXCEPT !.nums = IF s.end = "" THEN Append(st.nums, BRem(s.nums[Len(s.nums)], "256")) ELSE @] : s \in ReadWord(st, o)}
    [] Mutant = "last count" /\ st.end = "" /\ o.id # "" /\ Kinds[o.id] = "count" -> {[s EXCEPT !.counts = IF s.end = "" THEN CharsOf(IF o.val = "" THEN "1" ELSE o.val) ELSE @] : s \in ReadWord(st, o)}
    [] Mutant = "loud print" /\ st.end = "" /\ o.id # "" /\ Kinds[o.id] = "print" -> {[s EXCEPT !.quiet = st.quiet] : s \in ReadWord(st, o)}
    [] OTHER -> ReadWord(st, o)
WrongAll(ss, as, i) ==
  IF i > Len(as) THEN {Finish(st) : st \in ss}
  ELSE LET o == Word(as[i], IF i < Len(as) THEN as[i + 1] ELSE "")
       IN  WrongAll(UNION {WrongRead(st, o) : st \in ss}, as, IF o.used \/ (Mutant = "steals" /\ o.id \in {"-q", "--time"}) THEN i + 2 ELSE i + 1)

Give(w) == ~ done /\ Len(args) < Length /\ args' = Append(args, w) /\ UNCHANGED <<sts, done>>
Run == ~ done /\ done' = TRUE /\ sts' = (IF args = << >> THEN Outcomes(args) ELSE WrongAll({Start}, args, 1)) /\ UNCHANGED args
Next == (\E w \in Words : Give(w)) \/ Run \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Ends == done => sts # {} /\ \A st \in sts : st.end \in {"usage", "help", "version", "cpu", "test", "error", "run"}
Runs == {st \in sts : st.end = "run"}
\* the words of the list with what they are
RECURSIVE WordsOf(_, _)
WordsOf(as, i) == IF i > Len(as) THEN << >>
                  ELSE LET o == Word(as[i], IF i < Len(as) THEN as[i + 1] ELSE "") IN <<o>> \o WordsOf(as, IF o.used THEN i + 2 ELSE i + 1)
KindOf(o) == IF o.id = "" THEN "wrong" ELSE Kinds[o.id]
Given == {KindOf(WordsOf(args, 1)[i]) : i \in 1..Len(WordsOf(args, 1))}
\* a run has a number, and nothing wrong was given
Sound == done => \A st \in Runs : /\ st.nums # << >> /\ Given \cap {"number", "dist"} # {} /\ "wrong" \notin Given
                                  /\ \A i \in 1..Len(st.nums) : IsU64(st.nums[i])
\* quiet or printing: no status, no settings; otherwise the time is shown
Quiet == done => \A st \in Runs : /\ st.quiet = (Given \cap {"quiet", "print"} # {})
                                  /\ st.quiet => ~ st.status
                                  /\ ~ st.quiet => st.time
                                  /\ ("time" \in Given => st.time) /\ ("nostatus" \in Given => ~ st.status)
                                  /\ st.nth = ("nth" \in Given)
\* every digit of every count option counts
AllCounts == done => \A st \in Runs : \A i \in 1..Len(WordsOf(args, 1)) :
  LET o == WordsOf(args, 1)[i] IN KindOf(o) = "count" => (IF o.val = "" THEN {"1"} ELSE {c \in CharsOf(o.val) : c \in OneTo6}) \subseteq st.counts
\* START + DIST is where the interval ends
Distance == done => \A st \in Runs : (~ st.open /\ st.dist /\ Len(st.nums) = 2) =>
  \E i \in 1..Len(WordsOf(args, 1)) : LET o == WordsOf(args, 1)[i] IN KindOf(o) = "dist" /\ st.nums[2] \in {BAdd(st.nums[1], v) : v \in NumChoices(o.val)}
=============================================================================
