------------------------------ MODULE PsCliSem ------------------------------
(***************************************************************************)
(* What the command line of the primesieve program means, and what a run    *)
(* prints: [START] STOP [OPTION]... An option takes no value, a value, or   *)
(* may take one; a value follows as -o5, --option=5 or as the next argument. *)
(* A step yields a set of states where more than one reading is acceptable. *)
(***************************************************************************)
EXTENDS CliText, SieveApi, FiniteSets

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letters == Lower \cup Upper
LooksLikeOption(s) == /\ Len(s) >= 2 /\ Ch(s, 1) = "-"
                      /\ Ch(s, 2) \in Letters \/ (Len(s) >= 3 /\ Ch(s, 2) = "-" /\ Ch(s, 3) \in Letters)

Kinds == [n \in {"-c", "--count"} |-> "count"] @@ [n \in {"-d", "--dist"} |-> "dist"] @@ [n \in {"-h", "--help"} |-> "help"]
  @@ [n \in {"-n", "--nth-prime", "--nthprime"} |-> "nth"] @@ [n \in {"-p", "--print"} |-> "print"] @@ [n \in {"-q", "--quiet"} |-> "quiet"]
  @@ [n \in {"-s", "--size"} |-> "size"] @@ [n \in {"-t", "--threads"} |-> "threads"] @@ [n \in {"-v", "--version"} |-> "version"]
  @@ ("--cpu-info" :> "cpu") @@ ("--no-status" :> "nostatus") @@ ("--number" :> "number") @@ ("--test" :> "test") @@ ("--time" :> "time")
Known(n) == n \in DOMAIN Kinds
NeedsValue(n) == Kinds[n] \in {"dist", "number", "size", "threads"}
MayHaveValue(n) == Kinds[n] \in {"count", "print"}

RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, set) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in set THEN i ELSE FirstIn(s, i + 1, set)

\* one word, next: the word after it ("" if there is none).
\* id "" = wrong; used: next belongs to it; odd: a value for an option that takes none
Wrong == [id |-> "", val |-> "", used |-> FALSE, odd |-> FALSE]
Word(s, next) ==
  LET free == next # "" /\ ~ LooksLikeOption(next)
      e == FirstIn(s, 1, {"="})
      d == FirstIn(s, 1, Dec)
      Valued(id, val) == IF ~ Known(id) \/ (val = "" /\ NeedsValue(id)) THEN Wrong
                       ELSE [id |-> id, val |-> val, used |-> FALSE, odd |-> ~ NeedsValue(id) /\ ~ MayHaveValue(id)]
  IN  IF s = "" THEN Wrong
      ELSE IF Known(s) THEN
        IF NeedsValue(s) THEN IF free THEN [id |-> s, val |-> next, used |-> TRUE, odd |-> FALSE] ELSE Wrong
        ELSE IF MayHaveValue(s) /\ free THEN [id |-> s, val |-> next, used |-> TRUE, odd |-> FALSE]
        ELSE [id |-> s, val |-> "", used |-> FALSE, odd |-> FALSE]
      ELSE IF LooksLikeOption(s) THEN
        IF e # 0 THEN Valued(SubSeq(s, 1, e - 1), From(s, e + 1))
        ELSE IF d # 0 THEN Valued(SubSeq(s, 1, d - 1), From(s, d))
        ELSE Wrong
      ELSE IF Ch(s, 1) = "-" \/ d = 0 THEN Wrong
      ELSE [id |-> "--number", val |-> s, used |-> FALSE, odd |-> FALSE]

\* The value of an expression within lo..hi. Where a part of it (not the
\* value itself) leaves the type, an error is acceptable as well.
Choices(s, lo, hi, type) ==
  LET t == Lex(s, 1) w == Eval(t, "128") n == Eval(t, type)
  IN  {IF ~ w.err /\ BInRange(w.v, lo, hi) THEN w.v ELSE "error"} \cup {IF n.err THEN "error" ELSE n.v}
      \cup (IF w.lax \/ n.lax THEN {"error"} ELSE {})
IntChoices(s) == Choices(s, "-2147483648", "2147483647", "32")
NumChoices(s) == Choices(s, "0", U64, "u64")

---------------------------------------------------------------------------
Start == [end |-> "", counts |-> {}, prints |-> {}, size |-> "", threads |-> "", quiet |-> FALSE, nth |-> FALSE, status |-> TRUE, time |-> FALSE,
          nums |-> << >>, dist |-> FALSE, open |-> FALSE]
End(st, e) == [st EXCEPT !.end = e]
Bad(st) == End(st, "error")

OneTo6 == {"1", "2", "3", "4", "5", "6"}
CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}
CountSet(st, v) ==
  IF v = "error" THEN {Bad(st)}
  ELSE IF BLeq(v, "0") THEN {st, Bad(st)}                 \* selects nothing
  ELSE IF CharsOf(v) \subseteq OneTo6 THEN {[st EXCEPT !.counts = @ \cup CharsOf(v)]}
  ELSE {Bad(st)}
PrintSet(st, v) == IF v \in OneTo6 THEN {[st EXCEPT !.prints = @ \cup {v}, !.quiet = TRUE]} ELSE {Bad(st)}
AddNumber(st, v) == IF v = "error" THEN Bad(st) ELSE [st EXCEPT !.nums = Append(@, v), !.open = @ \/ st.dist]
AddDist(st, v) ==
  LET from == IF st.nums = << >> THEN "0" ELSE st.nums[1]
  IN  IF v = "error" \/ BLess(U64, BAdd(from, v)) THEN Bad(st) ELSE [st EXCEPT !.nums = Append(@, BAdd(from, v)), !.dist = TRUE, !.open = @ \/ st.dist]

ReadWord(st, o) ==
  LET k == IF o.id = "" THEN "" ELSE Kinds[o.id]
      new == CASE k = "count" -> UNION {CountSet(st, v) : v \in IF o.val = "" THEN {"1"} ELSE IntChoices(o.val)}
               [] k = "print" -> UNION {PrintSet(st, v) : v \in IF o.val = "" THEN {"1"} ELSE IntChoices(o.val)}
               [] k = "number" -> {AddNumber(st, v) : v \in NumChoices(o.val)}
               [] k = "dist" -> {AddDist(st, v) : v \in NumChoices(o.val)}
               [] k = "size" -> {IF v = "error" THEN Bad(st) ELSE [st EXCEPT !.size = v] : v \in IntChoices(o.val)}
               [] k = "threads" -> {IF v = "error" THEN Bad(st) ELSE [st EXCEPT !.threads = v] : v \in IntChoices(o.val)}
               [] k = "quiet" -> {[st EXCEPT !.quiet = TRUE]}
               [] k = "nth" -> {[st EXCEPT !.nth = TRUE]}
               [] k = "nostatus" -> {[st EXCEPT !.status = FALSE]}
               [] k = "time" -> {[st EXCEPT !.time = TRUE]}
               [] k = "help" -> {End(st, "help")}
               [] k = "version" -> {End(st, "version")}
               [] k = "cpu" -> {End(st, "cpu")}
               [] k = "test" -> {End(st, "test")}
               [] OTHER -> {Bad(st)}
  IN  IF st.end # "" THEN {st} ELSE IF o.odd THEN new \cup {Bad(st)} ELSE new

Finish(st) ==
  IF st.end # "" THEN st
  ELSE IF st.nums = << >> THEN Bad(st)
  ELSE [st EXCEPT !.end = "run", !.status = @ /\ ~ st.quiet, !.time = @ \/ ~ st.quiet, !.open = @ \/ Len(st.nums) > 2]

RECURSIVE ReadAll(_, _, _)
ReadAll(sts, args, i) ==
  IF i > Len(args) THEN {Finish(st) : st \in sts}
  ELSE LET o == Word(args[i], IF i < Len(args) THEN args[i + 1] ELSE "")
       IN  ReadAll(UNION {ReadWord(st, o) : st \in sts}, args, IF o.used THEN i + 2 ELSE i + 1)
Outcomes(args) == IF args = << >> THEN {End(Start, "usage")} ELSE ReadAll({Start}, args, 1)

---------------------------------------------------------------------------
(* What a run prints. list: digest of the printed primes and k-tuplets,      *)
(* out: the other lines.                                                     *)
From2(o) == IF Len(o.nums) = 1 THEN "0" ELSE o.nums[1]
To2(o) == IF Len(o.nums) = 1 THEN o.nums[1] ELSE o.nums[2]
Counted(o) == IF o.counts = {} /\ o.prints = {} THEN {"1"} ELSE o.counts
Labels == ("1" :> "Primes: ") @@ ("2" :> "Twin primes: ") @@ ("3" :> "Prime triplets: ") @@ ("4" :> "Prime quadruplets: ")
  @@ ("5" :> "Prime quintuplets: ") @@ ("6" :> "Prime sextuplets: ")
RECURSIVE CountLines(_, _)
CountLines(o, ks) == IF ks = << >> THEN << >>
                     ELSE (IF ks[1] \in Counted(o) THEN <<Line(Labels[ks[1]] \o Count(ks[1], From2(o), To2(o)))>> ELSE << >>) \o CountLines(o, SubSeq(ks, 2, Len(ks)))
Counts(o) == CountLines(o, <<"1", "2", "3", "4", "5", "6">>)
NoList == PrimesDigest("1", "0")
ListOf(o) == IF o.prints = {} THEN NoList ELSE Printed(CHOOSE k \in o.prints : TRUE, From2(o), To2(o))

Sizes == {"8", "16", "32", "64", "128", "256", "512", "1024", "2048", "4096"}
SizeLine(o, ln) == Plain(ln) /\ \E s \in Sizes : ln[1] = "Sieve size = " \o s \o " KiB" /\ (o.size # "" /\ o.size # "0" => s = SizeOf(o.size))
ThreadsLine(o, ln) == /\ Plain(ln) /\ Starts(ln[1], "Threads = ")
                      /\ LET t == From(ln[1], 11)
                         IN  Digits(t) /\ BLess("0", t) /\ (o.threads # "" /\ o.threads # "0" => BLeq(t, BMax("1", o.threads)))
                             /\ (o.prints # {} => t = "1")
Percents(ln) == SubSeq(ln, 2, Len(ln))
PercentOf(s) == SubSeq(s, 1, Len(s) - 1)
StatusLine(ln) == /\ Len(ln) >= 2 /\ ln[1] = ""
                  /\ LET p == Percents(ln)
                     IN  /\ \A i \in 1..Len(p) : Len(p[i]) >= 2 /\ Ch(p[i], Len(p[i])) = "%" /\ Digits(PercentOf(p[i])) /\ BLeq(PercentOf(p[i]), "100")
                         /\ \A i \in 1..Len(p) - 1 : BLess(PercentOf(p[i]), PercentOf(p[i + 1]))
                         /\ p[Len(p)] = "100%"

Settings(o, out) == Len(out) >= 2 /\ SizeLine(o, out[1]) /\ ThreadsLine(o, out[2])
Rest(out, i) == SubSeq(out, i, Len(out))
\* after the settings and the progress
Tail1(o, out, last) ==
  IF o.time THEN Len(out) >= 1 /\ IsSeconds(out[1]) /\ Rest(out, 2) = last ELSE out = last
Body(o, out, last) ==
  LET b == IF o.quiet THEN out ELSE Rest(out, 3)
      p == o.status /\ ~ o.nth
      empty == BLess(To2(o), From2(o))                        \* nothing to sieve: nothing to report
  IN  /\ ~ o.quiet => Settings(o, out)
      /\ \/ TRUE = (p /\ Len(b) >= 1 /\ StatusLine(b[1]) /\ Tail1(o, Rest(b, 2), last))
         \/ TRUE = ((~ p \/ empty) /\ Tail1(o, b, last))
NthOf(o) == IF BLess("9223372036854775807", o.nums[1]) THEN "error" ELSE Nth(o.nums[1], IF Len(o.nums) = 1 THEN "0" ELSE o.nums[2])
=============================================================================
