------------------------------ MODULE CliSem ------------------------------
(***************************************************************************)
(* What the command line of primesum means: an argument list is read from   *)
(* left to right; the outcome is help, version, the self test, or one       *)
(* computation with settings. Where the documentation leaves a choice       *)
(* (a value given to an option that takes none, text after a number) both   *)
(* readings are allowed: a step yields a set of states.                     *)
(***************************************************************************)
EXTENDS CliText

Number(s) == Eval(Lex(s, 1), "128")

(* Decimal fractions: digits with at most one point, optional exponent. *)
Fraction(s) ==
  LET a == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN 2 ELSE 1
      b == SkipIn(s, a, Dec)
      p == b <= Len(s) /\ Ch(s, b) = "."
      c == IF p THEN SkipIn(s, b + 1, Dec) ELSE b
      digits == (b - a) + (IF p THEN c - b - 1 ELSE 0)
      x == c <= Len(s) /\ Ch(s, c) \in {"e", "E"}
      d0 == IF x /\ c < Len(s) /\ Ch(s, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1
      d == SkipIn(s, d0, Dec)
  IN  IF digits = 0 THEN "none"
      ELSE IF c > Len(s) \/ (x /\ d > Len(s) /\ d > d0) THEN "all"
      ELSE "prefix"

---------------------------------------------------------------------------
Algs == {"pi", "dr", "drp", "lmo", "lmo1", "lmo2", "lmo3", "lmo4", "lmo5", "lmop", "P2", "S1", "S2_trivial", "S2_easy", "S2_hard"}
Components == {"P2", "S1", "S2_trivial", "S2_easy", "S2_hard"}
LmoAlgs == {"lmo", "lmo1", "lmo2", "lmo3", "lmo4", "lmo5", "lmop"}

Names == [n \in {"-a", "--alpha"} |-> "alpha"] @@ [n \in {"-h", "--help"} |-> "help"] @@ [n \in {"-v", "--version"} |-> "version"]
  @@ [n \in {"-s", "--status"} |-> "status"] @@ [n \in {"-t", "--threads"} |-> "threads"]
  @@ ("--number" :> "number") @@ ("--test" :> "test") @@ ("--time" :> "time")
AlgNames == [n \in {"-d", "--deleglise_rivat"} |-> "dr"] @@ [n \in {"-l", "--lmo"} |-> "lmo"]
  @@ ("--deleglise_rivat_parallel1" :> "drp") @@ ("--lmo1" :> "lmo1") @@ ("--lmo2" :> "lmo2") @@ ("--lmo3" :> "lmo3")
  @@ ("--lmo4" :> "lmo4") @@ ("--lmo5" :> "lmo5") @@ ("--lmo_parallel1" :> "lmop") @@ ("--P2" :> "P2") @@ ("--pi" :> "pi")
  @@ ("--S1" :> "S1") @@ ("--S2_easy" :> "S2_easy") @@ ("--S2_hard" :> "S2_hard") @@ ("--S2_trivial" :> "S2_trivial")
Known(n) == n \in DOMAIN Names \/ n \in DOMAIN AlgNames

RECURSIVE FirstOf(_, _)
FirstOf(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in Dec \cup {"="} THEN i ELSE FirstOf(s, i + 1)

\* id, value, and whether a value is present
Split(s) ==
  LET d == FirstOf(s, 1)
  IN  IF Known(s) \/ d = 0 THEN [id |-> s, val |-> "", has |-> FALSE]
      ELSE [id |-> SubSeq(s, 1, d - 1), val |-> From(s, IF Ch(s, d) = "=" THEN d + 1 ELSE d), has |-> TRUE]

---------------------------------------------------------------------------
(* Reading: the state is what has been selected so far. end # "": decided.  *)
Start == [end |-> "", alg |-> "pi", xs |-> << >>, alpha |-> "-1", threads |-> "unset", prec |-> "-1", time |-> FALSE, status |-> FALSE]
End(st, e) == [st EXCEPT !.end = e]
Help(st) == End(st, "help")

Int32(v) == BInRange(v, "-2147483648", "2147483647")
\* value of an expression as a set: {} = malformed; more than one: either reading
NumChoices(s) == LET r == Number(s) IN IF r.err THEN {"error"} ELSE IF r.lax THEN {"error", r.v} ELSE {r.v}
IntChoices(s) == {IF v = "error" \/ ~ Int32(v) THEN "error" ELSE v : v \in NumChoices(s)}

ReadNumber(st, s) == {IF v = "error" THEN Help(st) ELSE [st EXCEPT !.xs = Append(@, v)] : v \in NumChoices(s)}

ReadArg(st, s) ==
  LET o == Split(s)
      k == IF o.id \in DOMAIN Names THEN Names[o.id] ELSE ""
      \* an option that takes no value, given one: unknown, or the value does not matter
      plain(new) == IF o.has THEN {new, Help(st)} ELSE {new}
  IN  IF st.end # "" THEN {st}
      ELSE IF o.id = "" THEN IF o.val # "" THEN (IF o.has /\ Ch(s, 1) = "=" THEN {Help(st)} ELSE {}) \cup ReadNumber(st, o.val) ELSE {Help(st)}
      ELSE IF o.id \in DOMAIN AlgNames THEN plain([st EXCEPT !.alg = AlgNames[o.id]])
      ELSE CASE k = "help" -> {Help(st)}
             [] k = "version" -> plain(End(st, "version"))
             [] k = "test" -> plain(End(st, "test"))
             [] k = "time" -> plain([st EXCEPT !.time = TRUE])
             [] k = "number" -> ReadNumber(st, o.val)
             [] k = "alpha" -> LET f == Fraction(o.val)
                               IN  CASE f = "all" -> {[st EXCEPT !.alpha = o.val]}
                                     [] f = "none" -> {Help(st)}
                                     [] OTHER -> {Help(st), [st EXCEPT !.alpha = "?"]}
             [] k = "threads" -> {IF v = "error" THEN Help(st) ELSE [st EXCEPT !.threads = v] : v \in IntChoices(o.val)}
             [] k = "status" ->
                  LET s1 == [st EXCEPT !.status = TRUE, !.time = TRUE]
                  IN  IF o.val = "" THEN {s1} \cup (IF o.has THEN {Help(st)} ELSE {})
                      ELSE {IF v = "error" THEN Help(st) ELSE [s1 EXCEPT !.prec = BMax("0", BMin(v, "5"))] : v \in IntChoices(o.val)}
             [] OTHER -> {Help(st)}

Finish(st) == IF st.end # "" THEN st ELSE IF Len(st.xs) = 1 THEN End(st, "run") ELSE Help(st)

RECURSIVE ReadAll(_, _, _)
ReadAll(sts, args, i) == IF i > Len(args) THEN {Finish(st) : st \in sts}
                         ELSE ReadAll(UNION {ReadArg(st, args[i]) : st \in sts}, args, i + 1)
Outcomes(args) == ReadAll({Start}, args, 1)
=============================================================================
