------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the real programs against CliSem and CliOutput. A run:   *)
(* arguments a, lines out and err (segments separated by carriage returns),  *)
(* exit code rc ("killed": still running when it was ended), cores.          *)
(* The state holds which y was seen for (x, factor): every later component    *)
(* of the same computation must belong to it.                                *)
(***************************************************************************)
EXTENDS CliOutput, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, ys
tvars == <<s, l, ys>>
Init == s \in 1..Len(T) /\ l = 1 /\ ys = << >>
E == T[s].ev[l]

Failed == E.rc # "0" /\ Digits(E.rc)
ErrorShown == \E i \in 1..Len(E.err) : Starts(E.err[i][1], "Error")
HelpShown == Len(E.out) > 0 /\ Starts(E.out[1][1], "Usage: primesum")
VersionShown == Len(E.out) > 0 /\ Starts(E.out[1][1], "primesum ") /\ Len(E.out[1][1]) > 9

Key(o) == <<o.xs[1], o.alpha, o.alg \in LmoAlgs>>
Shown(out) == Values(out, "y")
\* a record of the learnt y
Known1(o) == Key(o) \in DOMAIN ys
Learn(o, out) == IF One(Shown(out)) /\ ~ Known1(o) THEN ys' = (Key(o) :> The(Shown(out))) @@ ys ELSE UNCHANGED ys
Consistent(o, out) == (One(Shown(out)) /\ Known1(o)) => Shown(out) = {ys[Key(o)]}

---------------------------------------------------------------------------
IsComponent(o) == o.alg \in Components
MustRefuse(o) == IF o.alg \in LmoAlgs THEN BLess("9223372036854775807", o.xs[1]) ELSE BeyondA(o.xs[1], o.alpha)
MayRefuse(o)  == IF o.alg \in LmoAlgs THEN MustRefuse(o) ELSE ~ WithinA(o.xs[1], o.alpha)
Refused == Failed /\ ErrorShown /\ E.out = << >>

YOf(o, out) == IF One(Shown(out)) THEN Shown(out) ELSE IF Known1(o) THEN {ys[Key(o)]} ELSE {}
ResultOK(o, v, out) ==
  LET x == o.xs[1] IN
  IF ~ IsComponent(o) THEN v = (IF BLess(x, "2") THEN "0" ELSE PrimeSum(x))
  ELSE IF BLess(x, "1") THEN v = "0"
  ELSE \A y \in YOf(o, out) : PartOK(o.alg, x, y, v)

\* values shown along the way belong to the same x and y
ShownPartsOK(o, out) ==
  \A a \in Components : \A v \in Values(out, LabelOf[a]) : \A y \in Shown(out) : PartOK(a, o.xs[1], y, v)
PhaseTimes(out) == \A i \in 1..Len(out) : (IsAssign(out[i]) /\ NameOf(out[i]) \in {LabelOf[a] : a \in Components} \cup {"S2"}) => i < Len(out) /\ IsSeconds(out[i + 1])
\* one full report per phase, directly before its value
PhaseEnds(out) == \A i \in 1..Len(out) : (IsAssign(out[i]) /\ NameOf(out[i]) \in {LabelOf[a] : a \in Components} \cup {"S2"}) => i > 1 /\ IsProgress(out[i - 1])

QuietRun(o) == LET n == IF o.time THEN 2 ELSE 1
               IN  Len(E.out) = n /\ Plain(E.out[1]) /\ ResultOK(o, E.out[1][1], E.out) /\ (o.time => IsSeconds(E.out[2]))
\* a component with its progress: one phase, no other result
StatusComponent(o) ==
  LET v == Values(E.out, LabelOf[o.alg]) IN
  /\ \A a \in Components \ {o.alg} : Values(E.out, LabelOf[a]) = {}
  /\ Cardinality(Headers(E.out)) = 1 /\ Count(E.out, IsHeader) = 1
  /\ One(v) /\ ResultOK(o, The(v), E.out)
  /\ Len(E.out) > 2 /\ IsSeconds(E.out[Len(E.out)]) /\ IsAssign(E.out[Len(E.out) - 1]) /\ NameOf(E.out[Len(E.out) - 1]) = LabelOf[o.alg]
  /\ Count(E.out, IsSeconds) = 1
  /\ ParamsOK(o, E.out, E.cores)
TopHeaders(out) == {h \in Headers(out) : Starts(h, "=== pi_")}
TopOf(alg) == CASE alg \in {"pi", "dr", "drp"} -> {"=== pi_deleglise_rivat_parallel1(x) ==="}
                [] alg \in {"lmo", "lmop"} -> {"=== pi_lmo_parallel1(x) ==="}
                [] alg = "lmo5" -> {"=== pi_lmo5(x) ==="}
                [] OTHER -> {}
StatusFull(o) ==
  LET n == Len(E.out) IN
  /\ n >= 3 /\ E.out[n - 2] = <<"">> /\ Plain(E.out[n - 1]) /\ ResultOK(o, E.out[n - 1][1], E.out) /\ IsSeconds(E.out[n])
  /\ (Values(E.out, "x") # {} => ParamsOK(o, E.out, E.cores))
  /\ (o.alg \in {"pi", "dr", "drp"} /\ ~ BLess(o.xs[1], "2") => Values(E.out, "x") # {} /\ \A a \in Components : One(Values(E.out, LabelOf[a])))
  \* the algorithm that ran is the one selected
  /\ (~ BLess(o.xs[1], "2") => TopHeaders(E.out) = TopOf(o.alg))
  /\ ShownPartsOK(o, E.out)
Answered(o) ==
  /\ E.rc = "0" /\ E.err = << >>
  /\ IF ~ o.status THEN QuietRun(o)
     ELSE /\ IF IsComponent(o) /\ ~ BLess(o.xs[1], "1") THEN StatusComponent(o) ELSE StatusFull(o)
          /\ PhaseTimes(E.out) /\ PhaseEnds(E.out) /\ AllProgress(o, E.out, TRUE)
\* ended by us: so far no result, no error
Accepted(o) ==
  /\ E.rc = "killed" /\ E.err = << >>
  /\ IF o.status THEN /\ AllProgress(o, E.out, FALSE)
                      /\ (Values(E.out, "threads") # {} => ParamsOK(o, E.out, E.cores))
     ELSE E.out = << >>

Matches(o) ==
  CASE o.end = "help" -> Failed /\ HelpShown
    [] o.end = "version" -> Failed /\ VersionShown
    [] o.end = "test" -> (E.rc = "0" /\ \E i \in 1..Len(E.out) : E.out[i] = <<"All tests passed successfully!">>) \/ E.rc = "killed"
    [] o.end = "run" -> Consistent(o, E.out) /\ (\/ TRUE = (~ MustRefuse(o) /\ (Answered(o) \/ Accepted(o)))
                                                 \/ TRUE = (MayRefuse(o) /\ Refused))

Run == /\ l <= Len(T[s].ev) /\ E.op = "run" /\ l' = l + 1 /\ UNCHANGED s
       /\ LET os == {o \in Outcomes(E.a) : Matches(o)}
          IN  /\ os # {}
              /\ LET o == CHOOSE q \in os : TRUE IN IF o.end = "run" THEN Learn(o, E.out) ELSE UNCHANGED ys
Done == l > Len(T[s].ev) /\ UNCHANGED tvars
Next == Run \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
