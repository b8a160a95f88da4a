----------------------------- MODULE PsCliTrace -----------------------------
(* Recorded runs of the real primesieve program against PsCliSem.           *)
EXTENDS PsCliSem, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
Init == s \in 1..Len(T) /\ l = 1
E == T[s].ev[l]

Failed == E.rc # "0" /\ Digits(E.rc)
ErrorShown == \E i \in 1..Len(E.err) : Starts(E.err[i][1], "primesieve: ")
First(p) == Len(E.out) > 0 /\ Starts(E.out[1][1], p)
\* an error, before any result was shown
Refused(o) == /\ Failed /\ ErrorShown /\ E.list = NoList
              /\ E.out = << >> \/ (o.end = "run" /\ ~ o.quiet /\ Len(E.out) = 2 /\ Settings(o, E.out))

Matches(o) ==
  CASE o.end = "usage" -> Failed /\ First("Usage: primesieve")
    [] o.end = "help" -> E.rc = "0" /\ First("Usage: primesieve")
    [] o.end = "version" -> E.rc = "0" /\ First("primesieve ") /\ Len(E.out[1][1]) > 11
    [] o.end = "cpu" -> E.rc = "0" /\ Len(E.out) > 0
    [] o.end = "test" -> (E.rc = "0" /\ \E i \in 1..Len(E.out) : E.out[i] = <<"All tests passed successfully!">>) \/ E.rc = "killed"
    [] o.end = "error" -> Refused(o)
    \* several lists at once, more than two numbers: not described
    [] o.end = "run" /\ (o.open \/ Cardinality(o.prints) > 1) -> E.rc = "0" \/ Refused(o)
    [] o.end = "run" /\ o.nth ->
         LET n == NthOf(o)
         IN  IF n = "error" THEN Refused(o)
             ELSE E.rc = "0" /\ E.err = << >> /\ E.list = NoList /\ Body(o, E.out, <<Line("Nth prime: " \o n)>>)
    [] o.end = "run" -> E.rc = "0" /\ E.err = << >> /\ E.list = ListOf(o) /\ Body(o, E.out, Counts(o))

Run == /\ l <= Len(T[s].ev) /\ E.op = "run" /\ l' = l + 1 /\ UNCHANGED s
       /\ \E o \in Outcomes(E.a) : Matches(o)
Done == l > Len(T[s].ev) /\ UNCHANGED <<s, l>>
Next == Run \/ Done
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
