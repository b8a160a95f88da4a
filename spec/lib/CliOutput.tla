----------------------------- MODULE CliOutput -----------------------------
(***************************************************************************)
(* What the program prints for an outcome of CliSem. Output is a sequence   *)
(* of lines, a line a sequence of segments separated by carriage returns.   *)
(***************************************************************************)
EXTENDS CliSem, Limits, FiniteSets

\* position of " = " in s, or 0
RECURSIVE EqAt(_, _)
EqAt(s, i) == IF i + 2 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + 2) = " = " THEN i ELSE EqAt(s, i + 1)
\* lines "name = value"; pi(x) = ... is a formula
IsAssign(ln) == Plain(ln) /\ EqAt(ln[1], 1) > 1 /\ ~ Starts(ln[1], "pi(x)")
NameOf(ln) == SubSeq(ln[1], 1, EqAt(ln[1], 1) - 1)
ValOf(ln) == From(ln[1], EqAt(ln[1], 1) + 3)
Values(out, name) == {ValOf(out[i]) : i \in {j \in 1..Len(out) : IsAssign(out[j]) /\ NameOf(out[j]) = name}}
\* headers "=== name ==="
IsHeader(ln) == Plain(ln) /\ Starts(ln[1], "=== ")
Headers(out) == {out[i][1] : i \in {j \in 1..Len(out) : IsHeader(out[j])}}
Count(out, P(_)) == Len(SelectSeq(out, P))

---------------------------------------------------------------------------
(* Progress lines: "Status: p%" with the requested decimals; p never falls, *)
(* stays within 0 and 100; the last report of a finished phase is 100%.      *)
IsProgress(ln) == \E i \in 1..Len(ln) : Starts(ln[i], "Status: ")
Blank(s) == SkipIn(s, 1, {" "}) > Len(s)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
\* "12.34" as 1234
Scaled(p, n) == NoZeros(IF n = 0 THEN p ELSE SubSeq(p, 1, Len(p) - n - 1) \o From(p, Len(p) - n + 1))
Percent(s) == SubSeq(s, 9, Len(s) - 1)
Report(s, n) == /\ Starts(s, "Status: ") /\ Ch(s, Len(s)) = "%" /\ Fixed(Percent(s), n)
                /\ BLeq(Scaled(Percent(s), n), BMul("100", BPow("10", ToString(n))))
Reports(ln) == SelectSeq(ln, LAMBDA s : ~ Blank(s))
\* ns: the numbers of decimals allowed
ProgressOK(ln, ns, finished) ==
  LET r == Reports(ln)
      m == IF finished THEN Len(r) - 1 ELSE Len(r)
  IN  /\ finished => Len(r) > 0 /\ r[Len(r)] = "Status: 100%"
      /\ \E n \in ns :
           /\ \A i \in 1..m : Report(r[i], n)
           /\ \A i \in 1..m - 1 : BLeq(Scaled(Percent(r[i]), n), Scaled(Percent(r[i + 1]), n))
\* 0, 1 or 2 decimals by the size of x. The thresholds are floating-point
\* numbers: next to one of them either side of it is right.
Around(x, e, w) == BLess(BSub(BPow("10", e), w), x) /\ BLess(x, BAdd(BPow("10", e), w))
DefaultPrecs(x) ==
  {IF BLeq(BPow("10", "23"), x) THEN 2 ELSE IF BLeq(BPow("10", "21"), x) THEN 1 ELSE 0}
  \cup (IF Around(x, "21", "1000000") THEN {0, 1} ELSE {}) \cup (IF Around(x, "23", "100000000") THEN {1, 2} ELSE {})
PrecsOf(o) == IF o.prec = "-1" THEN DefaultPrecs(o.xs[1]) ELSE {n \in 0..5 : ToString(n) = o.prec}
AllProgress(o, out, finished) ==
  \A i \in 1..Len(out) : IsProgress(out[i]) => ProgressOK(out[i], PrecsOf(o), finished \/ i < Len(out))

---------------------------------------------------------------------------
(* Values. c: how many primes are handled by closed forms.                  *)
Cs == {"0", "1", "2", "3", "4", "5", "6", "7", "8"}
CsFor(y) == LET n == PrimeCount(y) IN {c \in Cs : BLeq(c, n)}
PartOK(alg, x, y, v) ==
  CASE alg = "P2" -> v = P2Sum(x, y)
    [] alg = "S1" -> \E c \in CsFor(y) : v = S1Sum(x, y, c)
    [] alg = "S2_trivial" -> \E c \in CsFor(y) : v = S2TrivialSum(x, y, c)
    [] alg = "S2_easy" -> \E c \in CsFor(y) : v = S2EasySum(x, y, c)
    [] alg = "S2_hard" -> \E c \in CsFor(y) : v = S2HardSum(x, y, c)
LabelOf == ("P2" :> "P2") @@ ("S1" :> "S1_sum") @@ ("S2_trivial" :> "S2_trivial") @@ ("S2_easy" :> "S2_easy") @@ ("S2_hard" :> "S2_hard")

\* y = floor(floor(x^(1/3)) * factor) up to rounding of the product
YInRange(x, y, alpha) ==
  LET r == BRoot("3", x) six == BMax("1", BRoot("6", x))
  IN  /\ BLeq(BSub(r, "1"), y) /\ BLeq(y, BAdd(BMul(r, six), "1"))
      /\ (alpha # "?" /\ IsSet(alpha)) => BLeq(BSub(DFloorMul(r, CapTo(alpha, x)), "1"), y) /\ BLeq(y, BAdd(DFloorMul(r, CapTo(alpha, x)), "1"))

\* the parameters shown
One(S) == Cardinality(S) = 1
The(S) == CHOOSE v \in S : TRUE
ParamsOK(o, out, cores) ==
  LET x == o.xs[1] y == The(Values(out, "y")) IN
  /\ Values(out, "x") = {x} /\ One(Values(out, "y")) /\ YInRange(x, y, IF o.alg \in LmoAlgs /\ ~ IsSet(o.alpha) THEN "-1" ELSE o.alpha)
  /\ Values(out, "z") = {BQuo(x, y)}
  /\ Cardinality(Values(out, "alpha")) = 1 /\ Cardinality(Values(out, "threads")) = 1
  /\ LET a == The(Values(out, "alpha"))
     IN  Fixed(a, 3) /\ DNear(a, y, BRoot("3", x), "0.0006")
  /\ LET t == The(Values(out, "threads"))
     IN  IF o.alg = "lmo5" THEN t = "1" ELSE t = IF o.threads = "unset" THEN cores ELSE BMax("1", BMin(o.threads, cores))
=============================================================================
