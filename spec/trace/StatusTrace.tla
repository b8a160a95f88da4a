----------------------------- MODULE StatusTrace -----------------------------
(***************************************************************************)
(* Recorded progress reports of the real code: the status object driven by   *)
(* several threads, and whole phases with progress output. out: the lines     *)
(* written during the call.                                                   *)
(***************************************************************************)
EXTENDS CliOutput, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l,
          prec,      \* precision set ("-1": none)
          print,     \* progress output on
          skew       \* last estimate <<n, limit, percent>>
tvars == <<s, l, prec, print, skew>>
Init == s \in 1..Len(T) /\ l = 1 /\ prec = "-1" /\ print = FALSE /\ skew = <<"0", "0", "0">>
E == T[s].ev[l]
Is(ops) == l <= Len(T[s].ev) /\ E.op \in ops /\ E.e = "" /\ l' = l + 1 /\ UNCHANGED s

Precs(x) == IF prec = "-1" THEN DefaultPrecs(x) ELSE {n \in 0..5 : ToString(n) = prec}
Env == Is({"sched", "clock", "cores", "force"}) /\ UNCHANGED <<prec, print, skew>>
SetPrec == Is({"setprec"}) /\ prec' = BMax("0", BMin(E.a[1], "5")) /\ UNCHANGED <<print, skew>>
SetPrint == Is({"setprint"}) /\ print' = (E.a[1] = "1") /\ UNCHANGED <<prec, skew>>

Status == /\ Is({"status", "statusdyn"}) /\ UNCHANGED <<prec, print, skew>>
          /\ Len(E.out) <= 1
          /\ \A i \in 1..Len(E.out) : ProgressOK(E.out[i], Precs(E.a[1]), FALSE)
Skew == /\ Is({"skew"}) /\ skew' = <<E.a[1], E.a[2], E.r>> /\ UNCHANGED <<prec, print>>
        /\ ~ DoubleLess(E.r, "0") /\ ~ DoubleLess("100", E.r)
        /\ (E.a[2] = skew[2] /\ BLeq(skew[1], E.a[1])) => ~ DoubleLess(E.r, skew[3])

Part(op) == CASE op = "P2" -> "P2" [] op = "S1" -> "S1" [] op = "S2t" -> "S2_trivial" [] op = "S2e" -> "S2_easy" [] op = "S2h" -> "S2_hard"
Exact(op, a) == CASE op = "P2" -> P2Sum(a[1], a[2]) [] op = "S1" -> S1Sum(a[1], a[2], a[3]) [] op = "S2t" -> S2TrivialSum(a[1], a[2], a[3])
                  [] op = "S2e" -> S2EasySum(a[1], a[2], a[3]) [] op = "S2h" -> S2HardSum(a[1], a[2], a[3]) [] op = "pi" -> PrimeSum(a[1])
\* one or several phases: reports, the final 100%, the value
Phase ==
  /\ Is({"P2", "S1", "S2t", "S2e", "S2h", "pi"}) /\ UNCHANGED <<prec, print, skew>>
  /\ E.r = Exact(E.op, E.a)
  /\ IF ~ print THEN E.out = << >>
     ELSE /\ \A i \in 1..Len(E.out) : IsProgress(E.out[i]) => ProgressOK(E.out[i], Precs(E.a[1]), TRUE)
          /\ Count(E.out, IsProgress) = IF E.op = "pi" THEN IF BLess(E.a[1], "2") THEN 0 ELSE 5 ELSE 1
          /\ E.op # "pi" => Values(E.out, LabelOf[Part(E.op)]) = {E.r}
End1 == Is({"end"}) /\ UNCHANGED <<prec, print, skew>>
Done == l > Len(T[s].ev) /\ UNCHANGED tvars
Next == Env \/ SetPrec \/ SetPrint \/ Status \/ Skew \/ Phase \/ End1 \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
