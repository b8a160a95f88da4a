----------------------------- MODULE ArithTrace -----------------------------
(* Validation of recorded calls of the arithmetic (drv_arith). *)
EXTENDS Arith, ExprSem, NTBig, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Init == s \in 1..Len(T) /\ l = 1
E == T[s].ev[l]

\* the allowed result
R(op, a) ==
  CASE op = "w" -> Op2(a[1], a[2], a[3])
    [] op = "wm" -> Op2(a[1], a[3], a[4])
    [] op = "w1" -> Op1(a[1], a[2])
    [] op = "wto" -> If(a[1], a[2])
    [] op = "wfrom" -> If(a[1], a[2])
    [] op = "p128" -> If(a[1], a[2])
    [] op = "isqrt" -> IF NonNeg(a[2]) THEN BRoot("2", a[2]) ELSE "any"
    [] op = "iroot" -> IF NonNeg(a[3]) THEN BRoot(a[2], a[3]) ELSE "any"
    [] op = "ipow" -> If(a[1], BPow(a[2], a[3]))
    [] op = "np2" -> IF NonNeg(a[2]) THEN If(a[1], NextPow2(a[2])) ELSE "any"
    [] op = "pp2" -> IF BLess("0", a[2]) THEN PrevPow2(a[2]) ELSE "any"
    \* the function adds the divisor first: that sum has to be representable
    [] op = "ceil" -> IF NonNeg(a[3]) /\ BLess("0", a[4]) /\ Has(a[1], BAdd(a[3], a[4]))
                      THEN BQuo(BAdd(a[3], BSub(a[4], "1")), a[4]) ELSE "any"
    [] op = "betw" -> IF BLeq(a[2], a[4]) THEN Between(a[2], a[3], a[4]) ELSE "any"
    [] op = "ilog" -> IF BInRange(a[2], "1", "2000000000") THEN ToString(Ln(BInt(a[2]))) ELSE "any"
    [] op = "isquare" -> If("i64", BMul(a[1], a[1]))
    [] op = "pop" -> ToString(PopFrom(a[1]))
    [] op = "pibs" -> IF NonNeg(a[3]) THEN BMin(a[1], PrimeCount(BMin(a[3], "100000"))) ELSE "0"
    [] op = "fdiv" -> IF NonNeg(a[3]) /\ BLess("0", a[4]) THEN BQuo(a[3], a[4]) ELSE "any"
    [] op = "min" -> IF Len(a) = 3 THEN BMin(a[2], a[3]) ELSE BMin(a[2], BMin(a[3], a[4]))
    [] op = "max" -> IF Len(a) = 3 THEN BMax(a[2], a[3]) ELSE BMax(a[2], BMax(a[3], a[4]))

\* n levels around 7: exact up to 1000 levels, deeper ones may be refused
DeepAllowed ==
  LET v == IF E.a[1] = "-" /\ BRem(E.a[2], "2") = "1" THEN "-7"
           ELSE IF E.a[1] = "~" /\ BRem(E.a[2], "2") = "1" THEN "-8" ELSE "7"
  IN  TRUE = (\/ E.e = "" /\ E.r = v
              \/ E.e = "error" /\ BLess("1000", E.a[2]))

Evals == {"eval", "eval64", "pseval", "psevalu", "pseval32"}
Width(op) == CASE op = "eval" -> "128" [] op \in {"eval64", "pseval"} -> "64" [] op = "psevalu" -> "u64" [] op = "pseval32" -> "32"
ExprAllowed ==
  LET t == E.t v == Eval(t, Width(E.op))
  IN  /\ Text(t, 1) = E.a[1] /\ LexOk(t)
      /\ TRUE = (\/ (v.err \/ v.lax) /\ E.e = "error"
                 \/ ~ v.err /\ E.e = "" /\ E.r = v.v)

Call == /\ l <= Len(T[s].ev) /\ E.op \notin {"CRASH", "HANG"} /\ l' = l + 1 /\ UNCHANGED s
        /\ IF E.op \in Evals THEN ExprAllowed
           ELSE IF E.op = "evaldeep" THEN DeepAllowed
           ELSE LET r == R(E.op, E.a) IN TRUE = (r = "any" \/ (E.e = "" /\ E.r = r))
Done == l > Len(T[s].ev) /\ UNCHANGED <<s, l>>
Next == Call \/ Done
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
