------------------------------ MODULE ExprSem ------------------------------
(***************************************************************************)
(* Meaning of number expressions, given as a sequence of tokens. Operators, *)
(* precedence and associativity as documented in include/calculator.hpp.   *)
(* The value of an expression is exact, or the expression has an error:    *)
(* malformed, division by zero, or a (sub)value that does not fit `bits`.  *)
(***************************************************************************)
EXTENDS BigInt

BinOps == {"|", "&", "<<", ">>", "+", "-", "*", "/", "%", "**", "^", "e", "E"}
Prec(o) == CASE o = "|" -> 4 [] o = "&" -> 6 [] o \in {"<<", ">>"} -> 9 [] o \in {"+", "-"} -> 10
             [] o \in {"*", "/", "%"} -> 20 [] o \in {"**", "^"} -> 30 [] o \in {"e", "E"} -> 40
RightAssoc(o) == o \in {"**", "^", "e", "E"}
Unary == {"-", "+", "~"}
Space == {" ", "\t"}

\* a value: v, err = no value (ov: because a number has no exact representation), lax = also an error would be acceptable
OK(v) == [v |-> v, err |-> FALSE, ov |-> FALSE, lax |-> FALSE]
Err == [v |-> "0", err |-> TRUE, ov |-> FALSE, lax |-> FALSE]
Overflow == [Err EXCEPT !.ov = TRUE]
\* bits: "32", "64", "128" signed, "u64" unsigned
Fit(v, bits) == IF (IF bits = "u64" THEN BFitsU(v, "64") ELSE BFits(v, bits)) THEN OK(v) ELSE Overflow

\* exponents above 200 cannot fit (|x| >= 2)
Power(x, n, bits) ==
  CASE x = "1" -> OK("1")
    [] x = "-1" -> OK(IF BRem(n, "2") = "0" THEN "1" ELSE "-1")
    [] BLess(n, "0") -> Overflow
    [] x = "0" -> OK(IF n = "0" THEN "1" ELSE "0")
    [] BLess("200", n) -> Overflow
    [] OTHER -> Fit(BPow(x, n), bits)

Apply(o, x, y, bits) ==
  CASE o = "|" -> OK(BOr(x, y))
    [] o = "&" -> OK(BAnd(x, y))
    [] o = "<<" -> IF BLess(y, "0") THEN Overflow ELSE IF x = "0" THEN OK("0")
                   ELSE IF BLess("200", y) THEN Overflow ELSE Fit(BShl(x, y), bits)
    [] o = ">>" -> IF BLess(y, "0") THEN Overflow ELSE OK(BShr(x, BMin(y, "200")))
    [] o = "+" -> Fit(BAdd(x, y), bits)
    [] o = "-" -> Fit(BSub(x, y), bits)
    [] o = "*" -> Fit(BMul(x, y), bits)
    [] o = "/" -> IF y = "0" THEN Err ELSE Fit(BQuo(x, y), bits)
    [] o = "%" -> IF y = "0" THEN Err ELSE OK(BRem(x, y))
    [] o \in {"**", "^"} -> Power(x, y, bits)
    [] o \in {"e", "E"} ->
         LET p == Power("10", y, bits)
         IN  IF p.err THEN IF x = "0" /\ BLess("0", y) THEN [OK("0") EXCEPT !.lax = TRUE] ELSE Overflow
             ELSE Fit(BMul(x, p.v), bits)
ApplyUnary(o, x, bits) == CASE o = "+" -> OK(x) [] o = "~" -> OK(IF bits = "u64" THEN BSub("18446744073709551615", x) ELSE BNot(x)) [] o = "-" -> Fit(BNeg(x), bits)

(***************************************************************************)
(* Recursive descent with precedence climbing: a parse result is a value   *)
(* and the next position.                                                  *)
(***************************************************************************)
With(r, i) == [v |-> r.v, err |-> r.err, ov |-> r.ov, lax |-> r.lax, i |-> i]
Lax(a, b) == a \/ b
RECURSIVE Operand(_, _, _), Climb(_, _, _, _), Loop(_, _, _, _)
Operand(t, i, bits) ==
  IF i > Len(t) THEN With(Err, i)
  ELSE IF NumVal(t[i]) # "" THEN With(Fit(NumVal(t[i]), bits), i + 1)
  ELSE IF t[i] \in Unary THEN
    LET r == Operand(t, i + 1, bits)
    IN  IF r.err THEN r ELSE LET w == ApplyUnary(t[i], r.v, bits) IN [With(w, r.i) EXCEPT !.lax = Lax(r.lax, @)]
  ELSE IF t[i] = "(" THEN
    LET r == Climb(t, i + 1, 0, bits)
    IN  IF r.err THEN r ELSE IF r.i <= Len(t) /\ t[r.i] = ")" THEN [r EXCEPT !.i = r.i + 1] ELSE With(Err, r.i)
  ELSE With(Err, i)
Climb(t, i, p, bits) == LET r == Operand(t, i, bits) IN IF r.err THEN r ELSE Loop(t, r, p, bits)
Loop(t, l, p, bits) ==
  IF l.i > Len(t) \/ t[l.i] \notin BinOps THEN l
  ELSE LET o == t[l.i] IN
    IF Prec(o) < p THEN l
    ELSE LET r == Climb(t, l.i + 1, IF RightAssoc(o) THEN Prec(o) ELSE Prec(o) + 1, bits)
         IN  IF r.err THEN r
             ELSE LET w == Apply(o, l.v, r.v, bits)
                  IN  IF w.err THEN With(w, r.i)
                      ELSE Loop(t, [With(w, r.i) EXCEPT !.lax = w.lax \/ l.lax \/ r.lax], p, bits)

NoSpace(t) == SelectSeq(t, LAMBDA c : c \notin Space)
Eval(tokens, bits) ==
  LET t == NoSpace(tokens) r == Climb(t, 1, 0, bits)
  IN  IF r.err THEN r ELSE IF r.i <= Len(t) THEN With(Err, r.i) ELSE r

\* the text is the concatenation of the tokens, and no two neighbours form a longer token
RECURSIVE Text(_, _)
Text(t, i) == IF i > Len(t) THEN "" ELSE t[i] \o Text(t, i + 1)
LexOk(t) == \A i \in 1..Len(t) - 1 :
  /\ ~ (NumVal(t[i]) # "" /\ NumVal(t[i + 1]) # "")
  /\ ~ (t[i] = "*" /\ t[i + 1] = "*")
=============================================================================
