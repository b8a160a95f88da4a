------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* What the wide integer type and the integer helpers have to return.      *)
(* Each operator gives the allowed result of one operation, or "any" when  *)
(* the operation's precondition does not hold (result does not fit, ...).  *)
(***************************************************************************)
EXTENDS BigInt

Bits(t) == CASE t = "i8" -> "8" [] t = "u8" -> "8" [] t = "i16" -> "16" [] t = "u16" -> "16"
             [] t = "i32" -> "32" [] t = "u32" -> "32" [] t = "i64" -> "64" [] t = "u64" -> "64"
             [] t = "i128" -> "128" [] t = "u128" -> "128" [] t = "i256" -> "256"
Signed(t) == t \in {"i8", "i16", "i32", "i64", "i128", "i256"}
Has(t, v) == IF Signed(t) THEN BFits(v, Bits(t)) ELSE BFitsU(v, Bits(t))
If(t, v) == IF Has(t, v) THEN v ELSE "any"
Bool(b) == IF b THEN "1" ELSE "0"

\* signed operands of less than 256 bits
Op2(o, x, y) ==
  CASE o = "add" -> If("i256", BAdd(x, y))
    [] o = "sub" -> If("i256", BSub(x, y))
    [] o = "mul" -> If("i256", BMul(x, y))
    [] o = "div" -> IF y = "0" THEN "any" ELSE If("i256", BQuo(x, y))
    [] o = "rem" -> IF y = "0" THEN "any" ELSE BRem(x, y)
    [] o = "and" -> BAnd(x, y)
    [] o = "or" -> BOr(x, y)
    [] o = "xor" -> BXor(x, y)
    [] o = "lt" -> Bool(BLess(x, y))
    [] o = "le" -> Bool(BLeq(x, y))
    [] o = "gt" -> Bool(BLess(y, x))
    [] o = "ge" -> Bool(BLeq(y, x))
    [] o = "eq" -> Bool(BEq(x, y))
    [] o = "ne" -> Bool(~ BEq(x, y))
    [] o = "shl" -> IF BLess(x, "0") \/ ~ BInRange(y, "0", "255") THEN "any" ELSE If("i256", BShl(x, y))
    [] o = "shr" -> IF BLess(x, "0") \/ ~ BInRange(y, "0", "255") THEN "any" ELSE BShr(x, y)
Op1(o, x) ==
  CASE o = "neg" -> If("i256", BNeg(x)) [] o = "pos" -> x [] o = "not" -> BNot(x)
    [] o = "inc" -> If("i256", BAdd(x, "1")) [] o = "dec" -> If("i256", BSub(x, "1"))
    [] o = "print" -> x

\* integer helpers: arguments are not negative
NonNeg(x) == BLeq("0", x)
RECURSIVE Log2From(_, _)
Log2From(x, k) == IF BLess(x, BPow("2", ToString(k + 1))) THEN k ELSE Log2From(x, k + 1)
Log2(x) == Log2From(x, 0)              \* x >= 1
NextPow2(x) == IF BLeq(x, "1") THEN "1" ELSE BPow("2", ToString(Log2(BSub(x, "1")) + 1))
PrevPow2(x) == BPow("2", ToString(Log2(x)))
RECURSIVE PopFrom(_)
PopFrom(x) == IF x = "0" THEN 0 ELSE (IF BRem(x, "2") = "1" THEN 1 ELSE 0) + PopFrom(BQuo(x, "2"))
\* floor of e^k, k = 0..22: ilog(x) is the largest k with e^k <= x
ExpFloor == <<1, 2, 7, 20, 54, 148, 403, 1096, 2980, 8103, 22026, 59874, 162754, 442413, 1202604, 3269017,
              8886110, 24154952, 65659969, 178482300, 485165195, 1318815734>>
\* e^k is not an integer for k > 0
Ln(x) == IF x = 1 THEN 0 ELSE (CHOOSE k \in 1..22 : ExpFloor[k] < x /\ (k = 22 \/ ExpFloor[k + 1] >= x)) - 1

Between(lo, x, hi) == IF BLess(x, lo) THEN lo ELSE IF BLess(hi, x) THEN hi ELSE x
=============================================================================
