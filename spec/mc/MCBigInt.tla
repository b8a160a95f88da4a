------------------------------ MODULE MCBigInt ------------------------------
(* The Java overrides of BigInt agree with TLA+ integer arithmetic. *)
EXTENDS BigInt, FiniteSets
VARIABLES a, b
D == -21..21
Init == a \in D /\ b = -99
Next == b = -99 /\ b' \in D /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
S(i) == ToString(i)
Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE P(_, _)
P(x, n) == IF n = 0 THEN 1 ELSE x * P(x, n - 1)
TQ(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
Bit(x, k) == (x \div P(2, k)) % 2
Agree ==
  b # -99 =>
  /\ BAdd(S(a), S(b)) = S(a + b) /\ BSub(S(a), S(b)) = S(a - b) /\ BMul(S(a), S(b)) = S(a * b)
  /\ b # 0 => BQuo(S(a), S(b)) = S(TQ(a, b)) /\ BRem(S(a), S(b)) = S(a - b * TQ(a, b))
  /\ BLess(S(a), S(b)) = (a < b) /\ BEq(S(a), S(b)) = (a = b)
  /\ b \in 0..5 => /\ BPow(S(a), S(b)) = S(P(a, b))
                   /\ BShl(S(a), S(b)) = S(a * P(2, b)) /\ BShr(S(a), S(b)) = S(a \div P(2, b))
  /\ \A k \in 0..6 : /\ Bit(a, k) * Bit(b, k) = (IF BAnd(BShr(BAnd(S(a), S(b)), S(k)), "1") = "1" THEN 1 ELSE 0)
  /\ BAdd(BAnd(S(a), S(b)), BOr(S(a), S(b))) = S(a + b)
  /\ BSub(BOr(S(a), S(b)), BAnd(S(a), S(b))) = BXor(S(a), S(b))
  /\ BNot(S(a)) = S(-a - 1)
  /\ b \in 1..6 => /\ BFits(S(a), S(b)) = (-P(2, b - 1) <= a /\ a < P(2, b - 1))
                   /\ LET w == BWrap(S(a), S(b)) IN BFits(w, S(b)) /\ BRem(BSub(w, S(a)), S(P(2, b))) = "0"
  /\ (a >= 0 /\ b \in 1..5) => LET r == BRoot(S(b), S(a)) IN BLeq(BPow(r, S(b)), S(a)) /\ BLess(S(a), BPow(BAdd(r, "1"), S(b)))
  /\ BInt(S(a)) = a
  /\ (a >= 0 => NumVal(S(a)) = S(a)) /\ (a < 0 => NumVal(S(a)) = "")
  /\ a >= 0 => LET h == "0x" \o HexDigit[a \div 16] \o HexDigit[a % 16] IN NumVal(h) = S(a)
  /\ NumVal("0x") = "" /\ NumVal("x1") = "" /\ NumVal("") = "" /\ NumVal("e") = "" /\ NumVal("0XfF") = "255"
=============================================================================
