------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size as decimal strings. TLC's own integers are 32 bits *)
(* wide, the numbers of this system have up to 256 bits.                   *)
(*                                                                         *)
(* The definitions below give the meaning on a small domain; TLC evaluates *)
(* them by the Java overrides in spec/java/PsOverrides.java. MCBigInt.tla  *)
(* checks that the overrides agree with plain TLA+ arithmetic.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Dom == -4096..4096
LOCAL V(s) == CHOOSE i \in Dom : ToString(i) = s
LOCAL T(i) == ToString(i)
LOCAL Abs(i) == IF i < 0 THEN -i ELSE i
LOCAL Sgn(i) == IF i < 0 THEN -1 ELSE 1
RECURSIVE BI_Pow(_, _)
BI_Pow(b, n) == IF n = 0 THEN 1 ELSE b * BI_Pow(b, n - 1)
LOCAL Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
\* bit k of the infinite two's complement representation
LOCAL Bit(a, k) == (a \div BI_Pow(2, k)) % 2
LOCAL FromBits(f) == LET RECURSIVE S(_) S(k) == IF k > 12 THEN 0 ELSE f[k] * BI_Pow(2, k) + S(k + 1)
                     IN  S(0) - f[13] * BI_Pow(2, 13)
LOCAL Bitwise(a, b, op(_, _)) == FromBits([k \in 0..13 |-> op(Bit(a, k), Bit(b, k))])

HexDigit == [i \in 0..15 |-> SubSeq(<<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>, i + 1, i + 1)[1]]

BAdd(a, b) == T(V(a) + V(b))
BSub(a, b) == T(V(a) - V(b))
BMul(a, b) == T(V(a) * V(b))
BQuo(a, b) == T(Quo(V(a), V(b)))                   \* truncates towards 0
BRem(a, b) == T(V(a) - V(b) * Quo(V(a), V(b)))     \* sign of the dividend
BLess(a, b) == V(a) < V(b)
BEq(a, b) == V(a) = V(b)
BPow(a, n) == T(BI_Pow(V(a), V(n)))
BShl(a, n) == T(V(a) * BI_Pow(2, V(n)))
BShr(a, n) == T(V(a) \div BI_Pow(2, V(n)))            \* floor: arithmetic shift
BAnd(a, b) == T(Bitwise(V(a), V(b), LAMBDA p, q : p * q))
BOr(a, b)  == T(Bitwise(V(a), V(b), LAMBDA p, q : IF p + q > 0 THEN 1 ELSE 0))
BXor(a, b) == T(Bitwise(V(a), V(b), LAMBDA p, q : (p + q) % 2))
BNot(a)    == T(-V(a) - 1)
BFits(a, n) == -BI_Pow(2, V(n) - 1) <= V(a) /\ V(a) < BI_Pow(2, V(n) - 1)
\* reduction to n-bit two's complement
BWrap(a, n) == LET m == BI_Pow(2, V(n)) r == V(a) % m
               IN  T(IF r >= m \div 2 THEN r - m ELSE r)
\* floor of the n-th root
BRoot(n, a) == T(CHOOSE r \in 0..V(a) : BI_Pow(r, V(n)) <= V(a) /\ BI_Pow(r + 1, V(n)) > V(a))

\* comparison of two IEEE doubles given as text (shortest or 17 digits)
DoubleEq(a, b) == a = b
DoubleLess(a, b) == V(a) < V(b)

\* value of a decimal or hexadecimal (0x..) number literal, "" for any other text
NumVal(s) == IF \E i \in 0..4096 : ToString(i) = s THEN s
             ELSE IF \E i, j \in 0..15 : "0x" \o HexDigit[i] \o HexDigit[j] = s
                  THEN ToString(CHOOSE v \in 0..255 : "0x" \o HexDigit[v \div 16] \o HexDigit[v % 16] = s)
             ELSE ""
\* the TLC integer with this text (|value| < 2^31)
BInt(s) == V(s)

BLeq(a, b) == ~ BLess(b, a)
BNeg(a) == BSub("0", a)
BAbs(a) == IF BLess(a, "0") THEN BNeg(a) ELSE a
BMin(a, b) == IF BLess(b, a) THEN b ELSE a
BMax(a, b) == IF BLess(a, b) THEN b ELSE a
BInRange(a, lo, hi) == BLeq(lo, a) /\ BLeq(a, hi)
\* unsigned value fits n bits
BFitsU(a, n) == BLeq("0", a) /\ BFits(a, BAdd(n, "1"))
=============================================================================
