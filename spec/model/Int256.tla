------------------------------- MODULE Int256 -------------------------------
(***************************************************************************)
(* The 256-bit integer type as two words (low, high), each of two halves of *)
(* W bits (W = 64 in the program). Words wrap. The algorithms are those of *)
(* include/int256_t.hpp; division is a loop of states. For every pair of    *)
(* operands the signed result is exact whenever it fits.                   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS W, Mutant

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
H == P2(W)                \* a half
M == P2(2 * W)            \* a word
N == P2(4 * W)
Word == 0..M - 1
Num == [lo : Word, hi : Word]
Wr(v) == v % M
I(lo, hi) == [lo |-> Wr(lo), hi |-> Wr(hi)]
Of(v) == LET u == v % N IN [lo |-> u % M, hi |-> u \div M]
U(a) == a.hi * M + a.lo                              \* unsigned meaning
S(a) == IF U(a) >= N \div 2 THEN U(a) - N ELSE U(a)  \* signed meaning
Fits(v) == -(N \div 2) <= v /\ v < N \div 2
Zero == Of(0)
One == Of(1)

Sw(w) == IF w >= M \div 2 THEN w - M ELSE w
Lt(a, b) == Sw(a.hi) < Sw(b.hi) \/ (a.hi = b.hi /\ a.lo < b.lo)
Le(a, b) == ~ Lt(b, a)
Add(a, b) == LET lo == Wr(a.lo + b.lo)
             IN  I(lo, a.hi + b.hi + (IF (IF Mutant = "carry" THEN lo <= b.lo ELSE lo < b.lo) THEN 1 ELSE 0))
Sub(a, b) == LET lo == Wr(a.lo - b.lo) IN I(lo, a.hi - b.hi - (IF lo > a.lo THEN 1 ELSE 0))
Not(a) == I(M - 1 - a.lo, M - 1 - a.hi)
Inc(a) == LET lo == Wr(a.lo + 1) IN I(lo, IF lo = 0 THEN a.hi + 1 ELSE a.hi)
Neg(a) == IF Mutant = "neg" THEN I(-a.lo, M - 1 - a.hi) ELSE Inc(Not(a))

\* multiplication: words below H take the short path
Short(a, b) == a.hi = 0 /\ b.hi = 0 /\ a.lo < H /\ b.lo < H
Mul(a, b) ==
  IF Short(a, b) \/ (Mutant = "fast" /\ a.lo < H /\ b.lo < H) THEN I(a.lo * b.lo, 0)
  ELSE LET al == a.lo % H ah == a.lo \div H bl == b.lo % H bh == b.lo \div H
           x == al * bl y == al * bh z == ah * bl w == ah * bh
       IN  Add(Add(I(y * H, y \div H), I(z * H, z \div H)), I(x, w + Wr(a.lo * b.hi) + Wr(a.hi * b.lo)))
Shl(a, n) == IF n = 0 THEN a ELSE IF n >= 2 * W THEN I(0, a.lo * P2(n - 2 * W))
             ELSE I(a.lo * P2(n), a.hi * P2(n) + a.lo \div P2(2 * W - n))
Shr(a, n) == IF n = 0 THEN a ELSE IF n >= 2 * W THEN I(a.hi \div P2(n - 2 * W), 0)
             ELSE I(a.lo \div P2(n) + Wr(a.hi * P2(2 * W - n)), a.hi \div P2(n))
Bit(a, k) == IF k >= 2 * W THEN (a.hi \div P2(k - 2 * W)) % 2 ELSE (a.lo \div P2(k)) % 2
SetBit(a, k) == IF Bit(a, k) = 1 THEN a ELSE IF k >= 2 * W THEN I(a.lo, a.hi + P2(k - 2 * W)) ELSE I(a.lo + P2(k), a.hi)

(***************************************************************************)
(* Signed division: magnitudes, then either a short cut or shift-subtract. *)
(***************************************************************************)
VARIABLES a, b, pc, u, d, q, r, k
vars == <<a, b, pc, u, d, q, r, k>>
Init == /\ a \in Num /\ b \in Num /\ pc = "start"
        /\ u = Zero /\ d = Zero /\ q = Zero /\ r = Zero /\ k = 0

MinValue == I(0, M \div 2)
RECURSIVE Msb(_, _)
Msb(v, n) == IF v = 0 THEN n ELSE Msb(v \div 2, n + 1)
Finish(qq, rr) == /\ q' = IF Lt(a, Zero) = Lt(b, Zero) THEN qq ELSE Neg(qq)
                  /\ r' = IF Lt(a, Zero) THEN Neg(rr) ELSE rr
                  /\ pc' = "done" /\ UNCHANGED <<a, b, u, d, k>>
StartDiv == /\ pc = "start" /\ b # Zero
            /\ u' = (IF Lt(a, Zero) THEN Neg(a) ELSE a) /\ d' = (IF Lt(b, Zero) THEN Neg(b) ELSE b)
            /\ pc' = "short" /\ UNCHANGED <<a, b, q, r, k>>
ShortCut == /\ pc = "short"
            /\ IF d = One THEN Finish(u, Zero)
               ELSE IF u = d THEN Finish(One, Zero)
               ELSE IF u = Zero \/ (u # MinValue /\ Lt(u, d)) THEN Finish(Zero, u)
               ELSE IF u.hi = 0 /\ d.hi = 0 THEN Finish(I(u.lo \div d.lo, 0), I(u.lo % d.lo, 0))
               ELSE pc' = "loop" /\ k' = Msb(U(u), 0) /\ UNCHANGED <<a, b, u, d, q, r>>
Loop == /\ pc = "loop"
        /\ IF k < 0 THEN Finish(q, r)
           ELSE LET s == Shl(r, 1) t == IF Bit(u, k) = 1 THEN SetBit(s, 0) ELSE s
                    ge == IF Mutant = "divge" THEN Lt(d, t) ELSE Le(d, t)
                IN  /\ r' = IF ge THEN Sub(t, d) ELSE t
                    /\ q' = IF ge THEN SetBit(q, k) ELSE q
                    /\ k' = k - 1 /\ UNCHANGED <<a, b, pc, u, d>>
Next == StartDiv \/ ShortCut \/ Loop
Spec == Init /\ [][Next]_vars

Abs(v) == IF v < 0 THEN -v ELSE v
Sg(v) == IF v < 0 THEN -1 ELSE 1
Quo(x, y) == Sg(x) * Sg(y) * (Abs(x) \div Abs(y))
Rem(x, y) == x - y * Quo(x, y)

\* magnitudes below 2^(4W-1): every operand but the least number
Ordinary == a # MinValue /\ b # MinValue
Exact ==
  pc = "start" =>
  /\ Lt(a, b) = (S(a) < S(b))
  /\ Fits(S(a) + S(b)) => S(Add(a, b)) = S(a) + S(b)
  /\ Fits(S(a) - S(b)) => S(Sub(a, b)) = S(a) - S(b)
  /\ Fits(S(a) * S(b)) => S(Mul(a, b)) = S(a) * S(b)
  /\ Fits(-S(a)) => S(Neg(a)) = -S(a)
  /\ \A n \in 0..4 * W - 1 : S(a) >= 0 => /\ S(Shr(a, n)) = S(a) \div P2(n)
                                           /\ Fits(S(a) * P2(n)) => S(Shl(a, n)) = S(a) * P2(n)
Division == (pc = "done" /\ Ordinary) => /\ S(q) = Quo(S(a), S(b)) /\ S(r) = Rem(S(a), S(b))
Finishes == pc \in {"short", "loop"} => ENABLED Next
=============================================================================
