------------------------------ MODULE CliText ------------------------------
(***************************************************************************)
(* Text of arguments and of printed lines, shared by both programs.         *)
(***************************************************************************)
EXTENDS ExprSem

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Dec == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Hex == Dec \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}

RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN SkipIn(s, i + 1, set) ELSE i

(* Number expressions: longest tokens. "0x" needs a hexadecimal digit. *)
RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE IF Ch(s, i) = "0" /\ i + 2 <= Len(s) /\ Ch(s, i + 1) \in {"x", "X"} /\ Ch(s, i + 2) \in Hex
    THEN LET j == SkipIn(s, i + 2, Hex) IN <<SubSeq(s, i, j - 1)>> \o Lex(s, j)
  ELSE IF Ch(s, i) \in Dec
    THEN LET j == SkipIn(s, i, Dec) IN <<SubSeq(s, i, j - 1)>> \o Lex(s, j)
  ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) \in {"**", "<<", ">>"}
    THEN <<SubSeq(s, i, i + 1)>> \o Lex(s, i + 2)
  ELSE <<Ch(s, i)>> \o Lex(s, i + 1)

---------------------------------------------------------------------------
(* Output is a sequence of lines, a line a sequence of segments separated   *)
(* by carriage returns.                                                     *)
Line(s) == <<s>>
Plain(ln) == Len(ln) = 1
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Digits(s) == Len(s) > 0 /\ SkipIn(s, 1, Dec) > Len(s)
\* digits, and n digits after the point (no point for n = 0)
Fixed(s, n) == IF n = 0 THEN Digits(s)
               ELSE Len(s) > n + 1 /\ Ch(s, Len(s) - n) = "." /\ Digits(SubSeq(s, 1, Len(s) - n - 1)) /\ Digits(From(s, Len(s) - n + 1))
IsSeconds(ln) == Plain(ln) /\ Starts(ln[1], "Seconds: ") /\ Fixed(From(ln[1], 10), 3)
=============================================================================
