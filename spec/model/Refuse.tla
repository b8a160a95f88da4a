------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* The way of a number from the command line to the computation, with word   *)
(* sizes as parameters: digits are read into a wide word, the 63-bit          *)
(* algorithms narrow it, the others compare it with the limit for the tuning  *)
(* factor and derive y and z, which must fit half of a word. Checked for all  *)
(* inputs: whatever is answered was computed for the number that was given.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS W,        \* the wide word holds -2^W .. 2^W - 1
          N,        \* the narrow word holds -2^N .. 2^N - 1
          K,        \* z must be below 2^K
          Top,      \* numbers 0..Top are given, and their negatives
          Mutant

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
WMax == Pow(2, W) - 1
NMax == Pow(2, N) - 1
Wrap(v, b) == LET m == 2 * Pow(2, b) r == ((v % m) + m) % m IN IF r > Pow(2, b) - 1 THEN r - m ELSE r
Root(k, v) == CHOOSE r \in 0..v : Pow(r, k) <= v /\ Pow(r + 1, k) > v
Quo(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

VARIABLES given,    \* the number on the command line (any size)
          alg,      \* "wide" (limit) or "narrow" (63 bits)
          two,      \* twice the tuning factor: factors 1, 3/2, 2, ...
          pc, x, digits, ans
vars == <<given, alg, two, pc, x, digits, ans>>

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
Abs(n) == IF n < 0 THEN -n ELSE n

Init == /\ given \in -Top..Top /\ alg \in {"wide", "narrow"} /\ two \in 2..6
        /\ pc = "digits" /\ x = 0 /\ digits = DigitsOf(Abs(given)) /\ ans = "none"

\* x = 10 * x + d, refused when it does not fit
Digit == /\ pc = "digits" /\ digits # << >>
         /\ LET v == 10 * x + Head(digits)
            IN  IF v > WMax /\ Mutant # "wrap" THEN /\ pc' = "refused" /\ UNCHANGED <<x, digits>>
                ELSE /\ x' = Wrap(v, W) /\ digits' = Tail(digits) /\ UNCHANGED pc
         /\ UNCHANGED <<given, alg, two, ans>>
\* "0-n"
Sign == /\ pc = "digits" /\ digits = << >>
        /\ x' = (IF given < 0 THEN -x ELSE x) /\ pc' = alg
        /\ UNCHANGED <<given, alg, two, digits, ans>>
Narrow == /\ pc = "narrow"
          /\ IF Mutant = "truncate" THEN IF x > NMax THEN pc' = "refused" /\ UNCHANGED x ELSE x' = Wrap(x, N) /\ pc' = "run"
             ELSE IF x > NMax THEN pc' = "refused" /\ UNCHANGED x
             ELSE /\ x' = (IF x < 0 THEN 0 ELSE x) /\ pc' = "run"
          /\ UNCHANGED <<given, alg, two, digits, ans>>
\* x <= (2^(K-1) * factor)^(3/2), that is 8 * x^2 <= (2^(K-1) * two)^3; the factor is cut to x^(1/6)
Six == IF x < 1 THEN 1 ELSE Root(6, x)
Factor2 == IF two > 2 * Six THEN 2 * Six ELSE two
Within == x < 1 \/ 8 * x * x <= Pow(Pow(2, IF Mutant = "loose" THEN K + 1 ELSE K - 1) * Factor2, 3)
Limit == /\ pc = "wide"
         /\ pc' = IF Within THEN "run" ELSE "refused"
         /\ UNCHANGED <<given, alg, two, x, digits, ans>>
Y == (Root(3, x) * Factor2) \div 2
Z == x \div Y
Compute == /\ pc = "run" /\ pc' = "answered" /\ ans' = (IF x < 2 THEN "zero" ELSE "sum")
           /\ UNCHANGED <<given, alg, two, x, digits>>
Over == pc \in {"refused", "answered"} /\ UNCHANGED vars
Next == Digit \/ Sign \/ Narrow \/ Limit \/ Compute \/ Over
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* an answer belongs to the number given
Right == pc = "answered" => (ans = "zero" /\ given < 2) \/ (ans = "sum" /\ x = given /\ given >= 2)
\* refused numbers are too large for something
Needed == pc = "refused" => Abs(given) > WMax \/ (alg = "narrow" /\ given > NMax) \/ (alg = "wide" /\ ~ Within)
\* below one nothing is refused for its size
Small == (given < 1 /\ Abs(given) <= WMax) => pc # "refused"
\* no later narrowing can lose bits: y >= 1, z < 2^K
Fits == (pc = "run" /\ alg = "wide" /\ x >= 1) => Y >= 1 /\ Z < Pow(2, K)
=============================================================================
