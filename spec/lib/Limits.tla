------------------------------ MODULE Limits ------------------------------
(* Largest x: (2^61 * factor)^(3/2), where the factor in use is the one set, *)
(* cut to [1, floor(x^(1/6))]; unset factors follow an internal formula.     *)
EXTENDS NTBig
IsSet(alpha) == ~ DoubleLess(alpha, "1")
CapTo(alpha, x) == LET six == BRoot("6", x) IN IF DoubleLess(six, alpha) THEN six ELSE alpha
\* is x certainly beyond / certainly within the limit? ("?": factor unknown)
BeyondA(x, alpha) == IF alpha = "?" \/ ~ IsSet(alpha) THEN BLess(MaxXHigh(BRoot("6", x)), x)
                     ELSE BLess(MaxXHigh(CapTo(alpha, x)), x)
WithinA(x, alpha) == IF alpha = "?" THEN BLeq(x, MaxXLow("1"))
                     ELSE IF IsSet(alpha) THEN BLeq(x, MaxXLow(CapTo(alpha, x)))
                     ELSE BLeq(x, BPow("10", "24"))
=============================================================================
