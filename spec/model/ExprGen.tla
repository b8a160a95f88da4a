------------------------------ MODULE ExprGen ------------------------------
(* Generator of well-formed expressions by the documented grammar; TLC's    *)
(* simulation mode produces random behaviours, `hist` is the token list.    *)
EXTENDS Integers, Sequences
CONSTANTS Literals, SmallLiterals, MaxLen
VARIABLES hist, depth, want, kind
vars == <<hist, depth, want, kind>>
Init == hist = <<>> /\ depth = 0 /\ want = "value" /\ kind = "small"
Kinds == {"small", "lit", "open", "unary", "close", "op", "space", "pow"}
\* the next kind is chosen first, so that kinds are equally likely
Choose == kind' \in Kinds
Room == Len(hist) < MaxLen
Lit == want = "value" /\ kind = "lit" /\ \E x \in Literals : hist' = Append(hist, x) /\ want' = "op" /\ UNCHANGED depth
Small == want = "value" /\ kind = "small" /\ \E x \in SmallLiterals : hist' = Append(hist, x) /\ want' = "op" /\ UNCHANGED depth
Open == Room /\ want = "value" /\ kind = "open" /\ hist' = Append(hist, "(") /\ depth' = depth + 1 /\ UNCHANGED want
Un == Room /\ want = "value" /\ kind = "unary" /\ \E x \in {"-", "+", "~"} : hist' = Append(hist, x) /\ UNCHANGED <<depth, want>>
Close == want = "op" /\ kind = "close" /\ depth > 0 /\ hist' = Append(hist, ")") /\ depth' = depth - 1 /\ UNCHANGED want
Op == Room /\ want = "op" /\ kind = "op" /\ \E x \in {"|", "&", "<<", ">>", "+", "-", "*", "/", "%"} : hist' = Append(hist, x) /\ want' = "value" /\ UNCHANGED depth
Pow == Room /\ want = "op" /\ kind = "pow" /\ \E x \in {"**", "^", "e", "E"} : hist' = Append(hist, x) /\ want' = "value" /\ UNCHANGED depth
Blank == Room /\ kind = "space" /\ hist' = Append(hist, " ") /\ UNCHANGED <<depth, want>>
Skip == kind # "small" /\ UNCHANGED <<hist, depth, want>>     \* the kind was not applicable
Applicable == \/ want = "value" /\ kind \in {"small", "lit"}
              \/ Room /\ want = "value" /\ kind \in {"open", "unary"}
              \/ Room /\ want = "op" /\ kind \in {"op", "pow"}
              \/ want = "op" /\ kind = "close" /\ depth > 0
              \/ Room /\ kind = "space" /\ (hist = <<>> \/ hist[Len(hist)] # " ")
Step == IF Applicable THEN Lit \/ Small \/ Open \/ Un \/ Close \/ Op \/ Pow \/ Blank
        ELSE UNCHANGED <<hist, depth, want>>
Stop == ~ Room /\ want = "op" /\ depth = 0
Next == ~ Stop /\ Choose /\ Step
Spec == Init /\ [][Next]_vars
=============================================================================
