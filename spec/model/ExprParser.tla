----------------------------- MODULE ExprParser -----------------------------
(***************************************************************************)
(* The operator precedence (shift-reduce) parser of the program, as a      *)
(* state machine over tokens, against the meaning of expressions (ExprSem). *)
(* All token sequences over Alphabet up to MaxLen are parsed. The state    *)
(* before parsing is a generator: with Gen = TRUE the machine only builds  *)
(* token sequences (`hist`), which are replayed into the real parser.      *)
(***************************************************************************)
EXTENDS ExprSem
CONSTANTS Alphabet, MaxLen, Width, Mutant

VARIABLES toks, phase, i, stack, val, want
vars == <<toks, phase, i, stack, val, want>>

\* stack: frames [op, v]; op "(" or "" marks the bottom of a level, "u-" etc. pending unary operators
Init == toks = <<>> /\ phase = "build" /\ i = 1 /\ stack = <<[op |-> "", v |-> "0"]>> /\ val = OK("0") /\ want = "value"

Build == /\ phase = "build" /\ Len(toks) < MaxLen
         /\ \E t \in Alphabet : toks' = Append(toks, t)
         /\ UNCHANGED <<phase, i, stack, val, want>>
Start == phase = "build" /\ phase' = "parse" /\ UNCHANGED <<toks, i, stack, val, want>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Tok == IF i <= Len(toks) THEN toks[i] ELSE ""
Fail(e) == phase' = "done" /\ val' = e /\ UNCHANGED <<toks, i, stack, want>>
Bottom == {"", "("}
IsUnary(f) == f.op \in {"u-", "u+", "u~"}

\* a value is expected
Value ==
  /\ phase = "parse" /\ want = "value"
  /\ IF Tok \in Space THEN i' = i + 1 /\ UNCHANGED <<toks, phase, stack, val, want>>
     ELSE IF NumVal(Tok) # "" THEN
       LET v == Fit(NumVal(Tok), Width)
       IN  IF v.err THEN Fail(v)
           ELSE val' = v /\ i' = i + 1 /\ want' = "op" /\ UNCHANGED <<toks, phase, stack>>
     ELSE IF Tok = "(" THEN stack' = Append(stack, [op |-> "(", v |-> "0"]) /\ i' = i + 1 /\ UNCHANGED <<toks, phase, val, want>>
     ELSE IF Tok \in Unary THEN stack' = Append(stack, [op |-> "u" \o Tok, v |-> "0"]) /\ i' = i + 1 /\ UNCHANGED <<toks, phase, val, want>>
     ELSE Fail(Err)

\* a value is complete: reduce or shift
BinPrec(o) == IF o \in BinOps THEN Prec(o) ELSE 0
Assoc(o) == RightAssoc(o) /\ Mutant # "assoc"
Oper ==
  /\ phase = "parse" /\ want = "op"
  /\ IF IsUnary(Top) THEN     \* unary operators bind strongest
       LET w == ApplyUnary(IF Top.op = "u-" THEN "-" ELSE IF Top.op = "u~" THEN "~" ELSE "+", val.v, Width)
       IN  IF w.err THEN Fail(w)
           ELSE stack' = Pop /\ val' = [w EXCEPT !.lax = @ \/ val.lax] /\ UNCHANGED <<toks, phase, i, want>>
     ELSE IF Tok \in Space THEN i' = i + 1 /\ UNCHANGED <<toks, phase, stack, val, want>>
     ELSE LET p == BinPrec(Tok) q == BinPrec(Top.op) IN
       IF p < q \/ (p = q /\ (~ Assoc(Tok) \/ Tok \notin BinOps) /\ (Mutant # "left" \/ Tok \notin BinOps)) THEN
         IF Top.op \notin Bottom THEN
           LET w == Apply(Top.op, Top.v, val.v, Width)
           IN  IF w.err THEN Fail(w)
               ELSE stack' = Pop /\ val' = [w EXCEPT !.lax = @ \/ val.lax] /\ UNCHANGED <<toks, phase, i, want>>
         ELSE IF Top.op = "(" THEN
           IF Tok = ")" THEN stack' = Pop /\ i' = i + 1 /\ UNCHANGED <<toks, phase, val, want>>
           ELSE Fail(Err)
         ELSE IF i > Len(toks) THEN phase' = "done" /\ UNCHANGED <<toks, i, stack, val, want>>
         ELSE Fail(Err)
       ELSE /\ stack' = Append(stack, [op |-> Tok, v |-> val.v]) /\ i' = i + 1 /\ want' = "value"
            /\ UNCHANGED <<toks, phase, val>>

Next == Build \/ Start \/ Value \/ Oper
Spec == Init /\ [][Next]_vars

\* the parser computes the meaning: same error, same value
Correct == phase = "done" =>
             LET m == Eval(toks, Width)
             IN  IF m.err THEN val.err ELSE (val.err /\ m.lax) \/ (~ val.err /\ val.v = m.v)
\* it never stops in the middle
Progress == phase = "parse" => ENABLED (Value \/ Oper)
=============================================================================
