----------------------------- MODULE AlphaSearch -----------------------------
(***************************************************************************)
(* The tuning script: for each exponent n it measures runs with factors on  *)
(* a grid around the program's own factor, then on finer grids around the    *)
(* fastest factor so far, and reports that factor. Numbers are thousandths.   *)
(* Measured times are arbitrary (Valley = FALSE), or grow with the distance    *)
(* from an optimum c (Valley = TRUE).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N,        \* number of exponents
          Alphas,   \* factors the program may use by itself
          Times,    \* possible times; with Valley: times of the optimum
          Valley, Mutant
VARIABLES n, pc, j, rep, a0, new, top, inc, f, fs,
          c, base,           \* the optimum
          best, bestA, low,  \* smallest time so far, first factor that had it, least factor measured
          runs, line,
          hist               \* choices, for generating histories
vars == <<n, pc, j, rep, a0, new, top, inc, f, fs, c, base, best, bestA, low, runs, line, hist>>
Inf == 1000000000
Bigger(a, b) == IF a > b THEN a ELSE b
Absol(a) == IF a < 0 THEN -a ELSE a
Cs(a) == IF Valley THEN {(a * k) \div 100 : k \in {55, 60, 62, 65, 75, 80, 90, 100, 110, 115, 130, 140, 145}} ELSE {0}

Init == /\ n = 1 /\ pc = "begin" /\ j = 0 /\ rep = 3 /\ a0 = 0 /\ new = 0 /\ top = 0 /\ inc = 0 /\ f = 1000 /\ fs = Inf
        /\ c = 0 /\ base = 0 /\ best = -1 /\ bestA = 0 /\ low = Inf /\ runs = 0 /\ line = << >> /\ hist = << >>
Begin == /\ pc = "begin" /\ n <= N
         /\ a0' \in Alphas /\ c' \in Cs(a0') /\ base' \in (IF Valley THEN Times ELSE {0})
         /\ f' = (IF Mutant = "keep" /\ n > 1 THEN f ELSE 1000) /\ fs' = (IF Mutant = "keep" THEN fs ELSE Inf)
         /\ j' = 0 /\ pc' = "coarse" /\ best' = -1 /\ bestA' = 0 /\ low' = Inf /\ runs' = 0 /\ line' = << >>
         /\ hist' = hist \o <<"alpha", ToString(a0'), ToString(c'), ToString(base')>>
         /\ UNCHANGED <<n, rep, new, top, inc>>
Grid(m, part, k) ==
  LET p == m \div part
      lo == IF Mutant = "unclamped" THEN m - p ELSE Bigger(1000, m - p)
  IN  /\ top' = m + p /\ new' = lo
      /\ inc' = (IF Mutant = "no step" THEN (m + p - lo) \div (k * 16) ELSE Bigger(100, (m + p - lo) \div k))
Coarse == /\ pc = "coarse"
          /\ IF j < rep THEN Grid(a0, 2, 4) /\ pc' = "measure1" /\ UNCHANGED j
             ELSE UNCHANGED <<new, top, inc>> /\ pc' = (IF fs > 0 THEN "fine" ELSE "report") /\ j' = 0
          /\ UNCHANGED <<n, rep, a0, f, fs, c, base, best, bestA, low, runs, line, hist>>
Fine == /\ pc = "fine"
        /\ IF j < rep THEN Grid(IF Mutant = "around own" THEN a0 ELSE f, 8, 8) /\ pc' = "measure2" /\ UNCHANGED j
           ELSE UNCHANGED <<new, top, inc>> /\ pc' = "report" /\ j' = j
        /\ UNCHANGED <<n, rep, a0, f, fs, c, base, best, bestA, low, runs, line, hist>>
TimesAt(a) == IF Valley THEN {base + Absol(a - c)} ELSE Times
Better(t) == IF Mutant = "last" THEN t <= fs ELSE t < fs
Measure(back) ==
  IF new > top THEN /\ pc' = back /\ j' = j + 1 /\ UNCHANGED <<n, rep, a0, new, top, inc, f, fs, c, base, best, bestA, low, runs, line, hist>>
  ELSE \E t \in TimesAt(new) :
       /\ f' = (IF Better(t) THEN new ELSE f) /\ fs' = (IF Better(t) THEN t ELSE fs)
       /\ best' = (IF best = -1 \/ t < best THEN t ELSE best)
       /\ bestA' = (IF best = -1 \/ t < best THEN new ELSE bestA)
       /\ low' = (IF new < low THEN new ELSE low)
       /\ runs' = runs + 1
       /\ rep' = (IF pc = "measure2" THEN rep ELSE IF t > 20000 THEN 1 ELSE IF t > 3000 THEN 2 ELSE rep)
       /\ IF pc = "measure1" /\ t = 0 THEN pc' = back /\ j' = j + 1 /\ UNCHANGED new
          ELSE new' = new + inc /\ UNCHANGED <<pc, j>>
       /\ hist' = Append(hist, ToString(t))
       /\ UNCHANGED <<n, a0, top, inc, c, base, line>>
Measure1 == pc = "measure1" /\ Measure("coarse")
Measure2 == pc = "measure2" /\ Measure("fine")
Report == /\ pc = "report" /\ pc' = "begin" /\ n' = n + 1
          /\ line' = <<IF f = 1000 \/ fs = 0 THEN "undef" ELSE "factor", f, fs>>
          /\ UNCHANGED <<j, rep, a0, new, top, inc, f, fs, c, base, best, bestA, low, runs, hist>>
Stop == pc = "begin" /\ n > N /\ UNCHANGED vars
Next == Begin \/ Coarse \/ Fine \/ Measure1 \/ Measure2 \/ Report \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<n, pc, j, rep, a0, new, top, inc, f, fs, c, base, best, bestA, low, runs, line>>

\* the line tells the smallest time measured and the first factor that had it
Truth == line # << >> => /\ line[3] = best
                         /\ line[1] = (IF bestA = 1000 \/ best = 0 THEN "undef" ELSE "factor")
                         /\ line[1] = "factor" => line[2] = bestA
\* factors below 1 are not valid
Valid == low >= 1000
\* at most 3 times 6 and 3 times 10 runs for each exponent
Few == runs <= 48
\* long runs are repeated less often
Fewer == line # << >> => /\ best > 3000 => runs <= 32
                         /\ best > 20000 => runs <= 16
\* close to the optimum (a grid has steps of 0.1 at least)
Near(a) == Absol(a - c) <= Bigger(200, c \div 6)
Close == (Valley /\ line # << >> /\ line[1] = "factor") => Near(line[2])
Finishes == <>(n > N)
=============================================================================
