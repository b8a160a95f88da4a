--------------------------- MODULE PrimeSumSystem ---------------------------
(***************************************************************************)
(* The library as its callers see it: a process holding a few settings,    *)
(* and calls whose answers are functions of their arguments alone. The     *)
(* answers are the mathematical definitions of NTBig; the settings may     *)
(* only change how an answer is computed, never the answer (except that    *)
(* the tuning factor moves the largest x that is accepted).                *)
(*                                                                         *)
(* All values are text: numbers are decimal strings, doubles have 17       *)
(* significant digits.                                                     *)
(***************************************************************************)
EXTENDS Limits

VARIABLES alpha,     \* tuning factor as set; "-1": never set
          threads,   \* number of threads as set; "0": never set
          prec,      \* status precision as set; "-1": never set
          cores      \* what the OpenMP runtime reports as maximum ("0": not controlled)
vars == <<alpha, threads, prec, cores>>

SystemInit == alpha = "-1" /\ threads = "0" /\ prec = "-1" /\ cores = "0"

Clamp(lo, v, hi) == IF BLess(v, lo) \/ BLess(hi, lo) THEN lo ELSE IF BLess(hi, v) THEN hi ELSE v

---------------------------------------------------------------------------
(* Settings *)
SetAlpha(v) == alpha' = v /\ UNCHANGED <<threads, prec, cores>>
SetThreads(n) == /\ threads' = IF cores = "0" THEN "?" ELSE Clamp("1", n, cores)
                 /\ UNCHANGED <<alpha, prec, cores>>
SetPrecision(n) == prec' = Clamp("0", n, "5") /\ UNCHANGED <<alpha, threads, cores>>
SetCores(n) == cores' = n /\ UNCHANGED <<alpha, threads, prec>>

GetThreads == IF threads = "0" THEN cores ELSE threads
GetPrecision(x) == IF prec # "-1" THEN prec
                   ELSE IF BLeq(BPow("10", "23"), x) THEN "2"
                   ELSE IF BLeq(BPow("10", "21"), x) THEN "1" ELSE "0"

---------------------------------------------------------------------------
(* The tuning factor moves the limit on x (module Limits). *)
AlphaSet == IsSet(alpha)
Beyond(x) == BeyondA(x, alpha)
Within(x) == WithinA(x, alpha)

\* value v or refusal, for the algorithms with a limit
Answered(x, r, e) == e = "" /\ r = PrimeSum(x)
PiCall(x, r, e) ==
  CASE BLess(x, "2") -> e = "" /\ r = "0"
    [] Beyond(x) -> e = "error"
    [] Within(x) -> Answered(x, r, e)
    [] OTHER -> e = "error" \/ Answered(x, r, e)

\* the parallel and sequential LMO variants have no limit of their own within reach
LmoCall(x, r, e) == IF BLess(x, "2") THEN e = "" /\ r = "0" ELSE Answered(x, r, e)

Val(r, e, v) == e = "" /\ r = v

(***************************************************************************)
(* Does the system allow answer (r, e) to call (op, a) in the current       *)
(* state? The state enters only through the limit on x.                     *)
(***************************************************************************)
Allows(op, a, r, e) ==
  CASE op \in {"pi", "pi1", "dr", "drp"} -> PiCall(a[1], r, e)
    [] op \in {"pistr", "pistrt"} -> PiCall(a[1], r, e)
    [] op \in {"lmo", "lmop", "lmo1", "lmo2", "lmo3", "lmo4", "lmo5"} -> LmoCall(a[1], r, e)
    \* components for explicit x, y, c
    [] op = "P2" -> Val(r, e, P2Sum(a[1], a[2]))
    [] op = "S1" -> Val(r, e, S1Sum(a[1], a[2], a[3]))
    [] op = "S2t" -> Val(r, e, S2TrivialSum(a[1], a[2], a[3]))
    [] op = "S2e" -> Val(r, e, S2EasySum(a[1], a[2], a[3]))
    [] op = "S2h" -> Val(r, e, S2HardSum(a[1], a[2], a[3]))
    [] op = "S2tBig" -> Val(r, e, S2TrivialBig(a[1], a[2], a[3]))
    [] op = "S2eBig" -> Val(r, e, S2EasyBig(a[1], a[2], a[3]))
    [] op = "S2eTail" -> Val(r, e, S2EasyBig(a[1], a[2], BSub(PrimeCount(BRoot("3", a[1])), a[3])))
    [] op = "S2hz" -> Val(r, e, S2HardUpTo(a[1], a[2], a[3], a[4]))
    \* ordinary leaves in a range: S1(x, y2) - S1(x, y1), for y1 < y2
    [] op = "S1d" -> Val(r, e, S1Between(a[1], a[2], a[3], a[4]))
    \* recombined from all parts
    [] op = "parts" -> Val(r, e, PrimeSum(a[1]))
    [] op = "phisum_parts" -> Val(r, e, BAdd(BSub(PrimeSum(a[1]), PrimeSum(a[2])), BAdd("1", P2Sum(a[1], a[2]))))
    [] op = "mparts" -> e = ""               \* its consistency is checked by MPartsOK below
    \* partial sieve functions and counting
    [] op \in {"phi", "phi1"} -> Val(r, e, Phi(a[1], a[2]))
    [] op \in {"phis64", "phis128"} -> Val(r, e, PhiSum(a[1], a[2]))
    [] op \in {"tiny", "tiny64"} -> Val(r, e, Phi(a[1], a[2]))
    [] op \in {"leg", "leg1"} -> Val(r, e, PrimeCount(a[1]))
    [] op = "pst" -> Val(r, e, PrimeSum(a[1]))
    [] op = "nth" -> Val(r, e, IF BLess(a[1], "1") THEN "0" ELSE NthPrimeFrom(a[1], "0"))
    \* how many primes the closed forms take: all primes <= y, or enough of them
    [] op = "getc" -> e = "" /\ LET n == PrimeCount(a[1]) IN r = n \/ (BLess(r, n) /\ BLeq("4", r))
    \* parameters
    [] op = "getthreads" -> e = "" /\ (GetThreads \in {"0", "?"} \/ r = GetThreads)
    [] op = "getprec" -> Val(r, e, GetPrecision(a[1]))
    [] op = "getalpha" -> e = "" /\ DoubleEq(r, alpha)
    [] op = "maxx" -> e = "" /\ BInRange(r, MaxXLow(a[1]), MaxXHigh(a[1]))
    [] op \in {"alphadr", "alphalmo"} ->
         LET six == BMax("1", BRoot("6", a[1]))
         IN  /\ e = "" /\ ~ DoubleLess(r, "1") /\ ~ DoubleLess(six, r)
             /\ AlphaSet => DoubleEq(r, IF DoubleLess(six, alpha) THEN six ELSE alpha)
    [] op = "ideal" -> /\ e = "" /\ BLeq("1", r)
                       /\ r = BMax("1", BMin(a[1], BQuo(a[2], BMax("1", a[3]))))
    [] op = "version" -> e = "" /\ r # ""
    [] OTHER -> FALSE
=============================================================================
