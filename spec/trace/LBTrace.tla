------------------------------- MODULE LBTrace -------------------------------
(***************************************************************************)
(* Recorded work distribution of the special-leaf computations.             *)
(*                                                                         *)
(*   begin a        a computation starts (arguments of the call)            *)
(*   round a n      the load balancer was asked for the next round: position *)
(*                  reached, threads, segment size and segments per thread   *)
(*                  of the round that ended; n: the new ones. lo, sz: start   *)
(*                  and size of every segment sieved since the last round    *)
(*   rest           the segments sieved after the last decision              *)
(*   S2hz, lmop     the call returned                                        *)
(*   lbnew, lbupd   the load balancer alone, with arbitrary measured times   *)
(*                                                                         *)
(* The segments tile [1, limit[: in order, without overlap, and a number may *)
(* be missing only where no leaf can lie (no prime p_b, b > c, is small      *)
(* enough).                                                                  *)
(***************************************************************************)
EXTENDS NTBig, Json, IOUtils
VARIABLES s, l, low, limit, minseg, call
vars == <<s, l, low, limit, minseg, call>>
T == ndJsonDeserialize(IOEnv.TRACE)
Ev == T[s].ev
E == Ev[l]
Is(op) == l <= Len(Ev) /\ E.op = op /\ l' = l + 1 /\ s' = s

\* y, end of the sieved range and c of a call
Y(a) == IF Len(a) >= 4 THEN a[2] ELSE "0"
LmoY(x) == BRoot("3", x)
LimitOf(op, a) == IF op = "S2hz" THEN BAdd(a[3], "1") ELSE BAdd(BQuo(a[1], LmoY(a[1])), "1")
\* no special leaf n = p_b * m, b > c, has x / n >= n0: then p_b > min(sqrt(x / n0), y [, sqrt z])
NoLeaf(n0) ==
  LET op == call[1] a == call[2]
      r == BRoot("2", BQuo(a[1], n0))
      y == IF op = "S2hz" THEN a[2] ELSE LmoY(a[1])
      m == IF op = "S2hz" THEN BMin(BMin(r, y), BRoot("2", a[3])) ELSE BMin(r, y)
      c == IF op = "S2hz" THEN a[4] ELSE BMin(PrimeCount(y), "8")
  IN  BLeq(PrimeCount(m), c)
PowerOf2(n) == BLeq("1", n) /\ BAnd(n, BSub(n, "1")) = "0"
LegalSeg(n) == PowerOf2(n) /\ BLeq("512", n)

\* the segments <<lo, sz>> cover [from, to[ except where no leaf lies
Covers(lo, sz, from, to) ==
  LET n == Len(lo)
      End(i) == BAdd(lo[i], sz[i])
      Gap(a, b) == a = b \/ NoLeaf(a)
  IN  /\ \A i \in 1..n : BLeq("1", sz[i])
      /\ IF n = 0 THEN BLeq(to, from) \/ NoLeaf(from)
         ELSE /\ BLeq(from, lo[1]) /\ Gap(from, lo[1])
              /\ \A i \in 1..(n - 1) : BLeq(End(i), lo[i + 1]) /\ Gap(End(i), lo[i + 1])
              /\ BLeq(to, End(n)) \/ NoLeaf(End(n))
              /\ BLess(lo[n], limit)

Init == s \in 1..Len(T) /\ l = 1 /\ low = "1" /\ limit = "0" /\ minseg = "0" /\ call = <<>>
Env == /\ (Is("sched") \/ Is("clock") \/ Is("setalpha")) /\ E.e = "" /\ UNCHANGED <<low, limit, minseg, call>>
Begin == /\ Is("begin")
         /\ low' = "1" /\ call' = <<E.r, E.a>> /\ limit' = LimitOf(E.r, E.a) /\ UNCHANGED minseg
Round == /\ Is("round")
         /\ BLess(low, E.a[1])                                  \* progress: it ends
         /\ BLess(low, limit)                                   \* no round after the end
         /\ BLeq("1", E.a[2]) /\ LegalSeg(E.a[3]) /\ BLeq("1", E.a[4])
         /\ LegalSeg(E.n[1]) /\ BLeq("1", E.n[2])
         /\ TRUE = ((E.lo = <<>> /\ ~ T[s].segs) \/ Covers(E.lo, E.sz, low, BMin(E.a[1], limit)))
         /\ \A i \in DOMAIN E.lo : BLeq(BAdd(E.lo[i], E.sz[i]), E.a[1]) /\ LegalSeg(E.sz[i])
         /\ low' = E.a[1] /\ UNCHANGED <<limit, minseg, call>>
\* what remains after the last decision (all of it when decisions are not observable)
Rest == /\ Is("rest")
        /\ TRUE = ((E.lo = <<>> /\ ~ T[s].segs) \/ BLeq(limit, low) \/ Covers(E.lo, E.sz, low, limit))
        /\ low' = limit /\ UNCHANGED <<limit, minseg, call>>
Return == /\ (Is("S2hz") \/ Is("lmop"))
          /\ E.e = "" /\ BLeq(limit, low)
          /\ E.r = CASE E.op = "lmop" -> PrimeSum(E.a[1])
                     [] BQuo(E.a[1], E.a[2]) = E.a[3] -> S2HardSum(E.a[1], E.a[2], E.a[4])
                     [] OTHER -> S2HardUpTo(E.a[1], E.a[2], E.a[3], E.a[4])
          /\ UNCHANGED <<low, limit, minseg, call>>
New == /\ Is("lbnew") /\ E.e = "" /\ LegalSeg(E.r) /\ minseg' = E.r /\ UNCHANGED <<low, limit, call>>
Update == /\ Is("lbupd") /\ E.e = ""
          /\ LegalSeg(E.n[1]) /\ BLeq(minseg, E.n[1]) /\ BLeq("1", E.n[2])
          \* it changes by at most a factor of two, unless it is set to the minimum
          /\ UNCHANGED <<low, limit, minseg, call>>
Done == l > Len(Ev) /\ UNCHANGED vars
Next == Env \/ Begin \/ Round \/ Rest \/ Return \/ New \/ Update \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
