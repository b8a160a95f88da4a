------------------------------- MODULE PsTrace -------------------------------
(* Validation of recorded calls of the sieve library (drv_ps). *)
EXTENDS SieveApi, AbstractSieve, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, cur, size, threads, most
vars == <<s, l, cur, size, threads, most>>
\* settings are unknown ("?") until first read or set; most: the largest number of threads
Init == s \in 1..Len(T) /\ l = 1 /\ cur = "0" /\ size = "?" /\ threads = "?" /\ most = "?"
E == T[s].ev[l]
a == E.a
Is(op) == l <= Len(T[s].ev) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED s
Settings == <<size, threads, most>>
Fine(r) == E.e = "" /\ E.r = r
\* an allowed answer: the value, or the documented error when there is none
Answer(r) == IF r = "error" THEN E.e = "error" \/ E.e = "exception" ELSE Fine(r)

INew == Is("inew") /\ Fine("") /\ cur' = (IF Len(a) < 2 THEN "0" ELSE a[2]) /\ UNCHANGED Settings
ISkip == Is("iskip") /\ Fine("") /\ cur' = a[1] /\ UNCHANGED Settings
IMove == Is("imove") /\ Fine("") /\ UNCHANGED <<cur, size, threads, most>>
INext == Is("inext") /\ cur' = After(cur) /\ Fine(cur') /\ UNCHANGED Settings
IPrev == Is("iprev") /\ cur' = Before(cur) /\ Fine(cur') /\ UNCHANGED Settings
INextN == /\ Is("inextn") /\ UNCHANGED Settings
          /\ cur' = StepsUp(cur, a[1]) /\ Fine(cur' \o "/" \o NPrimesDigest(a[1], BAdd(cur, "1")))
IPrevN == /\ Is("iprevn") /\ UNCHANGED Settings
          /\ cur' = StepsDown(cur, a[1])
          /\ Fine(cur' \o "/" \o PrimesDigest(BMax(cur', "2"), BSub(cur, "1")))

Calls == {"count", "ccount", "print", "cprint", "nth", "cnth", "psieve", "gen", "genn", "gen0", "genn0", "genappend", "cgen", "cgenn", "maxstop", "version"}
R(op) ==
  CASE op \in {"count", "ccount"} -> Count(a[1], a[2], a[3])
    [] op \in {"print", "cprint"} -> Printed(a[1], a[2], a[3])
    [] op \in {"nth", "cnth"} -> Nth(a[1], IF Len(a) = 1 THEN "0" ELSE a[2])
    [] op = "psieve" -> Count("1", a[1], a[2]) \o "/" \o Count("2", a[1], a[2]) \o "/" \o Count("3", a[1], a[2]) \o "/"
                        \o Count("4", a[1], a[2]) \o "/" \o Count("5", a[1], a[2]) \o "/" \o Count("6", a[1], a[2])
    [] op = "gen" -> List(a[1], a[2], a[3])
    [] op = "gen0" -> List(a[1], "0", a[2])
    [] op = "genn" -> ListN(a[1], a[2], a[3])
    [] op = "genn0" -> ListN(a[1], a[2], "0")
    [] op = "genappend" -> List("u64", a[1], a[2])
    [] op = "cgen" -> IF a[1] \in Types THEN List(a[1], a[2], a[3]) ELSE "error"
    [] op = "cgenn" -> IF a[1] \in Types THEN ListN(a[1], a[2], a[3]) ELSE "error"
    [] op = "maxstop" -> U64
    [] op = "version" -> "same"
Call == /\ l <= Len(T[s].ev) /\ E.op \in Calls /\ l' = l + 1 /\ Answer(R(E.op))
        /\ UNCHANGED <<s, cur, size, threads, most>>
SetSize == Is("setsize") /\ Fine("") /\ size' = SizeOf(a[2]) /\ UNCHANGED <<cur, threads, most>>
\* without a setting the library chooses a size by itself, in the same range
GetSize == /\ Is("getsize") /\ E.e = "" /\ UNCHANGED <<cur, threads, most>>
           /\ (IF size = "?" THEN SizeOf(E.r) = E.r ELSE E.r = size) /\ size' = E.r
GetThreads == /\ Is("getthreads") /\ E.e = "" /\ BLess("0", E.r) /\ UNCHANGED <<cur, size>>
              /\ (threads = "?" \/ E.r = threads) /\ threads' = E.r
              /\ most' = IF most = "?" THEN E.r ELSE most
SetThreads == /\ Is("setthreads") /\ Fine("") /\ UNCHANGED <<cur, size, most>>
              /\ threads' = IF most = "?" THEN "?" ELSE Clamp(a[2], "1", most)
\* calls over the stand-in for the primes: the set is an argument of every call
ACount == /\ Is("acount") /\ UNCHANGED <<cur, size, threads, most>>
          /\ (E.r = "?" \/ Fine(ACounts(a[4], a[5], a[1], a[2])))
ANthCall == Is("anth") /\ Answer(ANth(a[4], a[5], a[1], a[2])) /\ UNCHANGED <<cur, size, threads, most>>
Done == l > Len(T[s].ev) /\ UNCHANGED vars
Next == INew \/ ISkip \/ IMove \/ INext \/ IPrev \/ INextN \/ IPrevN \/ Call \/ SetSize \/ GetSize \/ GetThreads \/ SetThreads \/ ACount \/ ANthCall \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
