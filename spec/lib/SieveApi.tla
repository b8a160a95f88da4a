------------------------------ MODULE SieveApi ------------------------------
(***************************************************************************)
(* What the calls of the sieve library return (decimal strings). "error"   *)
(* stands for the documented error report of the interface.                *)
(***************************************************************************)
EXTENDS NTBig
U64 == "18446744073709551615"
\* largest prime below 2^64
Top == "18446744073709551557"
IsU64(x) == BLeq("0", x) /\ BLeq(x, U64)
MaxOf(t) == CASE t = "i16" -> "32767" [] t = "u16" -> "65535" [] t = "i32" -> "2147483647" [] t = "u32" -> "4294967295"
              [] t = "i64" -> "9223372036854775807" [] t = "u64" -> U64
Types == {"i16", "u16", "i32", "u32", "i64", "u64"}
Clamp(x, a, b) == BMin(BMax(x, a), b)

(***************************** the prime cursor ****************************)
After(c) == IF BLess(c, Top) THEN NextPrimeB(c) ELSE U64       \* 2^64 - 1: no such prime
Before(c) == PrevPrimeB(c)                                      \* 0: no such prime
\* primes strictly above / below the cursor, ascending, as a digest
StepsUp(c, k) == NthPrimeFrom(k, c)
StepsDown(c, k) == NthPrimeFrom(BSub("0", k), c)

(************************** counts, lists, n-th prime **********************)
Count(k, a, b) == IF BLess(b, a) THEN "0" ELSE CountTuplets(k, a, BMin(b, U64))
Printed(k, a, b) == IF BLess(b, a) THEN PrimesDigest("1", "0") ELSE TupletText(k, a, b)
\* the n-th prime above (n > 0) or below (n < 0) start; n = 0: the first prime >= start
Nth(n, start) ==
  LET r == IF n # "0" THEN NthPrimeFrom(n, start) ELSE IF start = "0" THEN "2" ELSE NthPrimeFrom("1", BSub(start, "1"))
  IN  IF BLess(Top, r) \/ r = "0" THEN "error" ELSE r
List(t, a, b) ==
  LET n == Count("1", a, b)
      last == IF n = "0" THEN "0" ELSE IF BLess(b, U64) THEN PrevPrimeB(BAdd(b, "1")) ELSE Top
  IN  IF BLess(MaxOf(t), last) THEN "error"
      ELSE n \o "/" \o (IF n = "0" THEN PrimesDigest("1", "0") ELSE PrimesDigest(a, b))
\* the first n primes >= start
ListN(t, n, start) ==
  IF n = "0" THEN "0/" \o PrimesDigest("1", "0")
  ELSE IF BLess("1000000000000", n) THEN "error"            \* more than memory holds
  ELSE LET from == IF start = "0" THEN "0" ELSE BSub(start, "1")
           last == NthPrimeFrom(n, from)
       IN  IF BLess(BMin(Top, MaxOf(t)), last) THEN "error" ELSE n \o "/" \o NPrimesDigest(n, start)

(******************************** settings *********************************)
SizeOf(n) == LET c == Clamp(n, "8", "4096")
             IN  CHOOSE p \in {"8", "16", "32", "64", "128", "256", "512", "1024", "2048", "4096"} :
                   BLeq(p, c) /\ BLess(c, BMul("2", p))
=============================================================================
