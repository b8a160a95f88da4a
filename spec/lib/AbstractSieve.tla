---------------------------- MODULE AbstractSieve ----------------------------
(***************************************************************************)
(* A stand-in for the primes: the numbers n = r (mod m), whose density is  *)
(* that of the primes around e^m. Counting them in an interval, and finding *)
(* the n-th one from a start, has a closed form, so that the division of    *)
(* an interval among threads and the search for the n-th member can be      *)
(* decided over the whole 64-bit range. The "tuplets" of kind k occupy the  *)
(* places First[k]..Last[k] of every block of 30 numbers: a boundary that   *)
(* may cut a prime constellation cuts one of them.                          *)
(***************************************************************************)
EXTENDS BigInt
ATop == "18446744073709551615"
\* members in [0, n]; quotient rounded down
Upto(m, r, n) == IF BLess(n, r) THEN "0" ELSE BAdd(BQuo(BSub(n, r), m), "1")
Members(m, r, a, b) == IF BLess(b, a) THEN "0" ELSE BSub(Upto(m, r, b), IF a = "0" THEN "0" ELSE Upto(m, r, BSub(a, "1")))
First == <<"0", "29", "7", "11", "11", "7">>
Last_ == <<"0", "31", "13", "19", "23", "23">>
ATuplets(k, a, b) ==
  IF BLess(b, Last_[k]) THEN "0"
  ELSE LET hi == BQuo(BSub(b, Last_[k]), "30")
           lo == IF BLeq(a, First[k]) THEN "0" ELSE BQuo(BAdd(BSub(a, First[k]), "29"), "30")
       IN  IF BLess(hi, lo) THEN "0" ELSE BAdd(BSub(hi, lo), "1")
ACounts(m, r, a, b) ==
  Members(m, r, a, b) \o "/" \o ATuplets(2, a, b) \o "/" \o ATuplets(3, a, b) \o "/" \o ATuplets(4, a, b)
    \o "/" \o ATuplets(5, a, b) \o "/" \o ATuplets(6, a, b)
\* the n-th member above (n > 0) or below (n < 0) start; n = 0: the first one >= start
ANth(m, r, n, start) ==
  LET i == IF n = "0" THEN BAdd(IF start = "0" THEN "0" ELSE Upto(m, r, BSub(start, "1")), "1")
           ELSE IF BLess("0", n) THEN BAdd(Upto(m, r, start), n)
           ELSE BAdd(IF start = "0" THEN "0" ELSE Upto(m, r, BSub(start, "1")), BAdd(n, "1"))
      v == BAdd(r, BMul(m, BSub(i, "1")))
  IN  IF BLess(i, "1") \/ BLess(ATop, v) THEN "error" ELSE v
=============================================================================
