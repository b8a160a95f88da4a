------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* How the plain tables are computed: the prime bitmap with one prefix      *)
(* count per word, the product trick for mu, the least factor sieve, prime  *)
(* counts from a sieve and prefix sums of the primes.                       *)
(***************************************************************************)
EXTENDS NumberTheory
CONSTANTS MaxN, Word, Mutant
VARIABLES max, i, mu, lpf, sieve, words, psum
vars == <<max, i, mu, lpf, sieve, words, psum>>
R == 0..max
\* word w: the primes in it and the number of primes in the words before
Init == /\ max \in 1..MaxN /\ i = 2
        /\ mu = [n \in R |-> 1] /\ lpf = [n \in R |-> 1] /\ sieve = [n \in R |-> TRUE]
        /\ words = [w \in 0..max \div Word |-> [bits |-> { n \in Primes(max) : n \div Word = w },
                                                count |-> Pi(w * Word - 1)]]
        /\ psum = [k \in 0..Pi(max) |-> LET ps == PrimeSeq(max) IN SumOver(1..k, LAMBDA j : ps[j])]
Limit == IF Mutant = "sqrt" THEN ISqrt(max) - 1 ELSE ISqrt(max)
\* one step of the outer loops
Step ==
  /\ i <= Limit
  /\ sieve' = IF sieve[i] THEN [n \in R |-> IF n % i = 0 /\ n >= i * i THEN FALSE ELSE sieve[n]] ELSE sieve
  /\ lpf' = IF lpf[i] = 1 THEN [n \in R |-> IF n % i = 0 /\ n >= (IF Mutant = "start" THEN i * (i + 1) ELSE i * i) /\ lpf[n] = 1 THEN i ELSE lpf[n]] ELSE lpf
  /\ mu' = IF mu[i] = 1 THEN [n \in R |-> IF n > 0 /\ n % (i * i) = 0 THEN 0 ELSE IF n > 0 /\ n % i = 0 THEN -i * mu[n] ELSE mu[n]] ELSE mu
  /\ i' = i + 1 /\ UNCHANGED <<max, words, psum>>
Spec == Init /\ [][Step]_vars
Finished == i > Limit
MuFinal(n) == IF mu[n] = n THEN 1 ELSE IF mu[n] = -n THEN -1 ELSE IF mu[n] < 0 THEN 1 ELSE IF mu[n] > 0 THEN -1 ELSE 0
MuOk == Finished => \A n \in 2..max : MuFinal(n) = Mu(n)
LpfOk == Finished => \A n \in 2..max : (IF lpf[n] = 1 THEN n ELSE lpf[n]) = Lpf(n)
PiOk == Finished => \A n \in 0..max : Cardinality({ k \in 2..n : sieve[k] }) = Pi(n)
\* number of set bits of the word up to and including the position
BitmapOk == Finished => \A n \in R : LET w == words[n \div Word]
              IN  w.count + Cardinality({ b \in w.bits : b % Word <= (IF Mutant = "mask" THEN (n % Word) - 1 ELSE n % Word) }) = Pi(n)
SumsOk == Finished => \A n \in 2..max : psum[Pi(n)] = SumPrimes(n)
=============================================================================
