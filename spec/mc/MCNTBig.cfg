SPECIFICATION Spec
INVARIANT Agree
CONSTANT Kinds = {"sum", "p2", "s1", "phi", "s2", "tup", "iter", "fact", "sieve", "table"}
CHECK_DEADLOCK FALSE
