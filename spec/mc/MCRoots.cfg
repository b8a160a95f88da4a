SPECIFICATION Spec
INVARIANT Exact
INVARIANT InType
CHECK_DEADLOCK FALSE
CONSTANT Max = 1023
CONSTANT Eps = 3
CONSTANT Mutant = "none"
